// X08: cross matching of catalogs.
#include "astro_h.hpp"
#include <vif/astro/qxmatch.hpp>
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>; typedef long double L;
struct Cat { vec1d ra, dec; };
struct Field { bool lin; double x0, y0, w, h; };
static Field field(Tape& t, bool lin) { Field f; f.lin = lin; if (lin) { double s = std::pow(10.0, t.range(-3, 3)); f.x0 = s*double(t.range(-5, 5)); f.y0 = s*double(t.range(-5, 5)); f.w = s; f.h = t.coin() ? s : s*(0.1 + t.unit()); } else { double dmax = 60; double s = t.chance(1, 4) ? 0.5 : std::pow(10.0, -4 + 3.6*t.unit()); f.y0 = t.chance(1, 3) ? 0 : -dmax + 2*dmax*t.unit(); f.x0 = 10 + 330*t.unit(); f.w = s; f.h = t.coin() ? s : s*(0.1 + 0.9*t.unit()); } return f; }
static Cat cat(Tape& t, const Field& f, size_t n, int mode) { Cat c; for (size_t i = 0; i < n; ++i) { double x, y; switch (mode) { case 0: x = f.x0 + f.w*t.unit(); y = f.y0 + f.h*t.unit(); break; case 1: x = f.x0 + f.w*double(t.range(0, 4))/4; y = f.y0 + f.h*double(t.range(0, 4))/4; break; case 2: x = f.x0; y = f.y0 + f.h*t.unit(); break; case 3: x = f.x0 + f.w*t.unit(); y = f.y0; break; default: x = f.x0 + f.w*(t.chance(1, 8) ? t.unit() : 0.05*t.unit()); y = f.y0 + f.h*(t.chance(1, 8) ? t.unit() : 0.05*t.unit()); } c.ra.push_back(x); c.dec.push_back(y); } return c; }
static double dist(bool lin, double x1, double y1, double x2, double y2) { if (lin) return double(sqrtl(L(x1-x2)*L(x1-x2) + L(y1-y2)*L(y1-y2))); const L r = acosl(-1.0L)/180; L a = sinl((L(x2) - x1)*r/2), b = sinl((L(y2) - y1)*r/2); return double(2*asinl(sqrtl(b*b + a*a*cosl(y1*r)*cosl(y2*r)))/r*3600); }
static bool eq(double a, double b, double sc) { return std::fabs(a - b) <= 1e-7*std::fabs(b) + sc; }
static void match(Tape& t, bool lin, bool self, size_t th, size_t nmax) {
    Field f = field(t, lin); int m1 = int(t.draw(5)), m2 = int(t.draw(5)); size_t n1 = t.chance(1, 3) ? t.draw(4) : t.draw(nmax + 1), n2 = t.chance(1, 3) ? t.draw(12) : t.draw(nmax + 1); Cat a = cat(t, f, n1, m1), b; if (self) { b = a; n2 = n1; } else { Field g = f; if (t.chance(1, 3)) { g.x0 += f.w*(2*t.unit() - 1); g.y0 += f.h*(2*t.unit() - 1); } if (t.chance(1, 4)) { g.w *= 0.1 + t.unit(); g.h *= 0.1 + t.unit(); } b = cat(t, g, n2, m2); if (n1 && n2 && t.chance(1, 3)) for (size_t i = 0; i < std::min(n1, n2)/2 + 1; ++i) { b.ra[i] = a.ra[i]; b.dec[i] = a.dec[i]; } }
    qxmatch_params p; p.thread = th; p.nth = t.coin() ? 1 : 1 + t.draw(6); p.brute_force = t.chance(1, 4); p.no_mirror = t.chance(1, 4); p.linear = lin; t.note(lin ? "linear " : "sky ", self ? "self " : "", int(n1), " ", int(n2), " nth=", int(p.nth), p.brute_force ? " brute" : "", p.no_mirror ? " nomirror" : "", " th=", int(th), " field ", f.x0, ",", f.y0, " ", f.w, "x", f.h); if (n1 + n2 <= 60) t.note(a.ra, a.dec, b.ra, b.dec);
    Cat a0 = a, b0 = b; qxmatch_res r; switch (t.draw(2)) { case 0: r = self ? qxmatch(a.ra, a.dec, p) : qxmatch(a.ra, a.dec, b.ra, b.dec, p); break; default: r = self ? qxmatch(a, p) : qxmatch(a, b, p); } CHECK(a.ra.data == a0.ra.data && a.dec.data == a0.dec.data && b.ra.data == b0.ra.data, "input changed");
    CHECK(r.id.dims[0] == p.nth && r.id.dims[1] == n1 && r.d.dims[0] == p.nth && r.d.dims[1] == n1, "dimensions of the result"); double sc = lin ? 1e-7*(f.w + f.h) : 1e-6; 
    for (size_t i = 0; i < n1; ++i) { V<double> w; for (size_t j = 0; j < n2; ++j) if (!(self && i == j)) w.push_back(dist(lin, a.ra[i], a.dec[i], b.ra[j], b.dec[j])); std::sort(w.begin(), w.end()); std::set<size_t> seen; for (size_t k = 0; k < p.nth; ++k) { if (k >= w.size()) { CHECK(r.id(k, i) == npos && !(r.d(k, i) < 1e300), "neighbour ", k, " of source ", i, " does not exist but has id ", r.id(k, i), " distance ", r.d(k, i)); continue; } size_t j = r.id(k, i); CHECK(j < n2, "neighbour ", k, " of source ", i, " not found"); CHECK(!(self && i == j), "source matched to itself"); CHECK(seen.insert(j).second, "same neighbour twice for source ", i); double d = dist(lin, a.ra[i], a.dec[i], b.ra[j], b.dec[j]); CHECK(eq(r.d(k, i), d, sc), "distance of neighbour ", k, " of source ", i, " is ", r.d(k, i), " expected ", d); CHECK(eq(d, w[k], sc), "neighbour ", k, " of source ", i, " is at ", d, " but there is one at ", w[k]); } }
    if (p.no_mirror) CHECK(r.rid.empty() && r.rd.empty(), "no_mirror"); else { CHECK(r.rid.size() == n2 && r.rd.size() == n2, "dimensions of the reverse match"); if (!self) for (size_t j = 0; j < n2; ++j) { double w = 1e300; for (size_t i = 0; i < n1; ++i) w = std::min(w, dist(lin, a.ra[i], a.dec[i], b.ra[j], b.dec[j])); if (n1 == 0) { CHECK(r.rid[j] == npos); continue; } CHECK(r.rid[j] < n1, "no reverse match for ", j); size_t i = r.rid[j]; double d = dist(lin, a.ra[i], a.dec[i], b.ra[j], b.dec[j]); CHECK(eq(r.rd[j], d, sc), "distance of the reverse match of ", j, " is ", r.rd[j], " expected ", d); CHECK(eq(d, w, sc), "reverse match of ", j, " is at ", d, " but there is one at ", w); } }
    if (!p.no_mirror && !self) { id_pair c = xmatch_clean_best(r); CHECK(c.id1.size() == c.id2.size() && c.id1.size() + c.lost.size() == n1, "every source is matched or lost"); std::set<size_t> s; for (auto i : c.id1) s.insert(i); for (auto i : c.lost) s.insert(i); CHECK(s.size() == n1, "source both matched and lost"); for (size_t k = 0; k < c.id1.size(); ++k) CHECK(r.id(0, c.id1[k]) == c.id2[k] && r.rid[c.id2[k]] == c.id1[k], "clean match is not the best one both ways"); for (auto i : c.lost) CHECK(n2 == 0 || r.rid[r.id(0, i)] != i, "lost source is the best match"); }
    if (n1 > 3 && n2 > 3) t.nontrivial();
}
SUB("sky", 40) { match(t, false, false, 1, 60); }
SUB("sky large", 8) { match(t, false, false, 1, 400); }
SUB("linear", 20) { match(t, true, false, 1, 60); }
SUB("self", 10) { match(t, false, true, 1, 60); }
SUB("self linear", 6) { match(t, true, true, 1, 60); }
SUB("threads", 1) { match(t, t.chance(1, 4), t.chance(1, 4), 2 + t.draw(4), 40); }
SUB("distances", 3) {
    Field f = field(t, false); size_t n = t.draw(12); Cat a = cat(t, f, n, int(t.draw(5))); vec2d d = qdist(a.ra, a.dec); CHECK(d.dims[0] == n && d.dims[1] == n); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) CHECK(eq(d(j, i), dist(false, a.ra[i], a.dec[i], a.ra[j], a.dec[j]), 1e-6), "distance"); if (n > 3) t.nontrivial();
}
SUB("errors", 1) {
    Field f = field(t, false); size_t n = 1 + t.draw(12); Cat a = cat(t, f, n, 0), b = cat(t, f, n, 0); Cat c = a; switch (t.draw(3)) { case 0: c.ra.push_back(1); break; case 1: c.dec[t.draw(n)] = dnan; break; default: c.ra[t.draw(n)] = dinf; } CHECK(errors([&] { qxmatch(c, b); }) && errors([&] { qxmatch(b, c); }), "invalid coordinates accepted"); t.nontrivial();
}
