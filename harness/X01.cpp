// X01: distances, rotations and conventions of sky coordinates.
#include "astro_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
typedef long double L; struct C { L x, y, z; };
static const L D2R = 3.14159265358979323846264338327950288L/180;
static C dir(double ra, double dec) { L r = L(ra)*D2R, d = L(dec)*D2R; return {cosl(d)*cosl(r), cosl(d)*sinl(r), sinl(d)}; }
static L sep(C a, C b) { L cx = a.y*b.z - a.z*b.y, cy = a.z*b.x - a.x*b.z, cz = a.x*b.y - a.y*b.x; return atan2l(sqrtl(cx*cx + cy*cy + cz*cz), a.x*b.x + a.y*b.y + a.z*b.z)/D2R; } // degrees
static double angle(Tape& t, double lo, double hi) { double x; switch (t.draw(4)) { case 0: x = double(t.range(int(lo), int(hi))); break; case 1: x = 45.0*double(t.range(int(lo/45), int(hi/45))); break; case 2: x = lo + (hi - lo)*t.unit(); break; default: x = double(t.range(int(lo), int(hi))) + (t.unit() - 0.5)*std::pow(10.0, -double(t.draw(12))); } return std::min(hi, std::max(lo, x)); }
static double ra_(Tape& t) { return t.chance(1, 8) ? angle(t, -720, 720) : angle(t, 0, 360); } static double dec_(Tape& t) { return angle(t, -90, 90); }
static double tolsep(L d) { return 1e-9*double(d) + 1e-11 + (d > 170 ? 2e-6 : 0); } // degrees; the haversine formula loses precision at the antipodes
static void other(Tape& t, double ra, double dec, double& r2, double& d2) { switch (t.draw(4)) { case 0: r2 = ra; d2 = dec; break; case 1: r2 = ra + 180; d2 = -dec; break; case 2: { double e = std::pow(10.0, -double(t.draw(12))); r2 = ra + (t.unit() - 0.5)*e; d2 = std::min(90.0, std::max(-90.0, dec + (t.unit() - 0.5)*e)); break; } default: r2 = ra_(t); d2 = dec_(t); } }
SUB("distance", 4) {
    size_t n = t.size(1, 5); V<double> a(n), b(n), c(n), d(n); for (size_t i = 0; i < n; ++i) { a[i] = ra_(t); b[i] = dec_(t); other(t, a[i], b[i], c[i], d[i]); } t.note(a, b, c, d); vec1d va = vp::mk<double>(a), vb = vp::mk<double>(b), vc = vp::mk<double>(c), vd = vp::mk<double>(d); vec1d r = angdist(va, vb, vc, vd); CHECK(r.size() == n); bool far = false;
    for (size_t i = 0; i < n; ++i) { L s = sep(dir(a[i], b[i]), dir(c[i], d[i])); double w = double(s), x = angdist(a[i], b[i], c[i], d[i]); CHECK(std::fabs(x/3600 - w) <= tolsep(s), "distance ", x/3600, " degrees, expected ", w); CHECK(r[i] == x, "distance of vectors"); CHECK(std::fabs(angdist(c[i], d[i], a[i], b[i]) - x) <= 3600*tolsep(s), "not symmetric"); CHECK(angdist(a[i], b[i], a[i], b[i]) == 0, "distance to itself"); double k = dpi/180; CHECK(std::fabs(angdistr(a[i]*k, b[i]*k, c[i]*k, d[i]*k)/k - w) <= tolsep(s), "distance in radians"); if (w > 1e-3) far = true; }
    vec1d one = angdist(va, vb, c[0], d[0]); CHECK(one.size() == n); for (size_t i = 0; i < n; ++i) CHECK(vp::same(one[i], angdist(a[i], b[i], c[0], d[0])), "distance to one position"); vec1d bad(n + 1); CHECK(errors([&] { angdist(va, bad, vc, vd); }) && errors([&] { angdist(va, vb, vc, bad); }) && errors([&] { angdist(va, vb, bad, bad); }) && errors([&] { angdist(va, bad, 0.0, 0.0); }) && errors([&] { angdist_less(va, bad, 0.0, 0.0, 1.0); }), "incompatible dimensions");
    double rad = t.coin() ? std::pow(10.0, t.unit()*5.8) : 3600*179.0*t.unit(); vec1b l = angdist_less(va, vb, c[0], d[0], rad); CHECK(l.size() == n); for (size_t i = 0; i < n; ++i) { double s = 3600*double(sep(dir(a[i], b[i]), dir(c[0], d[0]))); if (std::fabs(s - rad) > 3600*2*tolsep(std::max(s, rad)/3600) + 1e-6*rad) CHECK(l[i] == (s < rad), "angdist_less() at ", s, " for radius ", rad); }
    if (n >= 2) { vec2d m(1, n), q(1, n); m.data = va.data; q.data = vb.data; vec2d z = angdist(m, q, c[0], d[0]); CHECK(z.dims == m.dims && z.data == one.data, "2D positions"); }
    if (far) t.nontrivial();
}
SUB("normalize", 2) {
    double ra = angle(t, -2000, 2000), dec = angle(t, -1000, 1000); t.note(ra, " ", dec); double r = ra, d = dec; normalize_coordinates(r, d); CHECK(r >= 0 && r <= 360 && d >= -90 && d <= 90, "not in the conventional range: ", r, " ", d); CHECK(double(sep(dir(ra, dec), dir(r, d))) < 1e-10, "direction changed: ", r, " ", d); double r0 = r, d0 = d; normalize_coordinates(r, d); CHECK(r == r0 && d == d0, "changed twice"); double ra2 = ra_(t), dec2 = dec_(t); vec1d vr = {ra, ra2}, vd = {dec, dec2}; normalize_coordinates(vr, vd); CHECK(vr[0] == r0 && vd[0] == d0, "vector"); normalize_coordinates(ra2, dec2); CHECK(vr[1] == ra2 && vd[1] == dec2, "vector"); vec1d bad = {1.0}; CHECK(errors([&] { normalize_coordinates(vr, bad); }), "incompatible dimensions"); if (r0 != ra || d0 != dec) t.nontrivial();
}
SUB("rotate", 4) { // rotation around the x axis
    size_t n = t.size(1, 6); V<double> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = ra_(t); b[i] = dec_(t); } double e = angle(t, -360, 360); t.note(a, b, e); vec1d va = vp::mk<double>(a), vb = vp::mk<double>(b), r, d; angrot_vernal(va, vb, e, r, d); CHECK(r.size() == n && d.size() == n); L ce = cosl(L(e)*D2R), se = sinl(L(e)*D2R); for (size_t i = 0; i < n; ++i) { C p = dir(a[i], b[i]), w{p.x, ce*p.y - se*p.z, ce*p.z + se*p.y}; CHECK(std::isfinite(r[i]) && std::isfinite(d[i]), "not a number"); CHECK(r[i] >= 0 && r[i] <= 360 && std::fabs(d[i]) <= 90, "out of range"); CHECK(double(sep(w, dir(r[i], d[i]))) < 2e-6, "position ", i, " rotated to ", r[i], " ", d[i]); }
    vec1d bad(n + 1); CHECK(errors([&] { angrot_vernal(va, bad, e, r, d); }), "incompatible dimensions"); if (e != 0) t.nontrivial();
}
SUB("vernal", 3) { // the geodesic through the position and the origin is rotated to the equator
    double a = ra_(t), b = dec_(t); t.note(a, " ", b); C p = dir(a, b); if (p.y*p.y + p.z*p.z < 1e-8L) throw vp::Discard(); double e = vernal_angle(a, b); CHECK(std::isfinite(e) && std::fabs(e) <= 90, "angle ", e); L s = sinl(L(e)*D2R), c = cosl(L(e)*D2R); L out = c*p.z - s*p.y; CHECK(std::fabs(double(out)) < 1e-7, "angle ", e, ": ", double(out), " out of the equator after rotation"); vec1d r, d; angrot_vernal(vec1d{a}, vec1d{b}, -e, r, d); CHECK(std::fabs(d[0]) < 1e-5, "declination ", d[0]); if (b != 0) t.nontrivial();
}
SUB("move", 3) {
    double a = angle(t, 0, 360), b = angle(t, -80, 80), dx = (t.unit() - 0.5)*400, dy = (t.unit() - 0.5)*400; if (t.chance(1, 4)) dx = 0; if (t.chance(1, 4)) dy = 0; t.note(a, " ", b, " ", dx, " ", dy); double r = a, d = b; move_ra_dec(r, d, dx, dy); double s = std::hypot(dx, dy), w = 3600*double(sep(dir(a, b), dir(r, d))); CHECK(std::fabs(s - w) < 1e-6 + 0.01*s, "moved by ", w, " arcsec instead of ", s); double sx = 3600*double(sep(dir(a, b), dir(r, b))); CHECK(std::fabs(sx - std::fabs(dx)) < 1e-4*std::fabs(dx) + 1e-8, "moved by ", sx, " along RA"); CHECK((r - a)*dx >= 0 && std::fabs(d - b - dy/3600) < 1e-10, "wrong direction"); vec1d vr = {a, 10.0}, vd = {b, -20.0}; move_ra_dec(vr, vd, dx, dy); CHECK(vp::near(vr[0], r, 1e-12, 1e-12) && vp::near(vd[0], d, 1e-12, 1e-12), "vector"); double r2 = 10, d2 = -20; move_ra_dec(r2, d2, dx, dy); CHECK(vp::near(vr[1], r2, 1e-12, 1e-12) && vp::near(vd[1], d2, 1e-12, 1e-12), "vector"); vec1d bad = {1.0}; CHECK(errors([&] { move_ra_dec(vr, bad, 0.0, 0.0); }), "incompatible dimensions"); if (s > 1) t.nontrivial();
}
