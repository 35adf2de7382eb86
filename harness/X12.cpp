// X12: random positions, correlation, areas, PSF fits.
#include "astro_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors; typedef long double L; typedef long long LL;
template<class T> using V = std::vector<T>; static const L D2R = acosl(-1.0L)/180;
struct Reg { int k; double a, b, c; bool operator()(double x, double y) const { return k == 0 ? true : k == 1 ? a*x + b*y >= c : k == 2 ? (x - a)*(x - a) + (y - b)*(y - b) <= c*c : false; } double depth(double x, double y) const { return k == 0 ? 1e9 : k == 1 ? (a*x + b*y - c)/std::hypot(a, b) : c - std::hypot(x - a, y - b); } };
// a frequency must be within 8 sigma of its probability
static bool freq(size_t k, size_t n, double p) { double s = std::sqrt(double(n)*p*(1 - p)); return std::fabs(double(k) - double(n)*p) <= 8*s + 8; }
SUB("uniform", 4) {
    auto seed = make_seed(t.draw(1 << 30)); size_t n = t.chance(1, 6) ? t.draw(3) : t.chance(1, 4) ? 2000 : t.draw(60); double x0 = double(t.range(-9, 9)), y0 = double(t.range(-9, 9)), r = 0.5*double(t.range(1, 12)), w = 0.5*double(t.range(1, 12)), h = 0.5*double(t.range(1, 12)); vec1d x, y; if (t.coin()) { x = {1, 2, 3}; y = {1}; } bool box = t.coin(); int k = int(t.draw(4)); Reg q{k, 0, 0, 0}; if (k == 1) { double an = 6.3*t.unit(); q.a = std::cos(an); q.b = std::sin(an); q.c = q.a*(x0 + (box ? w/2 : 0)) + q.b*(y0 + (box ? h/2 : 0)); } if (k == 2) { q.a = x0 + (box ? w/2 : 0); q.b = y0 + (box ? h/2 : 0); q.c = 0.5*(box ? std::min(w, h) : r); } t.note(box ? "box " : "circle ", int(n), " ", x0, ",", y0, " ", r, " ", w, "x", h, " region ", k);
    if (k == 0) { if (box) randpos_uniform_box(seed, n, {x0, x0 + w}, {y0, y0 + h}, x, y); else randpos_uniform_circle(seed, n, x0, y0, r, x, y); } else { randpos_uniform_options o; o.max_iter = k == 3 ? 1 + t.draw(5) : 1000; randpos_status s = box ? randpos_uniform_box(seed, n, {x0, x0 + w}, {y0, y0 + h}, x, y, q, o) : randpos_uniform_circle(seed, n, x0, y0, r, x, y, q, o); if (k == 3 && n > 0) { CHECK(!s.success && !s.failure.empty(), "empty region not reported"); t.nontrivial(); return; } CHECK(s.success, "region not filled"); } CHECK(x.size() == n && y.size() == n, "number of positions is ", x.size(), " expected ", n); size_t lf = 0, up = 0, in = 0; for (size_t i = 0; i < n; ++i) { if (box) CHECK(x[i] >= x0 && x[i] <= x0 + w && y[i] >= y0 && y[i] <= y0 + h, "position outside of the box"); else CHECK(std::hypot(x[i] - x0, y[i] - y0) <= r*(1 + 1e-12), "position outside of the circle"); CHECK(q(x[i], y[i]), "position outside of the region"); double cx = box ? x0 + w/2 : x0, cy = box ? y0 + h/2 : y0; if (x[i] < cx) ++lf; if (y[i] < cy) ++up; if (k == 2 ? std::hypot(x[i] - q.a, y[i] - q.b) < q.c/2 : box ? x[i] < x0 + w/4 : std::hypot(x[i] - x0, y[i] - y0) < r/2) ++in; } if (k != 1 && k != 3) { CHECK(freq(lf, n, 0.5) && freq(up, n, 0.5), "positions are not centered: ", lf, " and ", up, " of ", n); CHECK(freq(in, n, 0.25), "positions are not uniform: ", in, " of ", n); } if (n > 3) t.nontrivial();
}
SUB("power", 2) {
    auto seed = make_seed(t.draw(1 << 30)); randpos_power_options o; o.lambda = 1.1 + 3*t.unit(); o.eta = 1 + t.draw(4); o.levels = 1 + t.draw(4); if (t.coin()) o.eta_end = 1 + t.draw(6); double x0 = double(t.range(-9, 9)), y0 = double(t.range(-9, 9)), r = 0.5*double(t.range(1, 12)); vec1d x, y; t.note(o.lambda, " ", int(o.eta), " ", int(o.levels), " ", x0, ",", y0, " ", r); if (t.coin()) { randpos_power_base(seed, x0, y0, r, x, y, o); size_t n = 1; double e = 0, q = r; for (size_t i = 0; i < o.levels; ++i) { n *= o.eta; e += q; q /= o.lambda; } CHECK(x.size() == n && y.size() == n, "number of positions"); for (size_t i = 0; i < n; ++i) CHECK(std::hypot(x[i] - x0, y[i] - y0) <= e*(1 + 1e-9), "position too far"); } else { Reg q{1 + int(t.draw(2)), 0, 0, 0}; if (q.k == 1) { double an = 6.3*t.unit(); q.a = std::cos(an); q.b = std::sin(an); q.c = q.a*x0 + q.b*y0 - 0.3*r*t.unit(); } else { q.a = x0; q.b = y0; q.c = r*(0.7 + t.unit()); } auto st = randpos_power_circle(seed, x0, y0, r, x, y, [&](double a, double b, double th) { return q.depth(a, b) >= -th; }, o); if (!st.success) { CHECK(!st.failure.empty()); t.label("failed"); return; } size_t n = o.eta_end == npos ? o.eta : o.eta_end; for (size_t i = 0; i + 1 < o.levels; ++i) n *= o.eta; CHECK(x.size() == n && y.size() == n, "number of positions is ", x.size(), " expected ", n); for (size_t i = 0; i < n; ++i) CHECK(q.depth(x[i], y[i]) >= 0, "position outside of the region"); } if (x.size() > 3) t.nontrivial();
}
static double adist(double x1, double y1, double x2, double y2) { L a = sinl((L(x2) - x1)*D2R/2), b = sinl((L(y2) - y1)*D2R/2); return double(2*asinl(sqrtl(b*b + a*a*cosl(y1*D2R)*cosl(y2*D2R)))/D2R*3600); }
SUB("correlation", 2) {
    size_t n = 2 + t.draw(20), m = 2 + t.draw(40); double s = 0.01 + t.unit(), r0 = 10 + 300*t.unit(), d0 = -50 + 100*t.unit(); vec1d ra, dec, rr, rd; auto add = [&](vec1d& a, vec1d& b, size_t k) { for (size_t i = 0; i < k; ++i) { a.push_back(r0 + s*t.unit()); b.push_back(d0 + s*t.unit()); } }; add(ra, dec, n); add(rr, rd, m); size_t nb = 1 + t.draw(4); vec1d e; e.push_back(1 + 10*t.unit()); for (size_t i = 0; i < nb; ++i) e.push_back(e.back() + 3600*s*(0.1 + t.unit())); vec2d b(2, nb); for (size_t i = 0; i < nb; ++i) { b(0, i) = e[i]; b(1, i) = e[i+1]; } t.note(int(n), " ", int(m), " bins ", e); vec1d c = angcorrel(ra, dec, rr, rd, b); CHECK(c.size() == nb); auto cnt = [&](const vec1d& a, const vec1d& p, const vec1d& a2, const vec1d& p2, size_t k) { double q = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a2.size(); ++j) { double d = adist(a[i], p[i], a2[j], p2[j]); if (std::fabs(d - e[k]) < 1e-6 || std::fabs(d - e[k+1]) < 1e-6) throw vp::Discard(); if (d >= e[k] && d < e[k+1]) ++q; } return q; }; for (size_t k = 0; k < nb; ++k) { double dd = cnt(ra, dec, ra, dec, k), dr = cnt(ra, dec, rr, rd, k), r2 = cnt(rr, rd, rr, rd, k); if (r2 == 0) { CHECK(!std::isfinite(c[k]), "no random pair"); continue; } double n2 = double(m)*(double(m) - 1)/(double(n)*(double(n) - 1)), w1 = (dd*n2 - 2*dr*double(m)/double(n) + r2)/r2, w2 = (dd*n2 - 2*dr*(double(m) - 1)/double(n) + r2)/r2; CHECK(vp::near(c[k], w1, 1e-9, 1e-9) || vp::near(c[k], w2, 1e-9, 1e-9), "correlation ", k, " is ", c[k], " expected ", w1); t.nontrivial(); } vec1d z(n + m + 1); CHECK(errors([&] { angcorrel(z, dec, rr, rd, b); }) && errors([&] { angcorrel(ra, dec, rr, z, b); }), "mismatched sizes");
}
SUB("area", 2) {
    size_t n = 3 + t.draw(20); double s = 0.001 + t.unit(), r0 = 10 + 300*t.unit(), d0 = -50 + 100*t.unit(), cx = std::cos(d0*double(D2R)); vec1d ra, dec; for (size_t i = 0; i < n; ++i) { ra.push_back(r0 + s*t.unit()/cx); dec.push_back(d0 + s*t.unit()); } t.note(ra, dec); auto hull = build_convex_hull(ra, dec); double a = field_area_hull(ra, dec), a2 = field_area_hull(hull); CHECK(vp::near(a, a2, 1e-12, 1e-12), "area of the hull ", a, " ", a2); L w = 0; for (size_t i = 0; i + 1 < hull.x.size(); ++i) { L y0 = (L(hull.y[i]) - d0)*D2R, y1 = (L(hull.y[i+1]) - d0)*D2R, x0 = (L(hull.x[i]) - r0)*D2R*cosl(L(hull.y[i])*D2R), x1 = (L(hull.x[i+1]) - r0)*D2R*cosl(L(hull.y[i+1])*D2R); w += (x0*y1 - x1*y0)/2; } double e = double(fabsl(w)/D2R/D2R); CHECK(std::fabs(a - e) < 0.003*e + 1e-9 + 2e-3*s*s*s, "area is ", a, " expected ", e); if (hull.x.size() > 4) t.nontrivial();
}
SUB("field", 1) { // the statistical estimator of the area of a filled box
    auto seed = make_seed(t.draw(1 << 30)); size_t n = 3000; double s = 0.1 + t.unit(), r0 = 10 + 300*t.unit(), d0 = -40 + 80*t.unit(), h = s*(0.5 + t.unit()); vec1d ra = randomu(seed, n)*s + r0, dec = randomu(seed, n)*h + d0; double a = field_area(ra, dec), e = s*h*std::cos((d0 + h/2)*double(D2R)); t.note(s, "x", h, " ", a/e); CHECK(a == field_area_h2d(ra, dec)); CHECK(a > 0.8*e && a < 1.25*e, "area is ", a, " expected about ", e); t.nontrivial();
}
SUB("psf", 3) {
    LL hy = t.range(1, 2), hx = t.range(1, 2); size_t py = size_t(2*hy + 1), px = size_t(2*hx + 1); vec2d psf(py, px); for (auto& x : psf) x = t.unit(); psf(size_t(hy), size_t(hx)) += 2; size_t a = size_t(t.range(7, 12)), b = size_t(t.range(7, 12)); double bg = double(t.range(-9, 9)), fl = double(t.range(-20, 20)); LL y0 = t.range(hy, LL(a) - 1 - hy), x0 = t.range(hx, LL(b) - 1 - hx); int mode = int(t.draw(4)); if (mode >= 2) { y0 = LL(a)/2; x0 = LL(b)/2; } vec2d img(a, b); for (auto& x : img) x = bg; for (LL y = -hy; y <= hy; ++y) for (LL x = -hx; x <= hx; ++x) img(size_t(y0 + y), size_t(x0 + x)) += fl*psf(size_t(y + hy), size_t(x + hx)); t.note(int(py), "x", int(px), " in ", int(a), "x", int(b), " at ", int(y0), ",", int(x0), " ", bg, " ", fl, " mode ", mode); vec2d err(a, b); for (auto& x : err) x = 0.5 + t.unit(); double cerr = 0.5 + t.unit(); psffit_result r; L sb = 0, sp = 0, spp = 0; for (LL y = -hy; y <= hy; ++y) for (LL x = -hx; x <= hx; ++x) { L e = mode == 2 ? L(cerr) : L(err(size_t(y0 + y), size_t(x0 + x))), q = psf(size_t(y + hy), size_t(x + hx)), w = 1/(e*e); sb += w; sp += w*q; spp += w*q*q; } L det = sb*spp - sp*sp; if (mode == 2) r = psffit(img, cerr, psf); else if (mode == 3) r = psffit(img, err, psf); else r = psffit(img, err, psf, {int(y0), int(x0)}); CHECK(vp::near(r.bg, bg, 1e-7, 1e-7) && vp::near(r.flux, fl, 1e-7, 1e-7), "fit gives ", r.bg, ",", r.flux, " expected ", bg, ",", fl); CHECK(vp::near(r.bg_err, double(sqrtl(spp/det)), 1e-7) && vp::near(r.flux_err, double(sqrtl(sb/det)), 1e-7), "errors ", r.bg_err, ",", r.flux_err, " expected ", double(sqrtl(spp/det)), ",", double(sqrtl(sb/det))); CHECK(r.chi2 < 1e-9, "chi2"); vec2d o = img; if (mode >= 2) srcsub(o, psf, fl); else srcsub(o, psf, fl, {int(y0), int(x0)}); for (auto x : o) CHECK(vp::near(x, bg, 1e-9, 1e-9), "subtraction leaves ", x, " expected ", bg); t.nontrivial();
}
SUB("psf border", 1) { // partial overlap of the subtracted source
    LL h = 1; vec2d psf(3, 3); for (auto& x : psf) x = double(t.range(1, 9)); size_t a = size_t(t.range(1, 6)), b = size_t(t.range(1, 6)); LL y0 = t.range(-2, LL(a) + 1), x0 = t.range(-2, LL(b) + 1); vec2d img(a, b); for (auto& x : img) x = double(t.range(-9, 9)); vec2d o = img; srcsub(o, psf, 2.0, {int(y0), int(x0)}); for (LL y = 0; y < LL(a); ++y) for (LL x = 0; x < LL(b); ++x) { double e = img(size_t(y), size_t(x)); if (std::llabs(y - y0) <= h && std::llabs(x - x0) <= h) e -= 2*psf(size_t(y - y0 + h), size_t(x - x0 + h)); CHECK(o(size_t(y), size_t(x)) == e, "pixel ", y, ",", x); } t.nontrivial();
}
SUB("pick", 1) {
    size_t a = size_t(t.range(5, 12)), b = size_t(t.range(5, 12)), n = t.draw(6); LL h = t.range(0, 2); vec2d img(a, b); for (size_t i = 0; i < img.size(); ++i) img[i] = double(i); if (t.coin()) img[t.draw(img.size())] = dnan; vec1d x, y; for (size_t i = 0; i < n; ++i) { bool out = t.chance(1, 4); LL X = out ? LL(a) + 5 : t.range(h + 1, std::max(h + 1, LL(a) - 2 - h)), Y = t.range(h + 1, std::max(h + 1, LL(b) - 2 - h)); x.push_back(double(X) + (X < LL(a) ? 0.4*t.unit() : 0)); y.push_back(double(Y) + 0.4*t.unit()); } t.note(x, y, int(h), " ", int(a), "x", int(b)); vec3d cube; vec1u ids; pick_sources(img, x, y, h, cube, ids); size_t k = 0, m = size_t(2*h + 1); for (size_t i = 0; i < n; ++i) { LL X = LL(std::floor(x[i] + 0.5)), Y = LL(std::floor(y[i] + 0.5)); if (X - h < 0 || Y - h < 0 || X + h >= LL(a) || Y + h >= LL(b)) continue; bool bad = false; V<double> w; for (LL u = -h; u <= h; ++u) for (LL v = -h; v <= h; ++v) { w.push_back(img(size_t(X + u), size_t(Y + v))); if (!std::isfinite(w.back())) bad = true; } if (bad) continue; CHECK(k < ids.size() && ids[k] == i, "source ", i, " not picked"); for (size_t j = 0; j < m*m; ++j) CHECK(cube[k*m*m + j] == w[j], "pixel ", j, " of source ", i); ++k; } CHECK(ids.size() == k && cube.dims[0] == k, "number of sources"); if (k > 1) t.nontrivial();
}
SUB("bands", 1) {
    struct { vec1s bands, notes; } cat; struct { vec1s bands; } cat2; size_t n = t.draw(5); for (size_t i = 0; i < n; ++i) { cat.bands.push_back(std::string(1, char('a' + t.draw(3))) + std::string(1, char('x' + t.draw(2)))); cat.notes.push_back(std::string(1, char('p' + t.draw(2)))); } cat2.bands = cat.bands; std::string q(1, char('a' + t.draw(3))), nn(1, char('p' + t.draw(2))); if (t.coin()) q = "^" + q + "x$"; t.note(cat.bands, cat.notes, q, nn); auto hit = [&](size_t i) { return q.size() == 1 ? cat.bands[i].find(q) != std::string::npos : cat.bands[i] == q.substr(1, 2); }; V<size_t> a, b; for (size_t i = 0; i < n; ++i) if (hit(i)) { a.push_back(i); if (cat.notes[i] == nn) b.push_back(i); } uint_t id = npos; bool r = get_band(cat, q, id); CHECK(r == (a.size() == 1) && (!r || id == a[0]), "get_band"); r = get_band(cat2, q, id); CHECK(r == (a.size() == 1) && (!r || id == a[0]), "get_band without notes"); r = get_band(cat, q, nn, id); CHECK(r == (b.size() == 1) && (!r || id == b[0]), "get_band with notes"); if (n > 1) t.nontrivial();
}
