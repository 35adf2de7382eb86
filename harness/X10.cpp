// X10: images projected on another pixel grid.
#include "wcs_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors; using wh::W; typedef long double L;
template<class T> using V = std::vector<T>;
struct Pt { L x, y; };
static L area(const V<Pt>& p) { L s = 0; for (size_t i = 0; i < p.size(); ++i) { auto& a = p[i]; auto& b = p[(i+1) % p.size()]; s += a.x*b.y - a.y*b.x; } return fabsl(s)/2; }
// part of a polygon within x0..x1, y0..y1
static V<Pt> clip(V<Pt> p, L x0, L x1, L y0, L y1) { for (int e = 0; e < 4; ++e) { V<Pt> o; auto f = [&](const Pt& q) { return e == 0 ? q.x - x0 : e == 1 ? x1 - q.x : e == 2 ? q.y - y0 : y1 - q.y; }; for (size_t i = 0; i < p.size(); ++i) { Pt a = p[i], b = p[(i+1) % p.size()]; L fa = f(a), fb = f(b); if (fa >= 0) o.push_back(a); if ((fa < 0) != (fb < 0)) { L u = fa/(fa - fb); o.push_back({a.x + u*(b.x - a.x), a.y + u*(b.y - a.y)}); } } p = o; if (p.empty()) break; } return p; }
struct Pair { W s, d; bool shift; };
static Pair gen(Tape& t, bool lin) {
    Pair p; p.shift = false; W& s = p.s; W& d = p.d; L sc = L(double(0.05*double(t.range(1, 20))))/3600; s.ra0 = double(t.chance(1, 6) ? 0 : 360*t.unit()); s.de0 = double(t.chance(1, 4) ? 0 : -60 + 120*t.unit()); s.nx = size_t(t.range(2, 8)); s.ny = size_t(t.range(2, 8)); d.nx = size_t(t.range(1, 9)); d.ny = size_t(t.range(1, 9)); s.px = t.coin() ? L(t.range(1, 8)) : L(8*t.unit()); s.py = t.coin() ? L(t.range(1, 8)) : L(8*t.unit()); wh::matrix(s, sc, sc, t.coin() ? 0 : L(double(360*t.unit()))); d = [&] { W q = s; q.nx = d.nx; q.ny = d.ny; return q; }();
    switch (t.draw(4)) { case 0: break; case 1: p.shift = true; d.px += L(t.range(-5, 5)); d.py += L(t.range(-5, 5)); break; case 2: d.px += L(double(6*t.unit() - 3)); d.py += L(double(6*t.unit() - 3)); break; default: { L f = L(double(0.3 + 2*t.unit())); L f2 = lin || t.coin() ? f : L(double(0.3 + 2*t.unit())); L a = t.coin() ? 0 : L(double(360*t.unit())); wh::matrix(d, sc*f, sc*f2, a); d.px = L(double(8*t.unit())); d.py = L(double(8*t.unit())); } } wh::build(s); wh::build(d); t.note("source ", int(s.nx), "x", int(s.ny), " dest ", int(d.nx), "x", int(d.ny), " ref ", double(s.ra0), ",", double(s.de0), " pix ", double(s.px), ",", double(s.py), " -> ", double(d.px), ",", double(d.py), " cd ", double(s.cd[0][0]*3600), ",", double(s.cd[0][1]*3600), " -> ", double(d.cd[0][0]*3600), ",", double(d.cd[0][1]*3600)); return p;
}
static void map(const W& a, const W& b, L x, L y, L& ox, L& oy) { L r, d; wh::p2s(a, x + 1, y + 1, r, d); wh::s2p(b, r, d, ox, oy); ox -= 1; oy -= 1; }
static L lerp(const vec2d& v, L y, L x) { size_t a = std::min(size_t(floorl(y)), v.dims[0] - 2), b = std::min(size_t(floorl(x)), v.dims[1] - 2); L u = y - a, w = x - b; return v(a, b)*(1-u)*(1-w) + v(a+1, b)*u*(1-w) + v(a, b+1)*(1-u)*w + v(a+1, b+1)*u*w; }
SUB("interpolate", 5) {
    regrid_interpolate_params o; o.linearize = t.coin(); o.conserve_flux = t.coin(); int m = int(t.draw(2)); o.method = m ? interpolation_method::linear : interpolation_method::nearest; Pair p = gen(t, o.linearize); if (t.chance(1, 5)) { p.d.nz = 5; wh::build(p.d); } t.note(m ? "linear" : "nearest", o.linearize ? " linearize" : "", o.conserve_flux ? " flux" : ""); vec2d im(p.s.ny, p.s.nx); for (auto& x : im) x = double(t.range(-9, 9)); t.note(vp::tov(im)); astro::wcs s(p.s.hdr), d(p.d.hdr); vec2d r = regrid_interpolate(im, s, d, o); CHECK(r.dims[0] == p.d.ny && r.dims[1] == p.d.nx, "dimensions of the result"); const L eps = 1e-5L; size_t in = 0;
    for (size_t y = 0; y < p.d.ny; ++y) for (size_t x = 0; x < p.d.nx; ++x) { V<Pt> q(4); L sx[4] = {-0.5L, 0.5L, 0.5L, -0.5L}, sy[4] = {-0.5L, -0.5L, 0.5L, 0.5L}; for (int i = 0; i < 4; ++i) map(p.d, p.s, L(x) + sx[i], L(y) + sy[i], q[i].x, q[i].y); L cx = 0, cy = 0; for (auto& k : q) { cx += k.x/4; cy += k.y/4; } if (fabsl(cx - rintl(cx)) < eps) cx = rintl(cx); if (fabsl(cy - rintl(cy)) < eps) cy = rintl(cy); L w; bool out; if (m) { out = cx < 0 || cy < 0 || cx > p.s.nx - 1 || cy > p.s.ny - 1; bool edge = cx == 0 || cy == 0 || cx == p.s.nx - 1 || cy == p.s.ny - 1; if (edge && !out) { if (std::isnan(r(y, x))) continue; } w = out ? 0 : lerp(im, cy, cx); } else { L fx = cx - floorl(cx), fy = cy - floorl(cy); if (fabsl(fx - 0.5L) < eps || fabsl(fy - 0.5L) < eps) continue; L mx = floorl(cx + 0.5L), my = floorl(cy + 0.5L); out = mx < 0 || my < 0 || mx >= p.s.nx || my >= p.s.ny; w = out ? 0 : L(im(size_t(my), size_t(mx))); } if (out) { CHECK(std::isnan(r(y, x)), "pixel ", y, ",", x, " is ", r(y, x), " but lies outside of the image (", double(cy), ",", double(cx), ")"); continue; } ++in; if (o.conserve_flux) w *= area(q); CHECK(vp::near(r(y, x), double(w), 1e-5, 1e-3), "pixel ", y, ",", x, " is ", r(y, x), " expected ", double(w), " (at ", double(cy), ",", double(cx), ")"); }
    if (in > 1) t.nontrivial();
}
SUB("cubic", 1) { // a linear image is reproduced by cubic interpolation away from the borders
    regrid_interpolate_params o; o.method = interpolation_method::cubic; o.linearize = t.coin(); Pair p = gen(t, o.linearize); p.s.nx += 4; p.s.ny += 4; wh::build(p.s); double a = double(t.range(-5, 5)), b = double(t.range(-5, 5)), c = double(t.range(-5, 5)); vec2d im(p.s.ny, p.s.nx); for (size_t y = 0; y < p.s.ny; ++y) for (size_t x = 0; x < p.s.nx; ++x) im(y, x) = a + b*double(y) + c*double(x); t.note(a, " ", b, " ", c); astro::wcs s(p.s.hdr), d(p.d.hdr); vec2d r = regrid_interpolate(im, s, d, o); size_t in = 0; for (size_t y = 0; y < p.d.ny; ++y) for (size_t x = 0; x < p.d.nx; ++x) { L cx, cy; map(p.d, p.s, x, y, cx, cy); if (cx < -1e-4L || cy < -1e-4L || cx > p.s.nx - 1 + 1e-4L || cy > p.s.ny - 1 + 1e-4L) { CHECK(std::isnan(r(y, x)), "outside"); continue; } if (cx < 2 || cy < 2 || cx > p.s.nx - 3 || cy > p.s.ny - 3) continue; ++in; CHECK(vp::near(r(y, x), a + b*double(cy) + c*double(cx), 1e-5, 2e-3), "pixel ", y, ",", x, " is ", r(y, x), " expected ", a + b*double(cy) + c*double(cx)); } if (in > 1) t.nontrivial();
}
static void driz(Tape& t, bool cube) {
    regrid_drizzle_params o; o.linearize = t.chance(1, 3); o.pixfrac = t.coin() ? 1.0 : 0.1 + 0.9*t.unit(); o.dest_pixfrac = t.chance(1, 3); Pair p = gen(t, o.linearize); size_t nz = 1; if (cube) { nz = size_t(t.range(1, 3)); p.s.nz = nz; p.d.nz = t.coin() ? nz : 0; wh::build(p.s); wh::build(p.d); } t.note("pixfrac ", o.pixfrac, o.linearize ? " linearize" : "", o.dest_pixfrac ? " dest" : "", " nz=", int(nz)); astro::wcs s(p.s.hdr), d(p.d.hdr); vec3d im(nz, p.s.ny, p.s.nx); for (auto& x : im) x = double(t.range(-9, 9)); t.note(vp::tov(im)); vec3d res; vec2d wei; if (cube) { res = regrid_drizzle(im, s, d, wei, o); } else { vec2d i2 = im(0, _, _); vec2d r2 = regrid_drizzle(i2, s, d, wei, o); res.resize(1, r2.dims[0], r2.dims[1]); for (size_t i = 0; i < r2.size(); ++i) res[i] = r2[i]; vec2d r3 = regrid_drizzle(i2, s, d, o); CHECK(r3.dims == r2.dims); for (size_t i = 0; i < r2.size(); ++i) CHECK(vp::same(r2[i], r3[i]), "without weights"); }
    CHECK(res.dims[0] == nz && res.dims[1] == p.d.ny && res.dims[2] == p.d.nx && wei.dims[0] == p.d.ny && wei.dims[1] == p.d.nx, "dimensions"); size_t n = p.d.nx*p.d.ny; V<L> w(n, 0), f(n*nz, 0); for (size_t y = 0; y < p.s.ny; ++y) for (size_t x = 0; x < p.s.nx; ++x) { V<Pt> q(4); L h = o.pixfrac/2; L sx[4] = {-h, h, h, -h}, sy[4] = {-h, -h, h, h}; for (int i = 0; i < 4; ++i) map(p.s, p.d, L(x) + sx[i], L(y) + sy[i], q[i].x, q[i].y); L a = area(q)/L(o.pixfrac*o.pixfrac); for (size_t j = 0; j < p.d.ny; ++j) for (size_t i = 0; i < p.d.nx; ++i) { L k = area(clip(q, L(i) - 0.5L, L(i) + 0.5L, L(j) - 0.5L, L(j) + 0.5L)); w[j*p.d.nx + i] += k; for (size_t z = 0; z < nz; ++z) f[z*n + j*p.d.nx + i] += k*im(z, y, x)/a; } }
    size_t in = 0; for (size_t i = 0; i < n; ++i) { CHECK(vp::near(wei[i], double(w[i]), 1e-4, 1e-4), "weight of pixel ", i, " is ", wei[i], " expected ", double(w[i])); if (w[i] == 0) for (size_t z = 0; z < nz; ++z) CHECK(std::isnan(res[z*n + i]) || wei[i] > 0, "pixel ", i, " is not covered"); if (w[i] > 1e-2L) { ++in; for (size_t z = 0; z < nz; ++z) { double e = double(f[z*n + i]/w[i]); CHECK(vp::near(res[z*n + i], e, 1e-4, 2e-2), "pixel ", i, " is ", res[z*n + i], " expected ", e, " (weight ", double(w[i]), ")"); } } } if (in > 1) t.nontrivial();
}
SUB("drizzle", 5) { driz(t, false); }
SUB("drizzle cube", 2) { driz(t, true); }
SUB("drizzle mismatch", 1) {
    Pair p = gen(t, false); astro::wcs s(p.s.hdr), d(p.d.hdr); vec2d im(p.s.ny + (t.coin() ? 1 : 0), p.s.nx); if (im.dims[0] == p.s.ny) im = vec2d(p.s.ny, p.s.nx + 1); CHECK(errors([&] { regrid_drizzle(im, s, d); }), "image not matching its WCS"); vec3d c(1, p.s.ny, p.s.nx); CHECK(errors([&] { regrid_drizzle(c, s, d); }), "cube with a two dimensional WCS"); t.nontrivial();
}
