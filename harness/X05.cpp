// X05: image geometry.
#include "astro_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>; typedef long long LL;
template<class T> static vec<2,T> image(Tape& t, LL lo = 1, LL hi = 6, bool small = false) { size_t a = size_t(t.range(lo, hi)), b = size_t(t.range(lo, hi)); vec<2,T> v(a, b); for (auto& x : v) x = T(small ? t.range(0, 3) : t.range(-99, 99)); t.note(int(a), "x", int(b), " ", vp::tov(v)); return v; }
template<class T> static bool in(const vec<2,T>& v, LL x, LL y) { return x >= 0 && y >= 0 && x < LL(v.dims[0]) && y < LL(v.dims[1]); }
template<class T> static T at(const vec<2,T>& v, LL x, LL y, T d) { return in(v, x, y) ? T(v(size_t(x), size_t(y))) : d; }
// f(x,y) gives the expected pixel
template<class T, class F> static void is(const vec<2,T>& r, size_t a, size_t b, const char* what, F f) { CHECK(r.dims[0] == a && r.dims[1] == b && r.size() == a*b, what, ": dimensions ", r.dims[0], "x", r.dims[1], " expected ", a, "x", b); for (size_t x = 0; x < a; ++x) for (size_t y = 0; y < b; ++y) { T w = f(LL(x), LL(y)); CHECK(r(x, y) == w, what, ": pixel ", x, ",", y, " is ", r(x, y), " expected ", w); } }
template<class T> static void cuts(Tape& t) {
    auto v = image<T>(t); T d = T(t.range(-9, 9)); LL x0 = t.range(-8, 8), y0 = t.range(-8, 8), x1 = x0 + t.range(-2, 9), y1 = y0 + t.range(-2, 9); if (t.chance(1, 4)) { x0 = 0; x1 = LL(v.dims[0]) - 1; } if (t.chance(1, 4)) { y0 = 0; y1 = LL(v.dims[1]) - 1; } t.note(int(x0), " ", int(y0), " ", int(x1), " ", int(y1)); vec1u a = {7u}, b = {8u}; subregion(v, vec1i{int_t(x0), int_t(y0), int_t(x1), int_t(y1)}, a, b); std::set<std::pair<size_t,size_t>> w, g; LL nx = x1 - x0 + 1, ny = y1 - y0 + 1; if (nx > 0 && ny > 0) for (LL x = x0; x <= x1; ++x) for (LL y = y0; y <= y1; ++y) if (in(v, x, y)) w.insert({size_t(x*LL(v.dims[1]) + y), size_t((x - x0)*ny + (y - y0))}); CHECK(a.size() == b.size() && a.size() == w.size(), "number of pixels ", a.size(), " expected ", w.size()); for (size_t i = 0; i < a.size(); ++i) g.insert({a[i], b[i]}); CHECK(g == w, "pixels of the region"); CHECK(errors([&] { subregion(v, vec1i{0, 1, 2}, a, b); }), "bad region");
    if (nx > 0 && ny > 0) { auto s = subregion(v, vec1i{int_t(x0), int_t(y0), int_t(x1), int_t(y1)}, d); is(s, size_t(nx), size_t(ny), "subregion", [&](LL x, LL y) { return at(v, x + x0, y + y0, d); }); vec1d ids(v.size()); const auto& cv = v; auto vw = cv(_,_); auto s2 = subregion(vw, vec1i{int_t(x0), int_t(y0), int_t(x1), int_t(y1)}, d); is(s2, size_t(nx), size_t(ny), "subregion of a view", [&](LL x, LL y) { return at(v, x + x0, y + y0, d); }); if (w.size() && w.size() < v.size()) t.nontrivial(); }
    std::array<uint_t,4> u; for (auto& x : u) x = t.draw(4); auto e = enlarge(v, u, d); is(e, v.dims[0] + u[0] + u[2], v.dims[1] + u[1] + u[3], "enlarge", [&](LL x, LL y) { return at(v, x - LL(u[0]), y - LL(u[1]), d); }); auto e1 = enlarge(v, u[0], d); is(e1, v.dims[0] + 2*u[0], v.dims[1] + 2*u[0], "enlarge", [&](LL x, LL y) { return at(v, x - LL(u[0]), y - LL(u[0]), d); }); auto back = shrink(e, u); is(back, v.dims[0], v.dims[1], "enlarge and shrink", [&](LL x, LL y) { return at(v, x, y, d); });
    auto k = shrink(v, u); if (u[0] + u[2] >= v.dims[0] || u[1] + u[3] >= v.dims[1]) CHECK(k.empty(), "nothing left"); else is(k, v.dims[0] - u[0] - u[2], v.dims[1] - u[1] - u[3], "shrink", [&](LL x, LL y) { return at(v, x + LL(u[0]), y + LL(u[1]), d); }); auto k1 = shrink(v, u[1]); if (2*u[1] >= v.dims[0] || 2*u[1] >= v.dims[1]) CHECK(k1.empty(), "nothing left"); else is(k1, v.dims[0] - 2*u[1], v.dims[1] - 2*u[1], "shrink", [&](LL x, LL y) { return at(v, x + LL(u[1]), y + LL(u[1]), d); });
}
SUB("cut", 3) { cuts<double>(t); }
SUB("cut int", 1) { cuts<int_t>(t); }
template<class T> static void moves(Tape& t) {
    auto v = image<T>(t); T d = T(t.range(-9, 9)); LL n = LL(v.dims[0]), m = LL(v.dims[1]); size_t N = v.dims[0], M = v.dims[1]; LL sx = t.range(-9, 9), sy = t.range(-9, 9); t.note(int(sx), " ", int(sy), " ", d); auto mod = [](LL a, LL b) { return ((a % b) + b) % b; }; is(flip_x(v), N, M, "flip_x", [&](LL x, LL y) { return at(v, x, m - 1 - y, d); }); is(flip_y(v), N, M, "flip_y", [&](LL x, LL y) { return at(v, n - 1 - x, y, d); }); is(astro::shift(v, int_t(sx), int_t(sy)), N, M, "shift", [&](LL x, LL y) { return at(v, mod(x - sx, n), mod(y - sy, m), d); }); auto c = v; inplace_shift(c, int_t(sx), int_t(sy)); inplace_shift(c, int_t(-sx), int_t(-sy)); is(c, N, M, "shift forth and back", [&](LL x, LL y) { return at(v, x, y, d); });
    is(translate_integer(v, int_t(sx), int_t(sy), d), N, M, "translate_integer", [&](LL x, LL y) { return at(v, x - sx, y - sy, d); }); auto tv = v(_,_); is(translate_integer(tv, int_t(sx), int_t(sy), d), N, M, "translate_integer of a view", [&](LL x, LL y) { return at(v, x - sx, y - sy, d); }); is(recenter(v, int_t(sy), int_t(sx), d), N, M, "recenter", [&](LL x, LL y) { return at(v, x - n/2 + sy, y - m/2 + sx, d); }); std::array<uint_t,2> nd{{uint_t(t.range(1, 8)), uint_t(t.range(1, 8))}}; auto rc = recenter(v, int_t(sy), int_t(sx), nd, d); is(rc, nd[0], nd[1], "recenter", [&](LL x, LL y) { return at(v, x - LL(nd[0])/2 + sy, y - LL(nd[1])/2 + sx, d); }); if (in(v, sy, sx)) CHECK(rc(nd[0]/2, nd[1]/2) == v(size_t(sy), size_t(sx)), "not at the center"); if (std::llabs(sx) < n && std::llabs(sy) < m && (sx || sy)) t.nontrivial();
}
SUB("move", 3) { moves<double>(t); }
SUB("move int", 1) { moves<int_t>(t); }
// bilinear value at (x,y); skip: too close to the border to tell
static double bil(const vec2d& v, double x, double y, double d, bool& skip) { double nx = double(v.dims[0]) - 1, ny = double(v.dims[1]) - 1, e = 1e-9; auto edge = [&](double p, double n) { return std::fabs(p) < e || std::fabs(p - n) < e; }; skip = (edge(x, nx) && x != std::floor(x)) || (edge(y, ny) && y != std::floor(y)); if (x < 0 || y < 0 || x > nx || y > ny) return d; LL ix = std::min(LL(x), LL(nx) - 1), iy = std::min(LL(y), LL(ny) - 1); double a = x - double(ix), b = y - double(iy); auto p = [&](LL i, LL j) { return v(size_t(i), size_t(j)); }; return p(ix, iy)*(1 - a)*(1 - b) + p(ix+1, iy)*a*(1 - b) + p(ix, iy+1)*(1 - a)*b + p(ix+1, iy+1)*a*b; }
template<class F> static void warp(const vec2d& v, const vec2d& r, double d, const char* what, F pos) { CHECK(r.dims == v.dims, what, ": dimensions"); for (size_t y = 0; y < v.dims[0]; ++y) for (size_t x = 0; x < v.dims[1]; ++x) { auto p = pos(double(y), double(x)); bool skip; double w = bil(v, p.first, p.second, d, skip); if (!skip) CHECK(vp::near(r(y, x), w, 1e-9, 1e-6), what, ": pixel ", y, ",", x, " is ", r(y, x), " expected ", w); } }
SUB("resample", 4) {
    vec2d v = image<double>(t, 2, 6); double d = double(t.range(-9, 9)); auto num = [&](double lo, double hi) { return t.coin() ? 0.25*double(t.range(int(4*lo), int(4*hi))) : lo + (hi - lo)*t.unit(); }; double dx = num(-4, 4), dy = num(-4, 4); t.note(dx, " ", dy, " ", d); warp(v, translate(v, dx, dy, d), d, "translate", [&](double x, double y) { return std::make_pair(x - dx, y - dy); }); double f = t.coin() ? std::pow(2.0, double(t.range(-2, 2))) : 0.3 + 3*t.unit(), cy = double(v.dims[0]/2), cx = double(v.dims[1]/2); t.note(f); warp(v, scale(v, f, d), d, "scale", [&](double y, double x) { return std::make_pair((y - cy)/f + cy, (x - cx)/f + cx); }); double a = t.coin() ? 90*double(t.range(-5, 5)) : 720*t.unit() - 360; t.note(a); double ca = std::cos(a*dpi/180), sa = std::sin(a*dpi/180); warp(v, rotate(v, a, d), d, "rotate", [&](double y, double x) { return std::make_pair((y - cy)*ca - (x - cx)*sa + cy, (x - cx)*ca + (y - cy)*sa + cx); }); t.nontrivial();
}
SUB("cubic", 2) { // the cubic versions reproduce linear images and the pixels themselves, inside of the image
    size_t a = size_t(t.range(4, 8)), b = size_t(t.range(4, 8)); double p = double(t.range(-5, 5)), q = double(t.range(-5, 5)), s = double(t.range(-5, 5)); vec2d v(a, b); for (size_t x = 0; x < a; ++x) for (size_t y = 0; y < b; ++y) v(x, y) = s + p*double(x) + q*double(y); double dx = 4*t.unit() - 2, dy = 4*t.unit() - 2, f = 0.5 + 2*t.unit(), an = 360*t.unit(); t.note(int(a), " ", int(b), " ", p, " ", q, " ", s, " ", dx, " ", dy, " ", f, " ", an); double cy = double(a/2), cx = double(b/2), ca = std::cos(an*dpi/180), sa = std::sin(an*dpi/180); auto chk = [&](const vec2d& r, const char* what, std::function<std::pair<double,double>(double,double)> pos) { CHECK(r.dims == v.dims, what); for (size_t y = 0; y < a; ++y) for (size_t x = 0; x < b; ++x) { auto z = pos(double(y), double(x)); if (z.first < 1.001 || z.second < 1.001 || z.first > double(a) - 2.001 || z.second > double(b) - 2.001) continue; double w = s + p*z.first + q*z.second; CHECK(vp::near(r(y, x), w, 1e-9, 1e-8), what, ": pixel ", y, ",", x, " is ", r(y, x), " expected ", w); t.nontrivial(); } }; chk(translate_bicubic(v, dx, dy), "translate_bicubic", [&](double y, double x) { return std::make_pair(y - dx, x - dy); }); chk(scale_bicubic(v, f), "scale_bicubic", [&](double y, double x) { return std::make_pair((y - cy)/f + cy, (x - cx)/f + cx); }); chk(rotate_bicubic(v, an), "rotate_bicubic", [&](double y, double x) { return std::make_pair((y - cy)*ca - (x - cx)*sa + cy, (x - cx)*ca + (y - cy)*sa + cx); });
    vec2d g = v; for (auto& x : g) x = double(t.range(-9, 9)); LL sx = t.range(-2, 2), sy = t.range(-2, 2); vec2d r = translate_bicubic(g, double(sx), double(sy)); for (LL x = 0; x < LL(a); ++x) for (LL y = 0; y < LL(b); ++y) if (in(g, x - sx, y - sy)) CHECK(vp::near(r(size_t(x), size_t(y)), g(size_t(x - sx), size_t(y - sy)), 1e-9, 1e-9), "integer translate_bicubic");
}
static double frac(double ix, double iy, double x, double y, double r) { int n = 0; for (int i = -1; i <= 1; i += 2) for (int j = -1; j <= 1; j += 2) { double a = ix + 0.5*i - x, b = iy + 0.5*j - y; if (a*a + b*b <= r*r) ++n; } return 0.25*n; }
SUB("mask", 2) {
    size_t a = size_t(t.range(1, 9)), b = size_t(t.range(1, 9)); std::array<uint_t,2> dm{{a, b}}; double x = 0.25*double(t.range(-4, 40)), y = 0.25*double(t.range(-4, 40)), r = t.coin() ? 0.25*double(t.range(0, 30)) : 8*t.unit(); t.note(int(a), "x", int(b), " ", x, " ", y, " ", r); if (x + r > 0 && y + r > 0) { vec2d m = circular_mask(dm, r, x, y); is(m, a, b, "circular_mask", [&](LL i, LL j) { return frac(double(i), double(j), x, y, r); }); } vec2d c = circular_mask(dm, r); is(c, a, b, "centered circular_mask", [&](LL i, LL j) { return frac(double(i), double(j), double(a)/2, double(b)/2, r); }); CHECK(errors([&] { circular_mask(dm, -1.0, 1.0, 1.0); }), "negative radius"); if (r > 1) t.nontrivial();
}
SUB("profile", 2) {
    vec2d v = image<double>(t, 3, 9); size_t n = size_t(t.range(1, LL(std::min(v.dims[0], v.dims[1])/2))); double cx = double(v.dims[0]/2), cy = double(v.dims[1]/2); vec1d p = radial_profile(v, n); CHECK(p.size() == n); CHECK(p[0] == v(v.dims[0]/2, v.dims[1]/2), "center"); for (size_t i = 1; i < n; ++i) { double s = 0, w = 0; for (size_t x = 0; x < v.dims[0]; ++x) for (size_t y = 0; y < v.dims[1]; ++y) { double q = frac(double(x), double(y), cx, cy, double(i))*(1 - frac(double(x), double(y), cx, cy, double(i) - 1)); s += q*v(x, y); w += q; } CHECK(vp::near(p[i], s/w, 1e-10, 1e-10), "radius ", i, ": ", p[i], " expected ", s/w); t.nontrivial(); }
}
SUB("generate", 2) {
    size_t a = size_t(t.range(1, 9)), b = size_t(t.range(1, 9)); std::array<uint_t,2> dm{{a, b}}; vec2d g = generate_img(dm, [](double x, double y) { return 100*x + y; }); is(g, a, b, "generate_img", [&](LL x, LL y) { return 100.0*double(x) + double(y); }); double s = 0.3 + 2*t.unit(), x0 = double(a)*t.unit(), y0 = double(b)*t.unit(); t.note(int(a), "x", int(b), " ", s, " ", x0, " ", y0); vec2d p = gaussian_profile(dm, s, x0, y0), c = gaussian_profile(dm, s); auto cdf = [&](double z) { return 0.5*std::erf(z/(s*std::sqrt(2.0))); }; auto chk = [&](const vec2d& q, double u, double w) { CHECK(q.dims == dm); double tot = 0; for (size_t x = 0; x < a; ++x) for (size_t y = 0; y < b; ++y) { double e = (cdf(double(x) + 0.5 - u) - cdf(double(x) - 0.5 - u))*(cdf(double(y) + 0.5 - w) - cdf(double(y) - 0.5 - w)); CHECK(vp::near(q(x, y), e, 1e-6, 1e-9), "gaussian_profile: pixel ", x, ",", y, " is ", q(x, y), " expected ", e); tot += q(x, y); } CHECK(tot < 1 + 1e-9, "more than unit flux"); }; chk(p, x0, y0); chk(c, double(a/2), double(b/2)); if (a*b > 2) t.nontrivial();
}
SUB("boxcar", 2) {
    vec2d v = image<double>(t, 1, 6); LL h = t.range(0, 7); t.note(int(h)); auto sum = [](const vec1d& x) { return total(x); }; auto mx = [](const vec1d& x) { return max(x); }; auto cnt = [](const vec1d& x) { return double(x.size()); }; auto win = [&](LL x, LL y) { V<double> r; for (LL i = x - h; i <= x + h; ++i) for (LL j = y - h; j <= y + h; ++j) if (in(v, i, j)) r.push_back(v(size_t(i), size_t(j))); return r; }; is(boxcar(v, uint_t(h), sum), v.dims[0], v.dims[1], "boxcar total", [&](LL x, LL y) { double s = 0; for (double q : win(x, y)) s += q; return s; }); is(boxcar(v, uint_t(h), mx), v.dims[0], v.dims[1], "boxcar max", [&](LL x, LL y) { auto w = win(x, y); return *std::max_element(w.begin(), w.end()); }); is(boxcar(v, uint_t(h), cnt), v.dims[0], v.dims[1], "boxcar count", [&](LL x, LL y) { return double(win(x, y).size()); }); if (h > 0 && v.size() > 4) t.nontrivial();
}
