// X06: two-dimensional convolutions.
#include "astro_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors;
typedef long long LL;
static vec2d image(Tape& t, size_t a, size_t b) { vec2d v(a, b); bool sp = t.coin(); for (auto& x : v) x = sp ? (t.chance(1, 4) ? double(t.range(-9, 9)) : 0.0) : double(t.range(-9, 9)); t.note(int(a), "x", int(b), " ", vp::tov(v)); return v; }
static double at(const vec2d& v, LL x, LL y) { return x >= 0 && y >= 0 && x < LL(v.dims[0]) && y < LL(v.dims[1]) ? v(size_t(x), size_t(y)) : 0.0; }
static double atc(const vec2d& v, LL x, LL y) { LL a = LL(v.dims[0]), b = LL(v.dims[1]); return v(size_t(((x % a) + a) % a), size_t(((y % b) + b) % b)); }
// the image is zero outside, or cyclic
static vec2d model(const vec2d& m, const vec2d& k, bool cyc) { vec2d r(m.dims); LL hx = LL(k.dims[0]/2), hy = LL(k.dims[1]/2); for (LL x = 0; x < LL(m.dims[0]); ++x) for (LL y = 0; y < LL(m.dims[1]); ++y) { double s = 0; for (LL i = 0; i < LL(k.dims[0]); ++i) for (LL j = 0; j < LL(k.dims[1]); ++j) s += k(size_t(i), size_t(j))*(cyc ? atc(m, x - i + hx, y - j + hy) : at(m, x - i + hx, y - j + hy)); r(size_t(x), size_t(y)) = s; } return r; }
static void is(const vec2d& r, const vec2d& w, const char* what) { CHECK(r.dims == w.dims, what, ": dimensions ", r.dims[0], "x", r.dims[1]); for (size_t x = 0; x < w.dims[0]; ++x) for (size_t y = 0; y < w.dims[1]; ++y) CHECK(std::fabs(r(x, y) - w(x, y)) < 1e-8, what, ": pixel ", x, ",", y, " is ", r(x, y), " expected ", w(x, y)); }
static size_t odd(Tape& t) { return 1 + 2*t.draw(4); }
SUB("convolve", 4) {
    vec2d m = image(t, 1 + t.draw(8), 1 + t.draw(8)), k = image(t, odd(t), odd(t)), w = model(m, k, false); is(convolve2d_naive(m, k), w, "convolve2d_naive"); is(convolve2d(m, k), w, "convolve2d"); uint_t hx, hy; vec2cd pk = convolve2d_prepare_kernel(m, k, hx, hy); CHECK(hx == k.dims[0]/2 && hy == k.dims[1]/2, "half size"); is(convolve2d(m, pk, hx, hy), w, "convolve2d with prepared kernel"); vec2d m2 = image(t, m.dims[0], m.dims[1]); is(convolve2d(m2, pk, hx, hy), model(m2, k, false), "second image with the prepared kernel"); if (k.size() > 1 && m.size() > 1) t.nontrivial();
    vec2f mf = m; vec2d rf = convolve2d_naive(mf, k); is(rf, w, "float image"); vec2d ev(2, 3); CHECK(errors([&] { convolve2d_naive(m, ev); }) && errors([&] { convolve2d_prepare_kernel(m, ev, hx, hy); }) && errors([&] { convolver2d c(ev); }), "kernel with even dimensions");
}
SUB("batch", 4) {
    bool cyc = t.coin(); size_t a = 1 + t.draw(8), b = 1 + t.draw(8); vec2d k = cyc ? image(t, 1 + 2*t.draw((a + 1)/2), 1 + 2*t.draw((b + 1)/2)) : image(t, odd(t), odd(t)); auto c = batch_convolve2d(k); c.cyclic = cyc; t.note(cyc ? "cyclic" : "zero outside"); size_t n = t.size(1, 4); for (size_t i = 0; i < n; ++i) { vec2d m = image(t, a, b), w = model(m, k, cyc), o = m; vec2d r = c.convolve(m); is(r, w, "convolver"); CHECK(m.data == o.data, "input changed"); c.inplace_convolve(m); is(m, w, "convolver in place"); } if (k.size() > 1 && a*b > 1 && n > 1) t.nontrivial();
}
SUB("kernel", 2) { // convolving 'from' by the transition kernel gives 'to', to a factor
    size_t a = 2 + t.draw(7), b = t.coin() ? a : 2 + t.draw(7); vec2d from(a, b), to(a, b); for (auto& x : from) x = t.unit(); from(a/2, b/2) += double(a*b); for (auto& x : to) x = 0.1 + t.unit(); t.note(int(a), "x", int(b), " ", vp::tov(from), vp::tov(to)); vec2d k = make_transition_kernel(from, to); CHECK(k.dims == from.dims, "dimensions"); double f = total(to)/total(from)/total(k); for (LL x = 0; x < LL(a); ++x) for (LL y = 0; y < LL(b); ++y) { double s = 0; for (LL i = 0; i < LL(a); ++i) for (LL j = 0; j < LL(b); ++j) s += k(size_t(i), size_t(j))*atc(from, x - i + LL(a/2), y - j + LL(b/2)); CHECK(std::fabs(s*f - to(size_t(x), size_t(y))) < 1e-6, "pixel ", x, ",", y, ": ", s*f, " expected ", to(size_t(x), size_t(y))); } t.nontrivial();
}
