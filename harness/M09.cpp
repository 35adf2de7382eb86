// M09: Fourier transforms and 1D convolution.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/time.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
#include <vif/math/complex.hpp>
#include <vif/math/fourier.hpp>
#include <vif/math/transform.hpp>
#include <thread>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
typedef long double LD; typedef std::complex<LD> C; typedef std::complex<double> c2;
static V<C> dft(const V<C>& v, size_t n, size_t m, int sgn) { V<C> r(n*m, C(0)); const LD tp = 2*std::acos(LD(-1)); for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < m; ++b) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { LD ph = sgn*tp*(LD(a*i % n)/LD(n) + LD(b*j % m)/LD(m)); r[a*m+b] += v[i*m+j]*C(std::cos(ph), std::sin(ph)); } return r; }
static vec2d gend(Tape& t, size_t n, size_t m) { vec2d v(n, m); bool nice = t.coin(); for (auto& x : v.data) x = nice ? double(t.range(-9, 9)) : (t.unit() - 0.5)*10; return v; }
static bool eq(C a, C b, LD s) { return std::abs(a - b) <= 1e-12L*(s + 1); }
static bool is_same(const vec2d& a, const vec2d& b) { return a.dims == b.dims && a.data == b.data; }
SUB("real", 4) {
    size_t n = t.size(1, 7), m = t.size(1, 7), h = m/2 + 1; vec2d v = gend(t, n, m); t.note(n); t.note(m); t.note(vp::tov(v)); vec2d v0 = v; LD s = 0; V<C> cv; for (double x : v.data) { cv.push_back(C(x)); s += std::fabs(x); } vec2cd f; if (t.coin()) f = fft(v); else { f.resize(n, m); fft(v, f); } CHECK(is_same(v, v0), "fft changed its argument"); CHECK(f.dims == v.dims, "dimensions of the transform"); auto d = dft(cv, n, m, -1); for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < h; ++b) CHECK(eq(C(f.data[a*h+b].real(), f.data[a*h+b].imag()), d[a*m+b], s), "coefficient ", a, ",", b);
    vec2cd f0 = f; vec2d r; if (t.coin()) r = ifft(f); else { r.resize(n, m); ifft(f, r); } CHECK(f.data == f0.data, "ifft changed its argument"); CHECK(r.dims == v.dims); for (size_t i = 0; i < n*m; ++i) CHECK(std::fabs(r.data[i]/double(n*m) - v.data[i]) <= 1e-12*double(s + 1), "inverse transform of the transform: element ", i, " is ", r.data[i]/double(n*m), " expected ", v.data[i]);
    // product of the transforms: circular convolution
    vec2d k = gend(t, n, m); vec2cd fk = fft(k); vec2d c = ifft(f*fk); LD sk = 0; for (double x : k.data) sk += std::fabs(x); for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < m; ++b) { LD e = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) e += LD(v(i, j))*k((a + n - i) % n, (b + m - j) % m); CHECK(std::fabs(c(a, b)/double(n*m) - e) <= 1e-12L*(s*sk + 1), "circular convolution"); }
    if (n > 1 && m > 1) t.nontrivial();
}
SUB("complex", 3) {
    size_t n = t.size(1, 6), m = t.size(1, 6); vec2d re = gend(t, n, m), im = gend(t, n, m); vec2cd v(n, m); V<C> cv; LD s = 0; for (size_t i = 0; i < n*m; ++i) { v.data[i] = c2(re.data[i], im.data[i]); cv.push_back(C(re.data[i], im.data[i])); s += std::abs(cv[i]); } t.note(vp::tov(re)); t.note(vp::tov(im)); for (size_t i = 0; i < n*m; ++i) CHECK(vec2d(real_part(v)).data[i] == re.data[i] && vec2d(imag_part(v)).data[i] == im.data[i], "real or imaginary part"); vec2cd v0 = v, f, b; if (t.coin()) f = fft_c2c(v); else { f.resize(n, m); fft_c2c(v, f); } CHECK(v.data == v0.data, "fft_c2c changed its argument"); auto d = dft(cv, n, m, -1); for (size_t i = 0; i < n*m; ++i) CHECK(eq(C(f.data[i].real(), f.data[i].imag()), d[i], s), "coefficient ", i); if (t.coin()) b = ifft_c2c(v); else { b.resize(n, m); ifft_c2c(v, b); } CHECK(v.data == v0.data && b.dims == v.dims, "ifft_c2c changed its argument"); d = dft(cv, n, m, 1); for (size_t i = 0; i < n*m; ++i) CHECK(eq(C(b.data[i].real(), b.data[i].imag()), d[i], s), "inverse coefficient ", i); b = ifft_c2c(f); for (size_t i = 0; i < n*m; ++i) CHECK(std::abs(b.data[i]/double(n*m) - v.data[i]) <= 1e-12*double(s + 1), "inverse of the transform"); if (n > 1 && m > 1) t.nontrivial();
}
SUB("concurrent", 1) { // transforms can run in several threads
    size_t nt = 2 + t.draw(3), n = 2 + t.draw(6), m = 2 + t.draw(6); V<vec2d> in, out(nt); for (size_t i = 0; i < nt; ++i) in.push_back(gend(t, n + i, m)); V<std::thread> th; for (size_t i = 0; i < nt; ++i) th.emplace_back([&, i] { for (int k = 0; k < 3; ++k) out[i] = ifft(fft(in[i])); }); for (auto& x : th) x.join(); for (size_t i = 0; i < nt; ++i) for (size_t k = 0; k < in[i].size(); ++k) CHECK(std::fabs(out[i].data[k]/double(in[i].size()) - in[i].data[k]) < 1e-9, "transform in a thread"); t.nontrivial();
}
SUB("convolve", 2) { // sum over i of y1_i*y2(x - x_i)*dx_i, y2 interpolated (and extrapolated) linearly
    size_t n = 4 + t.size(0, 8); V<double> x, a, b; double p = double(t.range(-5, 5)); for (size_t i = 0; i < n; ++i) { x.push_back(p); p += double(1 + t.draw(4)); a.push_back(double(t.range(-5, 5))); b.push_back(double(t.range(-5, 5))); } t.note(x); t.note(a); t.note(b); vec1d vx = vp::mk<double>(x), va = vp::mk<double>(a), vb = vp::mk<double>(b); vec1d r = convolve(vx, va, vb); CHECK(r.size() == n); for (size_t k = 0; k < n; ++k) { LD e = 0, sc = 1; for (size_t i = 0; i < n; ++i) { LD dx = i == 0 ? x[1] - x[0] : x[i] - x[i-1]; LD q = x[k] - x[i]; size_t j = 0; while (j + 2 < n && q > x[j+1]) ++j; LD w = (q - x[j])/(x[j+1] - x[j]); LD y = b[j]*(1 - w) + b[j+1]*w; e += a[i]*y*dx; sc += std::fabs(a[i]*y*dx); } CHECK(std::fabs(r[k] - e) <= 1e-10L*sc, "convolution at ", x[k], " is ", r[k], " expected ", double(e)); } vec1d bad(n + 1); CHECK(errors([&] { convolve(vx, va, bad); }) && errors([&] { convolve(vx, bad, vb); }), "incompatible dimensions"); t.nontrivial();
}
