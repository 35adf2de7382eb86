// M03: integrals of tables, histograms and functions.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
static bool near(double a, double b, double s) { return std::fabs(a - b) <= 1e-11*(std::fabs(a) + std::fabs(b) + s); }
static V<double> grid(Tape& t, size_t n) { V<double> x; double c = double(t.range(-40, 40))/4; for (size_t i = 0; i < n; ++i) { x.push_back(c); c += t.chance(1, 4) ? 0.1 + t.unit()*3 : double(1 + t.draw(8))/4; } return x; }
static V<double> vals(Tape& t, size_t n) { V<double> y(n); for (auto& q : y) q = t.coin() ? double(t.range(-20, 20)) : (t.unit() - 0.5)*20; return y; }
// exact integral of the piecewise linear function
static double lin(const V<double>& x, const V<double>& y, double a, double b) { double s = 0; for (size_t i = 0; i + 1 < x.size(); ++i) { double l = std::max(a, x[i]), h = std::min(b, x[i + 1]); if (h <= l) continue; double w = x[i + 1] - x[i], yl = y[i] + (y[i + 1] - y[i])*(l - x[i])/w, yh = y[i] + (y[i + 1] - y[i])*(h - x[i])/w; s += 0.5*(yl + yh)*(h - l); } return s; }
static double bar(const V<double>& x, const V<double>& y, double a, double b) { double s = 0; for (size_t i = 0; i < y.size(); ++i) { double l = std::max(a, x[i]), h = std::min(b, x[i + 1]); if (h > l) s += y[i]*(h - l); } return s; }
static double point(Tape& t, const V<double>& x) { return t.coin() ? x[t.draw(x.size())] : t.chance(1, 6) ? (t.coin() ? x.front() : x.back()) : x.front() + t.unit()*(x.back() - x.front()); }
SUB("table", 5) {
    size_t n = t.size(0, 9); V<double> x = grid(t, n), y = vals(t, n); vec1d vx = vp::mk<double>(x), vy = vp::mk<double>(y); t.note("x ", x, " y ", y); double sc = 0; for (auto q : y) sc += std::fabs(q)*10; double full = n ? lin(x, y, x.front(), x.back()) : 0; CHECK(near(integrate(vx, vy), full, sc), "integrate ", integrate(vx, vy), " expected ", full); vec1d c = cumul(vx, vy); CHECK(c.size() == n, "cumul size"); for (size_t i = 0; i < n; ++i) CHECK(near(c[i], lin(x, y, x.front(), x[i]), sc), "cumul at ", i, " is ", c[i], " expected ", lin(x, y, x.front(), x[i])); vec1d z(n + 1); CHECK(errors([&] { integrate(vx, z); }) && errors([&] { cumul(vx, z); }) && errors([&] { integrate(vx, z, 0, 0); }), "sizes");
    if (n == 0) { CHECK(errors([&] { integrate(vx, vy, 0, 0); }), "empty table"); return; }
    double a = point(t, x), b = point(t, x); if (a > b) std::swap(a, b); if (t.chance(1, 5)) b = a; t.note("between ", a, " and ", b); double w = lin(x, y, a, b), r = integrate(vx, vy, a, b); CHECK(near(r, w, sc), "integrate between two points ", r, " expected ", w); uint_t h = npos; r = integrate_hinted(vx, vy, h, a, b); CHECK(near(r, w, sc), "integrate_hinted ", r, " expected ", w); CHECK(h < n, "hint ", h); double d = b + (x.back() - b)*t.unit(); if (t.coin()) d = x.back(); r = integrate_hinted(vx, vy, h, b, d); CHECK(near(r, lin(x, y, b, d), sc), "integrate_hinted with a hint ", r, " expected ", lin(x, y, b, d), " between ", b, " and ", d); CHECK(h < n);
    CHECK(errors([&] { integrate(vx, vy, x.front() - 0.5, b); }) && errors([&] { integrate(vx, vy, a, x.back() + 0.5); }) && errors([&] { uint_t q = npos; integrate_hinted(vx, vy, q, a, x.back() + 0.5); }) && errors([&] { uint_t q = npos; integrate_hinted(vx, vy, q, x.front() - 0.5, b); }), "range outside of the table accepted"); if (n > 2) t.nontrivial();
}
SUB("hinted", 2) { // successive intervals
    size_t n = t.size(2, 10), k = t.size(1, 12); V<double> x = grid(t, n), y = vals(t, n), e{x.front()}; vec1d vx = vp::mk<double>(x), vy = vp::mk<double>(y); for (size_t i = 0; i < k; ++i) e.push_back(point(t, x)); std::sort(e.begin(), e.end()); t.note(x, y, e); uint_t h = t.coin() ? 0 : npos; for (size_t i = 0; i + 1 < e.size(); ++i) { double r = integrate_hinted(vx, vy, h, e[i], e[i + 1]), w = lin(x, y, e[i], e[i + 1]); CHECK(near(r, w, 1000), "interval ", i, ": ", r, " expected ", w); CHECK(h < n && x[h] <= e[i + 1], "hint"); } if (k > 2) t.nontrivial();
}
SUB("binned", 3) {
    size_t n = t.size(0, 8); V<double> x = grid(t, n + 1), y = vals(t, n); vec2d vx(2, n); for (size_t i = 0; i < n; ++i) { vx(0, i) = x[i]; vx(1, i) = x[i + 1]; } vec1d vy = vp::mk<double>(y); t.note(x, y); CHECK(near(integrate(vx, vy), bar(x, y, x.front(), x.back()), 1000), "integrate of bins"); vec1d z(n + 1); vec2d bad(3, n); CHECK(errors([&] { integrate(vx, z); }) && errors([&] { integrate(bad, vy); }) && errors([&] { integrate(vx, z, 0, 0); }), "sizes"); if (!n) { CHECK(errors([&] { integrate(vx, vy, 0, 0); })); return; } double a = point(t, x), b = point(t, x); if (a > b) std::swap(a, b); t.note("between ", a, " and ", b); double r = integrate(vx, vy, a, b), w = bar(x, y, a, b); CHECK(near(r, w, 1000), "integrate of bins between two points ", r, " expected ", w); CHECK(errors([&] { integrate(vx, vy, x.front() - 1, b); }) && errors([&] { integrate(vx, vy, a, x.back() + 1); }), "range outside of the bins accepted");
    // any order, with gaps
    vec2d gx = vx; V<double> gw; for (size_t i = 0; i < n; ++i) { double cut = t.chance(1, 3) ? 0.25*(x[i + 1] - x[i]) : 0; gx(1, i) -= cut; } double s = 0; for (size_t i = 0; i < n; ++i) s += y[i]*(gx(1, i) - gx(0, i)); for (size_t k = n; k > 1; --k) { size_t j = t.draw(k); std::swap(gx(0, k-1), gx(0, j)); std::swap(gx(1, k-1), gx(1, j)); std::swap(vy[k-1], vy[j]); } CHECK(near(integrate(gx, vy), s, 1000), "bins in any order"); if (n > 2) t.nontrivial();
}
SUB("additive", 1) { // the integral over [a,c] is the sum of those over [a,b] and [b,c]
    size_t n = t.size(2, 30); V<double> x = grid(t, n), y = vals(t, n); vec1d vx = vp::mk<double>(x), vy = vp::mk<double>(y); V<double> e{point(t, x), point(t, x), point(t, x)}; std::sort(e.begin(), e.end()); CHECK(near(integrate(vx, vy, e[0], e[2]), integrate(vx, vy, e[0], e[1]) + integrate(vx, vy, e[1], e[2]), 1000), "not additive at ", e); t.nontrivial(); }
SUB("function", 2) {
    size_t deg = t.draw(6); V<double> c(deg + 1); for (auto& q : c) q = double(t.range(0, 20))/4; c[0] += 0.5; double a = double(t.range(0, 40))/8, b = a + double(1 + t.draw(40))/8; t.note("polynomial ", c, " from ", a, " to ", b); size_t calls = 0; auto f = [&](double x) { CHECK(x >= a - 1e-9 && x <= b + 1e-9, "function called outside of the interval at ", x); CHECK(++calls < 2000000, "no convergence"); double s = 0; for (size_t i = c.size(); i-- > 0;) s = s*x + c[i]; return s; }; double w = 0; for (size_t i = 0; i < c.size(); ++i) w += c[i]*(std::pow(b, double(i + 1)) - std::pow(a, double(i + 1)))/double(i + 1); double r = integrate_func(f, a, b, 1e-9); CHECK(std::fabs(r - w) <= 1e-7*std::fabs(w), "integrate_func ", r, " expected ", w);
    double k = double(1 + t.draw(12))/8; calls = 0; double e = integrate_func([&](double x) { CHECK(++calls < 2000000); return std::exp(-k*x); }, a, b, 1e-9), we = (std::exp(-k*a) - std::exp(-k*b))/k; CHECK(std::fabs(e - we) <= 1e-6*we, "integral of an exponential ", e, " expected ", we);
    double xc = double(t.range(-40, 40))/8, xw = double(1 + t.draw(30))/8, amp = double(1 + t.draw(20))/4; size_t N = 2000; double s = 0, h = (b - a)/N; auto g = [&](double x) { return amp*std::exp(-0.5*(x - xc)*(x - xc)/xw/xw)/std::sqrt(2*M_PI)/xw; }; for (size_t i = 0; i < N; ++i) s += h/6*(g(a + i*h) + 4*g(a + (i + 0.5)*h) + g(a + (i + 1)*h)); double q = integrate_gauss(a, b, xc, xw, amp); CHECK(std::fabs(q - s/(b - a)) <= 1e-7*(amp/xw), "integrate_gauss ", q, " expected ", s/(b - a)); double yc = double(t.range(-16, 16))/8; double q2 = integrate_gauss_2d(a, b, -1.0, 1.5, xc, yc, xw, amp); CHECK(vp::near(q2, q*integrate_gauss(-1.0, 1.5, yc, xw), 1e-12, 1e-300), "integrate_gauss_2d"); vec1d va = {a, a + 1}, vb = {b, b + 1}; vec1d qv = integrate_gauss(va, vb, xc, xw, amp); CHECK(vp::near(qv[0], q, 1e-13, 1e-300), "vectorised"); t.nontrivial();
}
