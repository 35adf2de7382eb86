// M04: interpolation passes through the data and follows its definition everywhere.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/interpolate.hpp>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
static bool near(double a, double b, double s = 100) { return std::fabs(a - b) <= 1e-10*(std::fabs(a) + std::fabs(b) + s); }
static V<double> grid(Tape& t, size_t n) { V<double> x; double c = double(t.range(-40, 40))/4; bool uni = t.chance(1, 4); for (size_t i = 0; i < n; ++i) { x.push_back(c); c += uni ? 0.5 : t.chance(1, 4) ? 0.2 + t.unit()*3 : double(1 + t.draw(8))/4; } return x; }
static V<double> vals(Tape& t, size_t n) { V<double> y(n); for (auto& q : y) q = t.coin() ? double(t.range(-20, 20)) : (t.unit() - 0.5)*20; return y; }
static double point(Tape& t, const V<double>& x) { double w = x.back() - x.front(); return t.coin() ? x[t.draw(x.size())] : t.chance(1, 4) ? x.front() + (3*t.unit() - 1)*w : x.front() + t.unit()*w; }
static double lin(const V<double>& x, const V<double>& y, double p) { size_t i = 0; while (i + 2 < x.size() && x[i + 1] <= p) ++i; return y[i] + (y[i + 1] - y[i])*(p - x[i])/(x[i + 1] - x[i]); }
// natural cubic spline by its second derivatives (dense solve), extended linearly
static double spline(const V<double>& x, const V<double>& y, double p) {
    size_t n = x.size(); V<V<double>> A(n, V<double>(n + 1, 0)); A[0][0] = A[n-1][n-1] = 1; for (size_t i = 1; i + 1 < n; ++i) { double h0 = x[i] - x[i-1], h1 = x[i+1] - x[i]; A[i][i-1] = h0/6; A[i][i] = (h0 + h1)/3; A[i][i+1] = h1/6; A[i][n] = (y[i+1] - y[i])/h1 - (y[i] - y[i-1])/h0; }
    for (size_t k = 0; k < n; ++k) { size_t b = k; for (size_t i = k; i < n; ++i) if (std::fabs(A[i][k]) > std::fabs(A[b][k])) b = i; std::swap(A[k], A[b]); for (size_t i = 0; i < n; ++i) if (i != k) { double f = A[i][k]/A[k][k]; for (size_t j = k; j <= n; ++j) A[i][j] -= f*A[k][j]; } } V<double> m(n); for (size_t i = 0; i < n; ++i) m[i] = A[i][n]/A[i][i];
    auto ev = [&](size_t i, double q, bool der) { double h = x[i+1] - x[i], a = (x[i+1] - q)/h, b = (q - x[i])/h; if (der) return (y[i+1] - y[i])/h - (3*a*a - 1)/6*h*m[i] + (3*b*b - 1)/6*h*m[i+1]; return a*y[i] + b*y[i+1] + ((a*a*a - a)*m[i] + (b*b*b - b)*m[i+1])*h*h/6; };
    if (p < x[0]) return y[0] + ev(0, x[0], true)*(p - x[0]); if (p > x[n-1]) return y[n-1] + ev(n - 2, x[n-1], true)*(p - x[n-1]); size_t i = 0; while (i + 2 < n && x[i + 1] <= p) ++i; return ev(i, p, false);
}
SUB("linear", 4) {
    size_t n = t.size(0, 9), k = t.size(0, 6); V<double> x = grid(t, n), y = vals(t, n); vec1d vx = vp::mk<double>(x), vy = vp::mk<double>(y), e(n); for (auto& q : e.data) q = double(t.draw(20))/4; if (n < 2) { CHECK(errors([&] { interpolate(vy, vx, 1.0); }) && errors([&] { interpolate(vy, vx, vec1d{1.0}); }), "too few points accepted"); return; } vec1d z(n + 1); CHECK(errors([&] { interpolate(z, vx, 1.0); }) && errors([&] { interpolate(z, vx, vec1d{1.0}); }), "sizes"); vec1d p(k); for (auto& q : p.data) q = point(t, x); t.note("x ", x, " y ", y, " at ", vp::tov(p)); vec1d r = interpolate(vy, vx, p); auto re = interpolate(vy, e, vx, p); CHECK(r.size() == k && re.first.size() == k && re.second.size() == k); double slope = 0; for (size_t i = 0; i + 1 < n; ++i) slope = std::max(slope, std::fabs((y[i+1] - y[i])/(x[i+1] - x[i])*100));
    for (size_t i = 0; i < k; ++i) { double w = lin(x, y, p[i]); CHECK(near(r[i], w, 100 + slope), "at ", p[i], ": ", r[i], " expected ", w); CHECK(near(interpolate(vy, vx, p[i]), w, 100 + slope), "scalar at ", p[i]); CHECK(near(re.first[i], w, 100 + slope), "with errors"); size_t j = 0; while (j + 2 < n && x[j + 1] <= p[i]) ++j; double a = (p[i] - x[j])/(x[j + 1] - x[j]), we = std::sqrt(e[j]*(1 - a)*e[j]*(1 - a) + e[j + 1]*a*e[j + 1]*a); CHECK(near(re.second[i], we, 100 + slope), "error at ", p[i], ": ", re.second[i], " expected ", we); auto ie = interpolate_err(y[j], y[j+1], e[j], e[j+1], x[j], x[j+1], p[i]); CHECK(near(ie.first, w, 100 + slope) && near(ie.second, we, 100 + slope), "interpolate_err"); CHECK(near(interpolate(y[j], y[j+1], x[j], x[j+1], p[i]), w, 100 + slope), "interpolate of two points"); }
    for (size_t i = 0; i < n; ++i) CHECK(near(interpolate(vy, vx, x[i]), y[i]), "does not pass through point ", i); vec<1,float> fy = vp::mk<float>(y); if (k) CHECK(std::fabs(interpolate(fy, vx, p[0]) - r[0]) <= 1e-4*(100 + slope + std::fabs(r[0])), "float data"); vec<1,int> ix(n), iy(n); for (size_t i = 0; i < n; ++i) { ix[i] = int(3*i); iy[i] = int(y[i]); } V<double> dx, dy; for (size_t i = 0; i < n; ++i) { dx.push_back(3.0*i); dy.push_back(int(y[i])); } double q = t.unit()*3*n; CHECK(near(interpolate(vec1d{iy}, ix, q), lin(dx, dy, q)), "integer positions"); if (n > 2 && k) t.nontrivial();
}
SUB("spline", 4) {
    size_t n = t.size(0, 8), k = t.size(0, 5); V<double> x = grid(t, n), y = vals(t, n); vec1d vx = vp::mk<double>(x), vy = vp::mk<double>(y); if (n < 2) { CHECK(errors([&] { interpolate_3spline(vy, vx, 1.0); }) && errors([&] { interpolate_3spline(vy, vx, vec1d{1.0}); }) && errors([&] { interpolate_3spline(vy, 1.0); }) && errors([&] { interpolate_3spline(vy, vec1d{1.0}); }), "too few points accepted"); return; } vec1d z(n + 1); CHECK(errors([&] { interpolate_3spline(z, vx, 1.0); }) && errors([&] { interpolate_3spline(z, vx, vec1d{1.0}); }), "sizes"); vec1d p(k); for (auto& q : p.data) q = point(t, x); t.note("x ", x, " y ", y, " at ", vp::tov(p)); double sc = 1e4; vec1d r = interpolate_3spline(vy, vx, p); CHECK(r.size() == k); for (size_t i = 0; i < k; ++i) { double w = spline(x, y, p[i]); CHECK(near(r[i], w, sc), "at ", p[i], ": ", r[i], " expected ", w); CHECK(near(interpolate_3spline(vy, vx, p[i]), w, sc), "scalar at ", p[i]); } for (size_t i = 0; i < n; ++i) CHECK(near(interpolate_3spline(vy, vx, x[i]), y[i], sc), "does not pass through point ", i);
    V<double> u; for (size_t i = 0; i < n; ++i) u.push_back(double(i)); for (auto& q : p.data) q = t.chance(1, 4) ? double(t.range(-2, int(n) + 2)) : (t.unit()*1.6 - 0.3)*double(n); vec1d s = interpolate_3spline(vy, p); CHECK(s.size() == k); t.note("regular grid at ", vp::tov(p)); for (size_t i = 0; i < k; ++i) { double w = spline(u, y, p[i]); CHECK(near(s[i], w, sc), "regular grid at ", p[i], ": ", s[i], " expected ", w); CHECK(near(interpolate_3spline(vy, p[i]), w, sc), "regular grid, scalar at ", p[i]); } vec2d p2(1, k); p2.data = p.data; vp::expect(interpolate_3spline(vy, p2), std::array<size_t,2>{{1, k}}, vp::tov(s), "2D positions"); if (n > 2 && k) t.nontrivial();
}
static double cell(const V<double>& v, size_t na, size_t nb, double x, double y) { auto ix = [](double q, size_t n) { long i = long(std::floor(q)); i = std::max<long>(0, std::min<long>(i, long(n) - 2)); return size_t(i); }; size_t i = ix(x, na), j = ix(y, nb); double a = x - double(i), b = y - double(j); return v[i*nb + j]*(1 - a)*(1 - b) + v[i*nb + j + 1]*(1 - a)*b + v[(i + 1)*nb + j]*a*(1 - b) + v[(i + 1)*nb + j + 1]*a*b; }
SUB("bilinear", 4) {
    size_t na = t.size(2, 6), nb = t.size(2, 6), k = t.size(1, 5); V<double> m = vals(t, na*nb); vec2d v = vp::mkd<2,double>({{na, nb}}, m); auto pos = [&](size_t n) { return t.coin() ? double(t.range(-1, int(n))) : (t.unit()*1.6 - 0.3)*double(n); }; t.note("map ", na, "x", nb, " ", m);
    for (size_t q = 0; q < k; ++q) { double x = pos(na), y = pos(nb), w = cell(m, na, nb, x, y); t.note("at ", x, ",", y); double r = bilinear(v, x, y); CHECK(near(r, w), "bilinear ", r, " expected ", w); bool out = x < 0 || y < 0 || x > double(na - 1) || y > double(nb - 1); double s = bilinear_strict(v, x, y, -777.0); CHECK(near(s, out ? -777.0 : w), "bilinear_strict ", s, " expected ", out ? -777.0 : w); bool outc = x < 1 || y < 1 || x >= double(na) - 2 || y >= double(nb) - 2; double c = bicubic_strict(v, x, y, -777.0); if (outc) CHECK(c == -777.0, "bicubic_strict outside"); else { size_t i = size_t(x), j = size_t(y); V<double> u{0, 1, 2, 3}, tx; for (size_t a = 0; a < 4; ++a) { V<double> ty; for (size_t b = 0; b < 4; ++b) ty.push_back(m[(i + a - 1)*nb + j + b - 1]); tx.push_back(spline(u, ty, y - double(j) + 1)); } double wc = spline(u, tx, x - double(i) + 1); CHECK(near(c, wc, 1e4), "bicubic_strict ", c, " expected ", wc); } }
    for (size_t i = 0; i < na; ++i) for (size_t j = 0; j < nb; ++j) { CHECK(near(bilinear(v, double(i), double(j)), m[i*nb + j]), "bilinear at pixel ", i, ",", j); CHECK(near(bilinear_strict(v, double(i), double(j), -777.0), m[i*nb + j]), "bilinear_strict at pixel ", i, ",", j); }
    V<double> gx = grid(t, na), gy = grid(t, nb); vec1d vx = vp::mk<double>(gx), vy = vp::mk<double>(gy), px(k), py(k + 1); for (auto& q : px.data) q = point(t, gx); for (auto& q : py.data) q = point(t, gy); V<double> ua, ub; for (size_t i = 0; i < na; ++i) ua.push_back(double(i)); for (size_t i = 0; i < nb; ++i) ub.push_back(double(i)); double sc = 0; for (auto q : m) sc += std::fabs(q)*1e3; vec2d rb = rebin(v, vx, vy, px, py); CHECK(vp::dimsv(rb) == (V<size_t>{k, k + 1}), "rebin: dimensions"); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j <= k; ++j) { double w = cell(m, na, nb, lin(gx, ua, px[i]), lin(gy, ub, py[j])); CHECK(near(rb(i, j), w, sc), "rebin ", i, ",", j, " is ", rb(i, j), " expected ", w); if (i == j) CHECK(near(bilinear(v, vx, vy, px[i], py[j]), w, sc), "bilinear on a grid"); } vec1d py2 = py[indgen<size_t>(k)]; vec1d bv = bilinear(v, vx, vy, px, py2); for (size_t i = 0; i < k; ++i) CHECK(near(bv[i], rb(i, i), sc), "vectorised bilinear"); vec1d bad(na + 1); CHECK(errors([&] { rebin(v, bad, vy, px, py); }) && errors([&] { bilinear(v, bad, vy, 1.0, 1.0); }) && errors([&] { bilinear(v, vx, vy, px, py); }), "sizes"); t.nontrivial();
}
