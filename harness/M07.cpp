// M07: linear least squares.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
#include <vif/reflex/reflex.hpp>
#include <vif/math/linfit.hpp>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
typedef long double LD; typedef V<V<LD>> M;
struct Prob { size_t n, p; V<V<double>> x; V<double> y, e; };
static bool invert_ref(M a, M& r) { size_t n = a.size(); r = M(n, V<LD>(n, 0)); for (size_t i = 0; i < n; ++i) r[i][i] = 1; for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i; if (a[p][k] == 0) return false; std::swap(a[p], a[k]); std::swap(r[p], r[k]); LD d = a[k][k]; for (size_t j = 0; j < n; ++j) { a[k][j] /= d; r[k][j] /= d; } for (size_t i = 0; i < n; ++i) if (i != k) { LD f = a[i][k]; for (size_t j = 0; j < n; ++j) { a[i][j] -= f*a[k][j]; r[i][j] -= f*r[k][j]; } } } return true; }
struct Sol { M cov; V<LD> a; LD chi2, cond; bool ok; };
static Sol ref(const Prob& q) {
    Sol s; M al(q.p, V<LD>(q.p, 0)); V<LD> b(q.p, 0);
    for (size_t i = 0; i < q.p; ++i) { for (size_t j = 0; j < q.p; ++j) for (size_t m = 0; m < q.n; ++m) al[i][j] += LD(q.x[i][m])*q.x[j][m]/(LD(q.e[m])*q.e[m]); for (size_t m = 0; m < q.n; ++m) b[i] += LD(q.x[i][m])*q.y[m]/(LD(q.e[m])*q.e[m]); }
    s.ok = invert_ref(al, s.cov); s.chi2 = 0; s.cond = 0; if (!s.ok) return s;
    LD na = 0, nc = 0; for (auto& r : al) for (auto x : r) na += x*x; for (auto& r : s.cov) for (auto x : r) nc += x*x; s.cond = std::sqrt(na*nc);
    s.a.assign(q.p, 0); for (size_t i = 0; i < q.p; ++i) for (size_t j = 0; j < q.p; ++j) s.a[i] += s.cov[i][j]*b[j];
    for (size_t m = 0; m < q.n; ++m) { LD r = q.y[m]; for (size_t i = 0; i < q.p; ++i) r -= s.a[i]*q.x[i][m]; s.chi2 += r*r/(LD(q.e[m])*q.e[m]); }
    return s;
}
static Prob gen(Tape& t, size_t p, bool pos = false) {
    Prob q; q.p = p; q.n = p + t.size(0, 8); bool nice = t.coin(); auto val = [&] { double v = nice ? double(t.range(-9, 9)) : (t.unit() - 0.5)*20; return pos ? std::fabs(v) : v; };
    for (size_t i = 0; i < p; ++i) { V<double> x(q.n); int kind = int(t.draw(4)); for (size_t m = 0; m < q.n; ++m) x[m] = kind == 0 ? 1.0 : kind == 1 ? double(m) : val(); q.x.push_back(x); }
    q.y.resize(q.n); q.e.resize(q.n); bool flat = t.coin(); for (auto& v : q.y) v = val(); for (auto& v : q.e) v = flat ? 1.0 : 0.25*double(1 + t.draw(16)); return q;
}
static void shown(Tape& t, const Prob& q) { t.note(q.y); t.note(q.e); for (auto& x : q.x) t.note(x); }
static void same(const linfit_result& f, const Prob& q, const Sol& s, const char* what) {
    LD tol = 1e-11L*(1 + s.cond); CHECK(f.success, what, ": failed"); CHECK(f.params.size() == q.p && f.errors.size() == q.p && f.cov.dims[0] == q.p && f.cov.dims[1] == q.p, what, ": sizes");
    LD sa = 1, sc = 0, sy = 1; for (auto x : s.a) sa += std::fabs(x); for (auto& r : s.cov) for (auto x : r) sc += std::fabs(x); for (size_t m = 0; m < q.n; ++m) sy += LD(q.y[m])*q.y[m]/(LD(q.e[m])*q.e[m]);
    for (size_t i = 0; i < q.p; ++i) { CHECK(std::fabs(f.params[i] - s.a[i]) <= tol*sa, what, ": parameter ", i, " is ", f.params[i], " expected ", double(s.a[i])); CHECK(std::fabs(f.errors[i] - std::sqrt(s.cov[i][i])) <= tol*(std::sqrt(s.cov[i][i]) + sc), what, ": error ", i, " is ", f.errors[i], " expected ", double(std::sqrt(s.cov[i][i]))); for (size_t j = 0; j < q.p; ++j) CHECK(std::fabs(f.cov(i, j) - s.cov[i][j]) <= tol*sc, what, ": covariance"); }
    CHECK(std::fabs(f.chi2 - s.chi2) <= tol*sy*10, what, ": chi2 ", f.chi2, " expected ", double(s.chi2));
}
static linfit_result call(const Prob& q, const vec1d& y, const vec1d& e, const V<vec1d>& x) { return q.p == 1 ? linfit(y, e, x[0]) : q.p == 2 ? linfit(y, e, x[0], x[1]) : q.p == 3 ? linfit(y, e, x[0], x[1], x[2]) : linfit(y, e, x[0], x[1], x[2], x[3]); }
static V<vec1d> cols(const Prob& q) { V<vec1d> r; for (auto& x : q.x) r.push_back(vp::mk<double>(x)); return r; }
static vec2d packed(const Prob& q) { vec2d r(q.p, q.n); for (size_t i = 0; i < q.p; ++i) for (size_t m = 0; m < q.n; ++m) r(i, m) = q.x[i][m]; return r; }
SUB("fit", 5) {
    Prob q = gen(t, 1 + t.draw(4)); shown(t, q); Sol s = ref(q); if (!s.ok || s.cond > 1e6) throw vp::Discard(); vec1d y = vp::mk<double>(q.y), e = vp::mk<double>(q.e); auto x = cols(q); vec2d px = packed(q);
    same(call(q, y, e, x), q, s, "linfit"); same(linfit_pack(y, e, px), q, s, "linfit_pack");
    if (q.p == 2) { Prob c = q; double k = double(1 + t.draw(5)); for (auto& v : c.x[0]) v = k; Sol sc = ref(c); if (sc.ok && sc.cond < 1e6) same(linfit(y, e, k, x[1]), c, sc, "linfit with a constant"); }
    if (q.n % 2 == 0) { vec2d y2(2, q.n/2), e2(2, q.n/2); vec3d x3(q.p, 2, q.n/2); for (size_t m = 0; m < q.n; ++m) { y2.data[m] = q.y[m]; e2.data[m] = q.e[m]; } x3.data = px.data; same(linfit_pack(y2, e2, x3), q, s, "linfit_pack of 2D data"); vec2d xa(2, q.n/2), xb(2, q.n/2); if (q.p == 2) { for (size_t m = 0; m < q.n; ++m) { xa.data[m] = q.x[0][m]; xb.data[m] = q.x[1][m]; } same(linfit(y2, e2, xa, xb), q, s, "linfit of 2D data"); } }
    vec1d bad(q.n + 1); CHECK(errors([&] { linfit(y, e, bad); }) && errors([&] { linfit(y, bad + 1, x[0]); }) && errors([&] { linfit_pack(bad, e, px); }) && errors([&] { linfit_pack(y, bad, px); }), "incompatible dimensions accepted"); CHECK(vp::tov(y) == q.y && vp::tov(e) == q.e, "the data changed");
    // exact data: parameters are recovered and chi2 is zero
    { Prob z = q; V<double> tr; for (size_t i = 0; i < q.p; ++i) tr.push_back(double(t.range(-5, 5))); for (size_t m = 0; m < q.n; ++m) { z.y[m] = 0; for (size_t i = 0; i < q.p; ++i) z.y[m] += tr[i]*q.x[i][m]; } auto f = call(z, vp::mk<double>(z.y), e, x); for (size_t i = 0; i < q.p; ++i) CHECK(std::fabs(f.params[i] - tr[i]) <= 1e-9*(1 + double(s.cond)), "parameters of exact data"); }
    if (q.p > 1 && q.n > q.p) t.nontrivial();
}
SUB("batch", 4) {
    Prob q = gen(t, 1 + t.draw(4)); shown(t, q); vec1d e = vp::mk<double>(q.e); auto x = cols(q); vec2d px = packed(q); bool pk = t.coin(); auto b = pk ? linfit_pack_batch(e, px) : q.p == 1 ? linfit_batch(e, x[0]) : q.p == 2 ? linfit_batch(e, x[0], x[1]) : q.p == 3 ? linfit_batch(e, x[0], x[1], x[2]) : linfit_batch(e, x[0], x[1], x[2], x[3]);
    size_t steps = 1 + t.draw(5), done = 0; for (size_t k = 0; k < steps; ++k) {
        if (t.coin()) { size_t i = t.draw(q.p); for (auto& v : q.x[i]) v = double(t.range(-9, 9)); t.note(i); t.note(q.x[i]); vec1d xi = vp::mk<double>(q.x[i]); if (t.coin() && q.p > 1) { size_t j = (i + 1) % q.p; for (auto& v : q.x[j]) v = double(t.range(-9, 9)); t.note(q.x[j]); vec1d xj = vp::mk<double>(q.x[j]); b.update_models(i, xi, j, xj); } else if (t.coin()) b.update_models(i, xi); else b.update_model(i, xi); }
        for (auto& v : q.y) v = double(t.range(-9, 9)); t.note(q.y); vec1d y = vp::mk<double>(q.y); Sol s = ref(q); if (!s.ok || s.cond > 1e6) continue;
        if (t.coin()) b.fit(y); else { b.fit_nochi2(y); b.update_chi2(y); } same(b.fr, q, s, "batch fit"); ++done;
    }
    vec1d bad(q.n + 1); CHECK(errors([&] { b.fit(bad); }), "incompatible dimensions"); CHECK(errors([&] { b.update_model(q.p, bad); }), "model number"); CHECK(errors([&] { b.update_model(0, bad); }), "incompatible dimensions of the model"); if (!done) throw vp::Discard(); if (done > 1) t.nontrivial();
}
SUB("singular", 1) { // two null or identical models: no unique solution
    Prob q = gen(t, 2 + t.draw(3)); size_t i = t.draw(q.p); for (auto& v : q.x[i]) v = 0; shown(t, q); vec1d y = vp::mk<double>(q.y), e = vp::mk<double>(q.e); auto f = call(q, y, e, cols(q)); CHECK(!f.success, "fit of a null model succeeded"); CHECK(f.params.size() == q.p && f.errors.size() == q.p && f.cov.dims[0] == q.p, "sizes after a failure"); for (double d : f.params) CHECK(std::isnan(d), "parameters after a failure"); CHECK(std::isnan(f.chi2), "chi2 after a failure"); auto b = linfit_pack_batch(e, packed(q)); b.fit(y); CHECK(!b.fr.success && std::isnan(b.fr.chi2), "batch fit of a null model succeeded");
    for (auto& v : q.x[i]) v = double(t.range(-9, 9)); t.note(q.x[i]); Sol s = ref(q); b.update_model(i, vp::mk<double>(q.x[i])); if (s.ok && s.cond < 1e6) { b.fit(y); same(b.fr, q, s, "batch fit after a failure"); t.nontrivial(); }
}
SUB("nonnegative", 3) {
    Prob q = gen(t, 1 + t.draw(3), true); for (auto& xx : q.x) { bool z = true; for (auto v : xx) z = z && v == 0; if (z) xx[0] = 1; } for (auto& v : q.y) if (t.chance(1, 3)) v = -v; bool orth = t.coin(); if (orth) for (size_t i = 0; i < q.p; ++i) for (size_t m = 0; m < q.n; ++m) if (m % q.p != i) q.x[i][m] = 0; else if (q.x[i][m] == 0) q.x[i][m] = 1; shown(t, q); vec1d y = vp::mk<double>(q.y), e = vp::mk<double>(q.e); auto x = cols(q); V<LD> b(q.p, 0), a(q.p, 0); LD scale = 0; for (size_t i = 0; i < q.p; ++i) for (size_t m = 0; m < q.n; ++m) { b[i] += LD(q.x[i][m])*q.y[m]/(LD(q.e[m])*q.e[m]); a[i] += LD(q.x[i][m])*q.x[i][m]/(LD(q.e[m])*q.e[m]); scale += std::fabs(LD(q.x[i][m])*q.y[m]/(LD(q.e[m])*q.e[m])); } for (auto v : b) if (std::fabs(v) < 1e-9L*scale) throw vp::Discard();
    auto chi2 = [&](const V<LD>& p) { LD r = 0; for (size_t m = 0; m < q.n; ++m) { LD d = q.y[m]; for (size_t i = 0; i < q.p; ++i) d -= p[i]*q.x[i][m]; r += d*d/(LD(q.e[m])*q.e[m]); } return r; };
    for (int k = 0; k < 2; ++k) { auto f = k ? linfit_nn_pack(y, e, packed(q)) : q.p == 1 ? linfit_nn(y, e, x[0]) : q.p == 2 ? linfit_nn(y, e, x[0], x[1]) : linfit_nn(y, e, x[0], x[1], x[2]); CHECK(f.params.size() == q.p); V<LD> p(f.params.data.begin(), f.params.data.end()), p0; for (auto v : p) CHECK(v >= 0 && std::isfinite(double(v)), "parameter ", double(v), " of a non negative fit"); LD c = chi2(p); CHECK(std::fabs(f.chi2 - c) <= 1e-9L*(1 + c), "chi2 ", f.chi2, " expected ", double(c)); for (size_t i = 0; i < q.p; ++i) p0.push_back(b[i] > 0 ? 1 : 0); CHECK(c <= chi2(p0)*(1 + 1e-9L) + 1e-9L, "chi2 ", double(c), " larger than ", double(chi2(p0)), " at the initial position"); if (orth || q.p == 1) { CHECK(f.success, "non negative fit failed"); for (size_t i = 0; i < q.p; ++i) { LD w = b[i] > 0 ? b[i]/a[i] : 0; CHECK(std::fabs(p[i] - w) <= 1e-9L*(1 + w), "parameter ", i, " is ", double(p[i]), " expected ", double(w)); } } }
    vec1d bad(q.n + 1); CHECK(errors([&] { linfit_nn(y, e, bad); }) && errors([&] { linfit_nn(bad, e, x[0]); }) && errors([&] { linfit_nn_pack(bad, e, packed(q)); }), "incompatible dimensions accepted"); if (q.p > 1) t.nontrivial();
}
