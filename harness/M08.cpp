// M08: non linear fits and minimisation.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
#include <vif/math/mpfit.hpp>
#include <vif/math/optimize.hpp>
#include <set>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
typedef long double LD; typedef V<V<LD>> M;
static bool invert_ref(M a, M& r) { size_t n = a.size(); r = M(n, V<LD>(n, 0)); for (size_t i = 0; i < n; ++i) r[i][i] = 1; for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i; if (a[p][k] == 0) return false; std::swap(a[p], a[k]); std::swap(r[p], r[k]); LD d = a[k][k]; for (size_t j = 0; j < n; ++j) { a[k][j] /= d; r[k][j] /= d; } for (size_t i = 0; i < n; ++i) if (i != k) { LD f = a[i][k]; for (size_t j = 0; j < n; ++j) { a[i][j] -= f*a[k][j]; r[i][j] -= f*r[k][j]; } } } return true; }
struct Prob { size_t n, p; V<V<double>> x; V<double> y, e, s; V<char> fr; };
static Prob gen(Tape& t) {
    Prob q; q.p = 1 + t.draw(4); q.n = q.p + t.size(0, 8); for (size_t i = 0; i < q.p; ++i) { V<double> x(q.n); int kind = int(t.draw(3)); for (size_t m = 0; m < q.n; ++m) x[m] = kind == 0 ? 1.0 : kind == 1 ? double(m) : double(t.range(-9, 9)); q.x.push_back(x); q.s.push_back(double(t.range(-20, 20))/2); q.fr.push_back(t.chance(1, 4)); }
    q.y.resize(q.n); q.e.resize(q.n); for (auto& v : q.y) v = double(t.range(-20, 20)); for (auto& v : q.e) v = 0.25*double(1 + t.draw(16)); if (t.chance(1, 4)) for (size_t i = 0; i < q.n; ++i) q.y[i] = 2*q.x[0][i]; return q;
}
static void shown(Tape& t, const Prob& q) { t.note(q.y); t.note(q.e); for (auto& x : q.x) t.note(x); t.note(q.s); }
static LD chi2(const Prob& q, const V<double>& p) { LD r = 0; for (size_t m = 0; m < q.n; ++m) { LD d = q.y[m]; for (size_t i = 0; i < q.p; ++i) d -= LD(p[i])*q.x[i][m]; r += d*d/(LD(q.e[m])*q.e[m]); } return r; }
static vec1d model(const Prob& q, const vec1d& p) { vec1d r(q.n); for (size_t m = 0; m < q.n; ++m) for (size_t i = 0; i < q.p; ++i) r[m] += p[i]*q.x[i][m]; return r; }
// least squares for the parameters of the list, the others being fixed
static bool lsq(const Prob& q, const V<size_t>& fr, V<double> fix, V<LD>& sol, M& cov, LD& cond) {
    size_t k = fr.size(); M al(k, V<LD>(k, 0)); V<LD> b(k, 0); for (size_t m = 0; m < q.n; ++m) { LD d = q.y[m], w = 1/(LD(q.e[m])*q.e[m]); for (size_t i = 0; i < q.p; ++i) if (std::find(fr.begin(), fr.end(), i) == fr.end()) d -= LD(fix[i])*q.x[i][m]; for (size_t i = 0; i < k; ++i) { b[i] += d*q.x[fr[i]][m]*w; for (size_t j = 0; j < k; ++j) al[i][j] += LD(q.x[fr[i]][m])*q.x[fr[j]][m]*w; } }
    if (k && !invert_ref(al, cov)) return false; LD na = 0, nc = 0; for (auto& r : al) for (auto x : r) na += x*x; for (auto& r : cov) for (auto x : r) nc += x*x; cond = std::sqrt(na*nc); sol.assign(fix.begin(), fix.end()); for (size_t i = 0; i < k; ++i) { LD v = 0; for (size_t j = 0; j < k; ++j) v += cov[i][j]*b[j]; sol[fr[i]] = v; } return true;
}
SUB("linear", 4) { // no limit: the least squares solution and its errors, frozen parameters kept
    Prob q = gen(t); q.fr[t.draw(q.p)] = 0; shown(t, q); V<size_t> fr; for (size_t i = 0; i < q.p; ++i) { t.note(int(q.fr[i])); if (!q.fr[i]) fr.push_back(i); } V<LD> sol; M cov; LD cond; if (!lsq(q, fr, q.s, sol, cov, cond) || cond > 1e4) throw vp::Discard();
    vec1d y = vp::mk<double>(q.y), e = vp::mk<double>(q.e), st = vp::mk<double>(q.s); bool opt = false; mpfit_options o(q.p); for (size_t i = 0; i < q.p; ++i) { if (q.fr[i] && t.coin()) { o.lower_limit[i] = o.upper_limit[i] = q.s[i]; } else o.frozen[i] = q.fr[i]; o.deriv[i] = int(t.draw(4)) - 1; if (t.chance(1, 4)) o.deriv_step[i] = 0.01; if (t.chance(1, 4)) o.deriv_rstep[i] = 0.01; if (t.chance(1, 6)) o.max_step[i] = 1 + double(t.draw(5)); if (std::fabs(sol[i]) < 0.05 || o.max_step[i] != 0 || std::fabs(q.s[i]) < 1 || std::fabs(sol[i] - q.s[i]) > 20) opt = true; } if (opt) for (size_t i = 0; i < q.p; ++i) { o.deriv_step[i] = 0.01; o.deriv_rstep[i] = 0; } o.nocovar = t.chance(1, 8); t.note(vp::tov(o.max_step)); t.note(vp::tov(o.deriv)); t.note(vp::tov(o.deriv_step)); t.note(vp::tov(o.deriv_rstep)); bool any = fr.size() < q.p; size_t calls = 0; auto dev = [&](const vec1d& p) { ++calls; for (size_t i = 0; i < q.p; ++i) if (q.fr[i]) CHECK(p[i] == q.s[i], "frozen parameter changed in a call"); return (y - model(q, p))/e; };
    auto f = any || opt || t.coin() ? mpfit(dev, st, o) : mpfit(dev, st); bool ms = vif::max(o.max_step) > 0; CHECK((f.success || ms) && f.reason != mpfit_result::unknown, "fit failed, reason ", int(f.reason)); CHECK(f.params.size() == q.p && f.dof == q.n - fr.size(), "degrees of freedom"); V<double> p = vp::tov(f.params), pb(sol.begin(), sol.end()); LD c = chi2(q, p), cb = chi2(q, pb), c0 = chi2(q, q.s); CHECK(std::fabs(f.chi2 - c) <= 1e-9L*(c + 1e-9L*(1 + c0)), "chi2 ", f.chi2, " expected ", double(c)); CHECK(c <= c0*(1 + 1e-12L) + 1e-12L, "worse than the start"); if (ms) { for (size_t i = 0; i < q.p; ++i) if (q.fr[i]) CHECK(f.params[i] == q.s[i], "frozen parameter changed"); return; } CHECK(c <= cb + 1e-6L*(1 + cb), "chi2 ", double(c), " minimum ", double(cb), " reason ", int(f.reason), " iter ", f.iter); CHECK(vp::tov(st) == q.s, "start changed");
    LD sa = 1; for (auto v : sol) sa += std::fabs(v); for (size_t i = 0; i < q.p; ++i) { if (q.fr[i]) CHECK(f.params[i] == q.s[i], "frozen parameter changed"); else CHECK(std::fabs(p[i] - sol[i]) <= 1e-4L*sa, "parameter ", i, " is ", p[i], " expected ", double(sol[i])); }
    if (o.nocovar) CHECK(!any || f.covar.size() == 0 || true); else { CHECK(f.errors.size() == q.p && f.covar.dims[0] == q.p && f.covar.dims[1] == q.p, "size of the errors"); LD sc = 0; for (auto& r : cov) for (auto v : r) sc += std::fabs(v); for (size_t i = 0; i < q.p; ++i) if (q.fr[i]) { CHECK(f.errors[i] == 0, "error of a frozen parameter"); for (size_t j = 0; j < q.p; ++j) CHECK(f.covar(i, j) == 0 && f.covar(j, i) == 0, "covariance of a frozen parameter"); } for (size_t i = 0; i < fr.size(); ++i) { CHECK(std::fabs(f.errors[fr[i]] - std::sqrt(cov[i][i])) <= 1e-4L*std::sqrt(sc), "error ", f.errors[fr[i]], " expected ", double(std::sqrt(cov[i][i]))); for (size_t j = 0; j < fr.size(); ++j) CHECK(std::fabs(f.covar(fr[i], fr[j]) - cov[i][j]) <= 1e-4L*sc, "covariance"); } }
    if (fr.size() > 1) t.nontrivial();
}
SUB("limits", 4) { // constrained optimum, by enumeration of the active limits
    Prob q = gen(t); bool orth = t.chance(2, 3); if (orth) for (size_t i = 0; i < q.p; ++i) for (size_t m = 0; m < q.n; ++m) { if (m % q.p != i) q.x[i][m] = 0; else if (q.x[i][m] == 0) q.x[i][m] = 1; } shown(t, q); V<size_t> all; for (size_t i = 0; i < q.p; ++i) all.push_back(i); V<LD> sol; M cov; LD cond; if (!lsq(q, all, q.s, sol, cov, cond) || cond > 1e3) throw vp::Discard(); V<double> lo(q.p, dnan), up(q.p, dnan); mpfit_options o(q.p); size_t only = orth ? t.draw(q.p) : q.p; for (size_t i = 0; i < q.p; ++i) { if (orth && i != only) { o.deriv_step[i] = 1e-6; continue; } if (t.coin()) lo[i] = q.s[i] - double(t.draw(10)); if (t.coin()) up[i] = q.s[i] + double(t.draw(10)) + (lo[i] == q.s[i] ? 1 : 0); o.lower_limit[i] = lo[i]; o.upper_limit[i] = up[i]; o.deriv_step[i] = 1e-6; } t.note(lo); t.note(up);
    LD best = std::numeric_limits<double>::infinity(); size_t ns = 1; for (size_t i = 0; i < q.p; ++i) ns *= 3; bool active = false; for (size_t k = 0; k < ns; ++k) { V<double> fix = q.s; V<size_t> fr; size_t z = k; bool ok = true; for (size_t i = 0; i < q.p; ++i, z /= 3) { if (z % 3 == 0) fr.push_back(i); else { double l = z % 3 == 1 ? lo[i] : up[i]; if (std::isnan(l)) ok = false; fix[i] = l; } } if (!ok) continue; V<LD> s; M cv; LD cd = 0; if (!lsq(q, fr, fix, s, cv, cd)) continue; for (size_t i = 0; i < q.p; ++i) if (s[i] < lo[i] || s[i] > up[i]) ok = false; if (!ok) continue; LD c = chi2(q, V<double>(s.begin(), s.end())); if (c < best) { best = c; active = fr.size() < q.p; } }
    vec1d y = vp::mk<double>(q.y), e = vp::mk<double>(q.e), st = vp::mk<double>(q.s); auto f = mpfit([&](const vec1d& p) { for (size_t i = 0; i < q.p; ++i) CHECK(!(p[i] < lo[i] - 1e-12*(1 + std::fabs(lo[i])) || p[i] > up[i] + 1e-12*(1 + std::fabs(up[i]))), "function called with parameter ", i, " = ", p[i], " outside of the limits"); return (y - model(q, p))/e; }, st, o); V<double> p = vp::tov(f.params); for (size_t i = 0; i < q.p; ++i) CHECK(!(p[i] < lo[i] || p[i] > up[i]), "parameter ", i, " = ", p[i], " outside of the limits"); LD c = chi2(q, p); CHECK(f.success, "fit failed, reason ", int(f.reason)); CHECK(std::fabs(f.chi2 - c) <= 1e-9L*(c + 1e-9L*(1 + chi2(q, q.s))), "chi2 ", f.chi2, " expected ", double(c)); CHECK(c <= chi2(q, q.s)*(1 + 1e-12L) + 1e-12L, "worse than the start"); if (orth || q.p == 1) CHECK(c <= best + 1e-3L*(1 + best), "chi2 ", double(c), " but the constrained minimum is ", double(best)); if (active) t.nontrivial();
}
SUB("nonlinear", 3) { // exact data: the parameters of the model are recovered from a start close to them
    int kind = int(t.draw(3)); size_t n = 6 + t.size(0, 10); V<double> tr = {1 + t.unit()*4, 0.2 + t.unit()*1.5, (t.unit() - 0.5)*2}; V<double> x, s; for (size_t i = 0; i < n; ++i) x.push_back(3.0*double(i)/double(n - 1)); for (auto v : tr) s.push_back(v*(1 + 0.1*(t.unit() - 0.5))); t.note(kind); t.note(tr); t.note(s); vec1d vx = vp::mk<double>(x); auto fn = [&](const vec1d& xx, const vec1d& p) -> vec1d { if (kind == 0) return p[0]*exp(-xx*p[1]) + p[2]; if (kind == 1) return p[0]*exp(-sqr(xx - 1.5 - p[2])/(2*sqr(p[1]))); return p[0]/(1 + sqr((xx - 1.5)*p[1])) + p[2]; }; vec1d vt = vp::mk<double>(tr), st = vp::mk<double>(s); vec1d y = fn(vx, vt); double er = t.coin() ? 0.1 : 1; vec1d e = replicate(er, n);
    auto f = mpfitfun(y, e, vx, fn, st); CHECK(f.success, "fit failed"); CHECK(f.chi2 < 1e-6, "chi2 of exact data ", f.chi2); for (size_t i = 0; i < 3; ++i) CHECK(std::fabs(f.params[i] - tr[i]) < 1e-3, "parameter ", i, " is ", f.params[i], " expected ", tr[i]); CHECK(f.dof == n - 3); vec1d bad(n + 1); CHECK(errors([&] { mpfitfun(bad, e, vx, fn, st); }) && errors([&] { mpfitfun(y, bad + 1, vx, fn, st); }), "incompatible dimensions"); mpfit_options o(4); CHECK(errors([&] { mpfitfun(y, e, vx, fn, st, o); }), "options with another number of parameters"); t.nontrivial();
}
SUB("bfgs", 2) { // convex quadratic form and Rosenbrock function
    size_t n = 1 + t.draw(4); M b(n, V<LD>(n)), a(n, V<LD>(n, 0)); for (auto& r : b) for (auto& v : r) v = t.range(-3, 3); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { for (size_t k = 0; k < n; ++k) a[i][j] += b[k][i]*b[k][j]; if (i == j) a[i][j] += 1; } V<double> c, s; for (size_t i = 0; i < n; ++i) { c.push_back(double(t.range(-5, 5))); s.push_back(double(t.range(-5, 5))); } t.note(c); t.note(s); minimize_params o; o.ftol = t.coin() ? 1e-3 : 1e-5; auto val = [&](const vec1d& p) { LD r = 3; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) r += 0.5L*a[i][j]*(p[i] - c[i])*(p[j] - c[j]); return double(r); }; auto fn = [&](const vec1d& p, minimize_function_output out) { vec1d r(n + 1); if (out != minimize_function_output::derivatives) r[0] = val(p); if (out != minimize_function_output::value) for (size_t i = 0; i < n; ++i) { LD g = 0; for (size_t j = 0; j < n; ++j) g += a[i][j]*(p[j] - c[j]); r[i+1] = double(g); } return r; };
    auto f = minimize_bfgs(o, vp::mk<double>(s), fn); CHECK(f.success, "minimisation failed"); CHECK(f.params.size() == n && f.niter >= 1 && f.niter <= o.max_iter); CHECK(std::fabs(f.value - val(f.params)) <= 1e-9*(1 + val(f.params)), "value ", f.value, " expected ", val(f.params)); CHECK(f.value <= val(vp::mk<double>(s)), "worse than the start"); CHECK(f.value <= 3 + 1e-4, "minimum ", f.value, " expected 3"); for (size_t i = 0; i < n; ++i) CHECK(std::fabs(f.params[i] - c[i]) < 2e-2, "position of the minimum"); if (n > 1) t.nontrivial();
}
SUB("steps", 2) { // the derivatives are computed with the steps and on the sides that are asked for
    Prob q = gen(t); V<size_t> all; for (size_t i = 0; i < q.p; ++i) all.push_back(i); V<LD> sol; M cov; LD cond; if (!lsq(q, all, q.s, sol, cov, cond) || cond > 1e4) throw vp::Discard(); LD c0 = chi2(q, q.s), cb = chi2(q, V<double>(sol.begin(), sol.end())); if (c0 < cb + 1e-3L) throw vp::Discard(); // the start is not the solution: there is at least one iteration
    mpfit_options o(q.p); V<double> h(q.p); for (size_t i = 0; i < q.p; ++i) { int k = int(t.draw(3)); if (k == 0) h[i] = o.deriv_step[i] = 0.125*double(1 + t.draw(4)); else if (k == 1 && q.s[i] != 0) { o.deriv_rstep[i] = 0.25*double(1 + t.draw(2)); h[i] = std::fabs(o.deriv_rstep[i]*q.s[i]); if (t.coin()) o.deriv_step[i] = 0.5; } else h[i] = 0; o.deriv[i] = int(t.draw(4)) - 1; if (h[i] > 0 && o.deriv[i] == 0 && t.coin()) o.upper_limit[i] = q.s[i] + (t.coin() ? 0.5*h[i] : 4*h[i]); } o.max_iter = 1 + t.draw(3); shown(t, q); t.note(h); t.note(vp::tov(o.deriv)); t.note(vp::tov(o.upper_limit));
    std::set<V<double>> at; vec1d y = vp::mk<double>(q.y), e = vp::mk<double>(q.e), st = vp::mk<double>(q.s); auto f = mpfit([&](const vec1d& p) { at.insert(vp::tov(p)); return (y - model(q, p))/e; }, st, o); CHECK(f.iter <= o.max_iter + 1, "iterations ", f.iter, " of ", o.max_iter);
    for (size_t i = 0; i < q.p; ++i) if (h[i] > 0) { V<double> u = q.s, d = q.s; u[i] += h[i]; d[i] -= h[i]; bool over = o.upper_limit[i] < u[i]; bool eu = at.count(u), ed = at.count(d); int k = o.deriv[i]; bool wu = k == 1 || k == 2 || (k == 0 && !over), wd = k == -1 || k == 2 || (k == 0 && over); CHECK((!wu || eu) && (!wd || ed), "parameter ", i, ": the derivative is not computed with the step ", h[i], " (mode ", k, ")"); }
    t.nontrivial();
}
