// X14: template fits
#include "astro_h.hpp"
#include <vif/math/linfit.hpp>
#include <set>
#include <vif/astro/astro.hpp>
#include <vif/astro/template_fit.hpp>
using namespace vif; using namespace vif::astro; using vp::Tape; using L = long double; template<class T> using V = std::vector<T>;
struct Lib { vec2d lam, sed; };
static double finite(Tape& t) { return 0.1 + t.unit()*double(t.range(1, 20)); }
static Lib lib(Tape& t, size_t nsed, double lo, double hi) { size_t n = 3 + t.draw(5); Lib l; l.lam.resize(nsed, n); l.sed.resize(nsed, n); bool common = t.coin(); for (size_t s = 0; s < nsed; ++s) { double a = lo*(0.5 + 0.4*t.unit()), b = hi*(1.1 + 0.5*t.unit()); if (common) { a = lo*0.7; b = hi*1.3; } for (size_t i = 0; i < n; ++i) { l.lam(s,i) = a + (b - a)*double(i)/double(n - 1); l.sed(s,i) = finite(t); } } return l; }
static vec<1,filter_t> filters(Tape& t, size_t n, double& lo, double& hi) { vec<1,filter_t> f; lo = 1e9; hi = 0; double a = 1; for (size_t i = 0; i < n; ++i) { filter_t x; a += 0.1 + t.unit(); double w = 0.2 + t.unit(); x.lam = {a, a + 0.3*w, a + 0.7*w, a + w}; x.res = {0.0, 0.5 + t.unit(), 0.5 + t.unit(), 0.1}; x.rlam = a + 0.5*w; x.res /= integrate(x.lam, x.res); lo = std::min(lo, a); hi = std::max(hi, a + w); f.push_back(x); } return f; }
static V<V<double>> observed(const Lib& l, const vec<1,filter_t>& f, double z, double d) { V<V<double>> r(l.sed.dims[0]); for (size_t s = 0; s < r.size(); ++s) { vec1d la = l.lam(s,_), se = l.sed(s,_); if (z >= 0) for (size_t i = 0; i < la.size(); ++i) { se[i] = lsun2uJy(z, d, la[i], se[i]); la[i] *= 1 + z; } for (size_t k = 0; k < f.size(); ++k) r[s].push_back(sed2flux(f[k].lam, f[k].res, la, se)); } return r; }
static L lim(L d) { return -2*std::log(0.5L*std::erfc(-d/std::sqrt(2.0L))); }
SUB("limweight", 2) { double d = t.coin() ? double(t.range(-40, 20)) : -12 + 20*t.unit(); t.note(d); double r = limweight(d); L w = lim(d); CHECK(vp::near(r, double(w), d < -3 ? 0.015 : 1e-9, 1e-12), "weight of a limit at ", d, ": ", r, " expected ", double(w)); vec1d v = {d, 0.0, -1.0}; vec1d q = limweight(v); CHECK(q.size() == 3 && vp::same(q[0], r) && vp::near(q[1], double(lim(0)), 1e-9) && vp::near(q[2], double(lim(-1)), 1e-9), "vector"); if (d < -3) t.nontrivial(); }
SUB("observed", 3) {
    double lo, hi; size_t nf = 1 + t.draw(4), ns = 1 + t.draw(4); auto f = filters(t, nf, lo, hi); Lib l = lib(t, ns, lo, hi); auto w = observed(l, f, -1, 1); vec2d r = template_observed(l, f); CHECK(r.dims[0] == ns && r.dims[1] == nf, "dimensions"); for (size_t s = 0; s < ns; ++s) for (size_t k = 0; k < nf; ++k) CHECK(vp::near(r(s,k), w[s][k], 1e-12), "flux of template ", s, " in filter ", k);
    double z = 3*t.unit(), d = 1 + 1000*t.unit(); Lib m = lib(t, ns, lo/(1 + z), hi/(1 + z)); t.note(l.sed, m.sed, z, d); auto q = observed(m, f, z, d); r = template_observed(m, z, d, f); for (size_t s = 0; s < ns; ++s) for (size_t k = 0; k < nf; ++k) CHECK(vp::near(r(s,k), q[s][k], 1e-11), "redshifted flux of template ", s, " in filter ", k, ": ", r(s,k), " expected ", q[s][k]);
    // several sources
    size_t n = 1 + t.draw(3); vec1d vz(n), vd(n); for (size_t i = 0; i < n; ++i) { vz[i] = t.chance(1, 3) ? z : z*(0.95 + 0.1*t.unit()); vd[i] = d*(0.5 + t.unit()); } L mz = 0; for (double x : vz) mz += L(x)/n; Lib e; e.lam = m.lam; e.sed = m.sed; for (size_t s = 0; s < ns; ++s) for (size_t i = 0; i < m.lam.dims[1]; ++i) { e.lam(s,i) = double(m.lam(s,i)*(1 + mz)); L a = 0; for (size_t j = 0; j < n; ++j) { vec1d x = m.lam(s,_), y = m.sed(s,_); for (size_t k = 0; k < x.size(); ++k) { y[k] = lsun2uJy(vz[j], vd[j], x[k], y[k]); x[k] *= 1 + vz[j]; } size_t b = 0; while (b + 2 < x.size() && x[b + 1] <= e.lam(s,i)) ++b; a += y[b] + (L(y[b + 1]) - y[b])*(L(e.lam(s,i)) - x[b])/(L(x[b + 1]) - x[b]); } e.sed(s,i) = double(a/n); }
    auto g = observed(e, f, -1, 1); r = template_observed(m, vz, vd, f); for (size_t s = 0; s < ns; ++s) for (size_t k = 0; k < nf; ++k) CHECK(vp::near(r(s,k), g[s][k], 1e-8), "mean flux of template ", s, " in filter ", k, ": ", r(s,k), " expected ", g[s][k]); CHECK(vp::errors([&] { vec1d bad(n + 1); template_observed(m, vz, bad, f); }), "as many redshifts as distances");
    if (ns > 1 && nf > 1) t.nontrivial();
}
static L objective(const V<double>& fl, const V<double>& er, const V<double>& mo, double a) { L c = 0; for (size_t k = 0; k < fl.size(); ++k) { L d = (L(fl[k]) - L(a)*mo[k])/std::abs(L(er[k])); c += er[k] < 0 ? L(limweight(double(d))) : d*d; } return c; }
// the weight of a limit has a step where its asymptotic form takes over (d = -3): no minimum is claimed there
static bool smooth(const V<double>& fl, const V<double>& er, const V<double>& mo, double a) { for (size_t k = 0; k < fl.size(); ++k) if (er[k] < 0 && (fl[k] - a*mo[k])/-er[k] < -2.9) return false; return true; }
static void fit(Tape& t, bool ulim) {
    double lo, hi; size_t nf = 2 + t.draw(5), ns = 1 + t.draw(5); auto f = filters(t, nf, lo, hi); bool obs = t.coin(); double z = obs ? 0.0 : 3*t.unit(), d = 1 + 100*t.unit(); Lib l = lib(t, ns, lo/(1 + z), hi/(1 + z)); auto m = observed(l, f, obs ? -1 : z, d); size_t truth = t.draw(ns); double a = t.coin() ? 1.0 : 0.2 + 3*t.unit(), sn = t.pick({1.0, 10.0, 300.0}); V<double> fl(nf), er(nf);
    // limits the model does not reach keep the minimum convex and the asymptotic branch away
    for (size_t k = 0; k < nf; ++k) { er[k] = m[truth][k]*(0.5 + t.unit())/sn*a; fl[k] = a*m[truth][k] + er[k]*double(t.range(-2, 2)); if (ulim && k && t.chance(1, 3)) { er[k] = -std::max(er[k], 0.3*a*m[truth][k]); fl[k] = a*m[truth][k]*(0.8 + t.unit()); } }
    size_t nm = 0; for (double e : er) nm += e > 0; template_fit_params p; p.renorm = t.coin(); p.ulim = ulim; p.lib_obs = obs; p.nsim = ulim ? t.pick({size_t(0), size_t(3)}) : t.pick({size_t(0), size_t(3), size_t(200)}); t.note(fl, er, int(p.renorm), int(p.ulim), p.nsim); auto seed = make_seed(unsigned(t.draw(1000))), seed2 = seed; auto r = template_fit(l, seed, z, d, vp::mk<double>(fl), vp::mk<double>(er), f, p);
    CHECK(r.chi2.size() == ns && r.amp.size() == ns && r.flux.dims[0] == ns && r.flux.dims[1] == nf && r.sed_sim.size() == p.nsim && r.amp_sim.size() == p.nsim && r.amp_bfit_sim.size() == p.nsim && r.bfit < ns, "sizes");
    double best = vif::dinf, second = vif::dinf; for (size_t s = 0; s < ns; ++s) {
        L x = 0, y = 0, w = 0; for (size_t k = 0; k < nf; ++k) { L e = L(er[k])*er[k]; x += fl[k]*L(m[s][k])/e; y += L(m[s][k])*m[s][k]/e; w += L(fl[k])*fl[k]/e; }
        if (!ulim) CHECK(vp::near(r.amp[s], double(x/y), 1e-9), "amplitude of template ", s, ": ", r.amp[s], " expected ", double(x/y)); else { L o = objective(fl, er, m[s], r.amp[s]); for (double q : {0.97, 0.999, 1.001, 1.03}) if (smooth(fl, er, m[s], r.amp[s]) && smooth(fl, er, m[s], r.amp[s]*q)) CHECK(objective(fl, er, m[s], r.amp[s]*q) > o - 1e-4*(1 + o), "amplitude ", r.amp[s], " of template ", s, " is not the best: ", q); }
        L c = objective(fl, er, m[s], p.renorm ? r.amp[s] : 1.0); bool step = false; for (size_t k = 0; k < nf; ++k) if (er[k] < 0) step = step || std::abs((fl[k] - (p.renorm ? r.amp[s] : 1.0)*m[s][k])/-er[k] + 3) < 1e-6; if (!step) CHECK(vp::near(r.chi2[s], double(c), 1e-8, double(1e-11*w)), "chi2 of template ", s, ": ", r.chi2[s], " expected ", double(c)); for (size_t k = 0; k < nf; ++k) CHECK(vp::near(r.flux(s,k), r.amp[s]*m[s][k], 1e-9), "best fit flux of template ", s, " in filter ", k);
        if (r.chi2[s] < best) { second = best; best = r.chi2[s]; } else second = std::min(second, r.chi2[s]);
    }
    CHECK(r.chi2[r.bfit] == best, "best template ", r.bfit); for (size_t i = 0; i < p.nsim; ++i) { CHECK(r.sed_sim[i] < ns, "simulated template"); if (r.sed_sim[i] == r.bfit) CHECK(vp::near(r.amp_sim[i], r.amp_bfit_sim[i], 1e-9), "amplitude of simulation ", i); if (!ulim && second - best > 400 && (best < 30*double(nf))) { double n = std::sqrt(second) - std::sqrt(best); if (n > 2*(std::sqrt(double(nf)) + 8)) CHECK(r.sed_sim[i] == r.bfit, "simulation ", i, " picked ", r.sed_sim[i]); } }
    if (p.nsim == 200) { L y = 0, me = 0, v = 0; for (size_t k = 0; k < nf; ++k) y += L(m[r.bfit][k])*m[r.bfit][k]/(L(er[k])*er[k]); L s = 1/std::sqrt(y); for (double x : r.amp_bfit_sim) me += L(x)/200; for (double x : r.amp_bfit_sim) v += (x - me)*(x - me)/199; CHECK(std::abs(double((me - r.amp[r.bfit])/s)) < 8/std::sqrt(200.0) && std::abs(double(std::sqrt(v)/s - 1)) < 8/20.0, "simulated amplitudes ", double(me), "+/-", double(std::sqrt(v)), " expected ", r.amp[r.bfit], "+/-", double(s)); bool diff = false; for (double x : r.amp_bfit_sim) diff = diff || x != r.amp_bfit_sim[0]; CHECK(diff, "simulations differ"); }
    auto r2 = template_fit(l, seed2, z, d, vp::mk<double>(fl), vp::mk<double>(er), f, p); CHECK(r2.bfit == r.bfit && r2.amp_sim.data == r.amp_sim.data && r2.sed_sim.data == r.sed_sim.data, "same seed, same result"); if (ns > 1) t.nontrivial();
}
SUB("fit", 5) { fit(t, false); }
SUB("limits", 2) { fit(t, true); }
static bool solve(V<V<L>> a, V<L> b, V<L>& x, L& cond) { size_t n = b.size(); L mn = 1e300L, mx = 0; for (size_t i = 0; i < n; ++i) { size_t p = i; for (size_t j = i + 1; j < n; ++j) if (std::abs(a[j][i]) > std::abs(a[p][i])) p = j; std::swap(a[i], a[p]); std::swap(b[i], b[p]); if (a[i][i] == 0) return false; mn = std::min(mn, std::abs(a[i][i])); mx = std::max(mx, std::abs(a[i][i])); for (size_t j = i + 1; j < n; ++j) { L q = a[j][i]/a[i][i]; for (size_t k = i; k < n; ++k) a[j][k] -= q*a[i][k]; b[j] -= q*b[i]; } } x.assign(n, 0); for (size_t i = n; i-- > 0;) { L s = b[i]; for (size_t k = i + 1; k < n; ++k) s -= a[i][k]*x[k]; x[i] = s/a[i][i]; } cond = mx/mn; return true; }
static void multi(Tape& t, bool ulim) {
    double lo, hi; size_t nl = 1 + t.draw(3), nf = nl + 1 + t.draw(4); auto f = filters(t, nf, lo, hi); bool obs = t.coin(); double z = obs ? 0.0 : 2*t.unit(), d = 1 + 100*t.unit(); V<Lib> ls; V<V<V<double>>> m; V<size_t> n; for (size_t i = 0; i < nl; ++i) { n.push_back(1 + t.draw(3)); ls.push_back(lib(t, n[i], lo/(1 + z), hi/(1 + z))); if (!ulim && t.chance(1, 4)) { size_t s = t.draw(n[i]); for (size_t k = 0; k < ls[i].sed.dims[1]; ++k) ls[i].sed(s,k) = 0; } m.push_back(observed(ls[i], f, obs ? -1 : z, d)); }
    double sc = 0; for (auto& a : m) for (auto& b : a) for (double x : b) sc = std::max(sc, x); if (sc == 0) throw vp::Discard(); V<double> fl(nf), er(nf); for (size_t k = 0; k < nf; ++k) { fl[k] = sc*(0.2 + 2*t.unit()); er[k] = sc*(0.02 + 0.2*t.unit()); if (ulim && k >= nl && t.chance(1, 2)) { er[k] = -er[k]; } } int rule = int(t.draw(4)); size_t need = t.draw(3); auto ok = [&](const V<size_t>& c) { size_t s = 0; for (size_t x : c) s += x; return rule == 0 ? true : rule == 1 ? s % 2 == need % 2 : rule == 2 ? c[0] == need : s > need; };
    t.note(n, fl, er, rule, need); multi_template_fit_params p; p.nsim = ulim ? t.pick({size_t(0), size_t(2)}) : t.pick({size_t(0), size_t(3), size_t(200)}); p.ulim = ulim; p.lib_obs = obs; auto seed = make_seed(unsigned(t.draw(1000))); std::set<V<size_t>> asked; auto con = [&](const vec1u& c) { V<size_t> q(c.begin(), c.end()); asked.insert(q); return ok(q); };
    // every combination, by normal equations
    auto chi = [&](const V<size_t>& c, const V<L>& a) { L s = 0; for (size_t k = 0; k < nf; ++k) { L e = fl[k]; for (size_t i = 0; i < nl; ++i) e -= a[i]*m[i][c[i]][k]; e /= std::abs(L(er[k])); s += er[k] < 0 ? L(limweight(double(e))) : e*e; } return s; };
    L best = 1e300L; V<V<L>> inv; V<size_t> c(nl, 0); bool any = false; size_t combos = 1; for (size_t x : n) combos *= x; for (size_t q = 0; q < combos; ++q) { size_t u = q; for (size_t i = nl; i-- > 0;) { c[i] = u % n[i]; u /= n[i]; } if (!ok(c)) continue; V<V<L>> a(nl, V<L>(nl)); V<L> b(nl), x; for (size_t i = 0; i < nl; ++i) { for (size_t j = 0; j < nl; ++j) for (size_t k = 0; k < nf; ++k) if (er[k] > 0) a[i][j] += L(m[i][c[i]][k])*m[j][c[j]][k]/(L(er[k])*er[k]); for (size_t k = 0; k < nf; ++k) if (er[k] > 0) b[i] += L(fl[k])*m[i][c[i]][k]/(L(er[k])*er[k]); } L cond; bool zero = false; for (size_t i = 0; i < nl; ++i) zero = zero || a[i][i] == 0; if (zero) continue; if (!solve(a, b, x, cond) || cond > 1e3L) throw vp::Discard(); any = true; if (!ulim) best = std::min(best, chi(c, x)); }
    auto r = multi_template_fit(ls, seed, z, d, vp::mk<double>(fl), vp::mk<double>(er), f, p, con); CHECK(r.bfit.size() == nl && r.amp.size() == nl && r.flux.dims[0] == nl && r.flux.dims[1] == nf && r.sed_sim.dims[0] == p.nsim && r.sed_sim.dims[1] == nl && r.amp_sim.dims[0] == p.nsim && r.amp_sim.dims[1] == nl, "sizes");
    CHECK(asked.size() == combos, "only ", asked.size(), " combinations of ", combos, " are considered");
    if (!any) { CHECK(r.chi2 == vif::dinf, "chi2 without a combination ", r.chi2); for (size_t i = 0; i < nl; ++i) { CHECK(r.bfit[i] == npos && std::isnan(r.amp[i])); for (size_t k = 0; k < nf; ++k) CHECK(std::isnan(r.flux(i,k))); } t.nontrivial(); return; }
    V<size_t> bf(r.bfit.begin(), r.bfit.end()); for (size_t i = 0; i < nl; ++i) CHECK(bf[i] < n[i], "index ", bf[i], " in library ", i); CHECK(ok(bf), "the best combination does not satisfy the constraint"); V<L> am(r.amp.begin(), r.amp.end()); L cc = chi(bf, am), w = 0; for (size_t k = 0; k < nf; ++k) w += L(fl[k])*fl[k]/(L(er[k])*er[k]); double tol = double(2e-3L*(1 + std::sqrt(w)) + 2e-3L*cc);
    bool step = false; for (size_t k = 0; k < nf; ++k) if (er[k] < 0) { L e = fl[k]; for (size_t j = 0; j < nl; ++j) e -= am[j]*m[j][bf[j]][k]; step = step || std::abs(e/-er[k] + 3) < 0.02L; } if (!step) CHECK(vp::near(r.chi2, double(cc), 0, tol), "chi2 ", r.chi2, " expected ", double(cc)); if (!ulim) CHECK(double(cc) < double(best) + tol, "chi2 ", double(cc), " where ", double(best), " is possible"); else for (size_t i = 0; i < nl; ++i) for (double q : {-0.03, 0.03}) { auto a2 = am; a2[i] += q*(std::abs(am[i]) + 0.01L); bool sm = true; for (size_t k = 0; k < nf; ++k) if (er[k] < 0) for (auto& aa : {am, a2}) { L e = fl[k]; for (size_t j = 0; j < nl; ++j) e -= aa[j]*m[j][bf[j]][k]; sm = sm && e/-er[k] > -2.9L; } if (sm) CHECK(chi(bf, a2) > cc - tol, "amplitude ", i, " is not the best"); }
    for (size_t i = 0; i < nl; ++i) for (size_t k = 0; k < nf; ++k) CHECK(vp::near(r.flux(i,k), r.amp[i]*m[i][bf[i]][k], 1e-4), "flux of component ", i, " in filter ", k, ": ", r.flux(i,k), " expected ", r.amp[i]*m[i][bf[i]][k]);
    for (size_t s = 0; s < p.nsim; ++s) { V<size_t> q; for (size_t i = 0; i < nl; ++i) { q.push_back(r.sed_sim(s,i)); CHECK(q[i] < n[i] && std::isfinite(r.amp_sim(s,i)), "simulated template"); } CHECK(ok(q), "a simulation does not satisfy the constraint"); }
    if (p.nsim == 200 && nl == 1 && n[0] == 1) { L y = 0, me = 0, v = 0; for (size_t k = 0; k < nf; ++k) y += L(m[0][0][k])*m[0][0][k]/(L(er[k])*er[k]); L s = 1/std::sqrt(y); for (double x : r.amp_sim) me += L(x)/200; for (double x : r.amp_sim) v += (x - me)*(x - me)/199; CHECK(std::abs(double((me - r.amp[0])/s)) < 8/std::sqrt(200.0) && std::abs(double(std::sqrt(v)/s - 1)) < 0.4, "simulated amplitudes"); }
    if (combos > 1) t.nontrivial();
}
SUB("multi", 5) { multi(t, false); }
SUB("multilimits", 2) { multi(t, true); }
