// M01: reductions agree with their definition, on whole vectors, views and along any dimension.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static bool near(double a, double b, double s = 1) { if (!std::isfinite(a) || !std::isfinite(b)) return same(a, b); return std::fabs(a - b) <= 1e-12*(std::fabs(a) + std::fabs(b) + s); }
template<class T> static V<T> gen(Tape& t, size_t n, bool nans) { V<T> r(n); size_t m = t.draw(4); for (auto& x : r) { x = T(m == 0 ? double(t.range(0, 3)) : m == 1 ? double(t.range(-100, 100)) : m == 2 ? double(t.range(-8000, 8000))/8 : double(t.range(-30000, 30000))); if (nans && std::is_floating_point<T>::value && t.chance(1, 4)) x = T(NaN); } return r; }
template<class T> static V<T> clean(const V<T>& v) { V<T> r; for (auto x : v) if (x == x) r.push_back(x); std::sort(r.begin(), r.end()); return r; }
// definitions
template<class T> static double d_total(const V<T>& v) { double s = 0; for (auto x : v) s += double(x); return s; }
template<class T> static double d_mean(const V<T>& v) { return d_total(v)/double(v.size()); }
template<class T> static T d_pct(const V<T>& v, double p) { auto c = clean(v); if (c.empty()) return T(NaN); size_t k = size_t(double(c.size())*p); return c[std::min(k, c.size() - 1)]; }
template<class T> static T d_median(const V<T>& v) { auto c = clean(v); if (c.empty()) return T(NaN); return c[c.size()/2]; }
template<class T> static double d_rms(const V<T>& v) { double s = 0; for (auto x : v) s += double(x)*double(x); return std::sqrt(s/double(v.size())); }
template<class T> static double d_std(const V<T>& v) { double m = d_mean(v); V<double> d; for (auto x : v) d.push_back(double(x) - m); return d_rms(d); }
template<class T> static T d_mad(const V<T>& v) { T m = d_median(v); V<T> d; for (auto x : v) d.push_back(T(std::abs(x - m))); return d_median(d); }
template<class T> static T d_min(const V<T>& v) { auto c = clean(v); return c.empty() ? T(NaN) : c.front(); }
template<class T> static T d_max(const V<T>& v) { auto c = clean(v); return c.empty() ? T(NaN) : c.back(); }
static const double ps[] = {0.0, 0.25, 0.5, 0.75, 1.0, 0.1, 0.9, 0.999};
template<class T, class VV> static void scalars(Tape& t, const VV& v, const V<T>& m) {
    size_t n = m.size(); t.evals(14); double sf = std::is_same<T,float>::value ? 1e7*(1 + d_rms(m)) : 1; if (sf != sf) sf = 1; CHECK(same(double(total(v)), d_total(m)), "total ", total(v), " expected ", d_total(m)); CHECK(near(mean(v), d_mean(m), sf), "mean ", mean(v), " expected ", d_mean(m)); CHECK(near(rms(v), d_rms(m), sf), "rms ", rms(v), " expected ", d_rms(m)); CHECK(near(stddev(v), d_std(m), d_rms(m) + sf), "stddev ", stddev(v), " expected ", d_std(m));
    if (n == 0) { uint_t id; std::pair<uint_t,uint_t> ii; CHECK(errors([&] { median(v); }) && errors([&] { percentile(v, 0.5); }) && errors([&] { percentiles(v, 0.5); }) && errors([&] { min(v); }) && errors([&] { max(v); }) && errors([&] { min(v, id); }) && errors([&] { max(v, id); }) && errors([&] { minmax(v); }) && errors([&] { minmax(v, ii); }) && errors([&] { min_id(v); }) && errors([&] { max_id(v); }) && errors([&] { minmax_ids(v); }) && errors([&] { mad(v); }), "empty vector accepted"); return; }
    CHECK(same(median(v), d_median(m)), "median ", median(v), " expected ", d_median(m)); double p = t.coin() ? ps[t.draw(8)] : t.unit(), q = ps[t.draw(8)]; CHECK(same(percentile(v, p), d_pct(m, p)), "percentile ", p, " is ", percentile(v, p), " expected ", d_pct(m, p)); auto r = percentiles(v, q, p, 0.5); CHECK(r.size() == 3 && same(r[0], d_pct(m, q)) && same(r[1], d_pct(m, p)) && same(r[2], d_pct(m, 0.5)), "percentiles ", q, ",", p, ",0.5 are ", vp::tov(r), " expected ", d_pct(m, q), ",", d_pct(m, p), ",", d_pct(m, 0.5));
    CHECK(same(mad(v), d_mad(m)), "mad ", mad(v), " expected ", d_mad(m)); T mi = d_min(m), ma = d_max(m); CHECK(same(min(v), mi), "min ", min(v), " expected ", mi); CHECK(same(max(v), ma), "max ", max(v), " expected ", ma);
    uint_t i = npos, j = npos; CHECK(same(min(v, i), mi) && i < n && same(m[i], mi), "min(v, id): id ", i); CHECK(same(max(v, j), ma) && j < n && same(m[j], ma), "max(v, id): id ", j); i = min_id(v); j = max_id(v); CHECK(i < n && same(m[i], mi), "min_id ", i); CHECK(j < n && same(m[j], ma), "max_id ", j);
    auto mm = minmax(v); CHECK(same(mm.first, mi) && same(mm.second, ma), "minmax ", mm.first, ",", mm.second, " expected ", mi, ",", ma); std::pair<uint_t,uint_t> ii(npos, npos); mm = minmax(v, ii); CHECK(same(mm.first, mi) && same(mm.second, ma) && ii.first < n && ii.second < n && same(m[ii.first], mi) && same(m[ii.second], ma), "minmax(v, ids)"); ii = minmax_ids(v); CHECK(ii.first < n && ii.second < n && same(m[ii.first], mi) && same(m[ii.second], ma), "minmax_ids");
    T md = d_median(m); double sg = t.coin() ? 1.0 : double(t.draw(20))/4; auto sc = sigma_clip(v, sg); CHECK(sc.size() == n); double lim = sg*(1.48*double(d_mad(m))); for (size_t k = 0; k < n; ++k) { double dv = std::fabs(double(m[k]) - double(md)); if (std::fabs(dv - lim) > 1e-5*(1 + lim) || lim == 0) CHECK(bool(sc.safe[k]) == (dv <= lim), "sigma_clip of element ", k); }
}
template<class T> static void whole(Tape& t) {
    size_t n = t.size(0, t.chance(1, 10) ? 80 : 9); V<T> m = gen<T>(t, n, t.coin()); t.note(m); switch (t.draw(3)) {
    case 0: { vec<1,T> v = vp::mk<T>(m); scalars(t, v, m); CHECK(v.size() == n); vp::expect1(v, m, "argument modified"); if (n) { vec<1,T> w = v; CHECK(same(inplace_median(w), d_median(m)), "inplace_median"); CHECK(clean(vp::tov(w)) == clean(m), "inplace_median lost values"); w = v; double p = ps[t.draw(8)]; CHECK(same(inplace_percentile(w, p), d_pct(m, p)), "inplace_percentile ", p); CHECK(clean(vp::tov(w)) == clean(m), "inplace_percentile lost values"); } break; }
    case 1: { size_t k = t.draw(4); std::array<size_t,2> d{{k, k ? n/k : 0}}; m.resize(d[0]*d[1]); vec<2,T> v = vp::mkd<2,T>(d, m); scalars(t, v, m); vp::expect(v, d, m, "argument modified"); break; }
    default: { size_t o = t.draw(4); vec<1,T> v; v.resize(2*n + o); for (auto& x : v.data) x = T(77); vec1u ids(n); for (size_t i = 0; i < n; ++i) { ids[i] = 2*i + o/2; v.data[ids[i]] = m[i]; } auto cp = vp::tov(v); scalars(t, v[ids], m); vp::expect1(v, cp, "viewed vector modified"); } }
    if (n > 2) t.nontrivial();
}
SUB("whole", 8) { switch (t.draw(3)) { case 0: whole<double>(t); break; case 1: whole<float>(t); break; default: whole<int>(t); } }
SUB("bool", 2) { size_t n = t.size(0, 12); V<char> m(n), a(n); size_t c = 0, ca = 0, cb = 0; for (size_t i = 0; i < n; ++i) { m[i] = t.coin(); a[i] = t.coin(); c += m[i]; ca += a[i]; cb += a[i] && m[i]; } vec1b v(n), w(n); for (size_t i = 0; i < n; ++i) { v[i] = m[i]; w[i] = a[i]; } t.note(m, a); CHECK(count(v) == c, "count"); CHECK(total(v) == c, "total"); CHECK(same(fraction_of(v), double(c)/n), "fraction_of"); CHECK(same(fraction_of(v, w), double(cb)/ca), "fraction_of among"); if (n) CHECK(percent_of(v) == std::to_string(long(std::round(100.0*c/n))) + "%", "percent_of ", percent_of(v)); vec1b x(n + 1); CHECK(errors([&] { fraction_of(v, x); }), "fraction_of: dimensions"); CHECK(count(v[indgen<size_t>(n)]) == c, "count of a view"); if (n > 2) t.nontrivial(); }
SUB("weighted", 3) {
    size_t n = t.size(0, 10); V<double> m = gen<double>(t, n, t.chance(1, 3)), w(n), e(n); bool odd = t.coin(); for (auto& x : w) x = odd ? t.unit() : double(t.range(0, 40))/8; for (auto& x : e) x = double(t.range(1, 40))/8; vec1d v = vp::mk<double>(m), vw = vp::mk<double>(w), ve = vp::mk<double>(e); t.note(m, w); double s = 0, sw = 0, so = 0, sow = 0, ab = 0; for (size_t i = 0; i < n; ++i) { s += m[i]*w[i]; sw += w[i]; so += m[i]/(e[i]*e[i]); sow += 1/(e[i]*e[i]); ab += std::fabs(m[i]*w[i]); }
    CHECK(near(weighted_mean(v, vw), s/sw, sw ? ab/sw : 1), "weighted_mean ", weighted_mean(v, vw), " expected ", s/sw); auto o = optimal_mean(v, ve); CHECK(near(o.first, so/sow, 1000), "optimal_mean"); CHECK(near(o.second, 1/std::sqrt(sow)), "optimal_mean error"); vec1d x(n + 1); CHECK(errors([&] { weighted_mean(v, x); }) && errors([&] { optimal_mean(v, x); }), "dimensions"); if (n == 0) { CHECK(errors([&] { weighted_median(v, vw); }), "weighted_median of nothing"); return; } CHECK(errors([&] { weighted_percentile(v, x, 0.5); }), "dimensions");
    double p = t.coin() ? ps[t.draw(8)] : double(t.draw(17))/16, tot = 0, acc = 0; V<size_t> id; for (size_t i = 0; i < n; ++i) if (m[i] == m[i]) { id.push_back(i); tot += w[i]; } std::stable_sort(id.begin(), id.end(), [&](size_t a, size_t b) { return m[a] < m[b]; }); auto chk = [&](double r, double pp) { acc = 0; if (tot == 0) { CHECK(r != r, "no weight"); return; } bool hit = false; for (size_t k = 0; k < id.size() && !hit; ++k) { acc += w[id[k]]; if (acc >= tot*pp*(1 + (odd ? 1e-12 : 0)) || k + 1 == id.size()) { CHECK(same(r, m[id[k]]) || (odd && k && std::fabs(acc - w[id[k]] - tot*pp) <= 1e-10*tot), "weighted percentile ", pp, " is ", r, " expected ", m[id[k]]); hit = true; } else if (odd && acc >= tot*pp*(1 - 1e-12) && same(r, m[id[k]])) hit = true; } }; chk(weighted_percentile(v, vw, p), p); chk(weighted_median(v, vw), 0.5);
    // equal integer weights are repetitions
    V<double> rep; for (size_t i = 0; i < n; ++i) { size_t k = t.draw(4); vw[i] = double(k); for (size_t q = 0; q < k; ++q) rep.push_back(m[i]); } auto c = clean(rep); if (!c.empty()) { double want = c[size_t(std::ceil(double(c.size())*0.5)) - 1]; double got = weighted_median(v, vw); CHECK(same(got, want), "weighted_median with integer weights ", vp::tov(vw), " is ", got, " expected ", want); } if (n > 2) t.nontrivial();
}
template<class A, class B> static void elems(Tape& t) {
    size_t n = t.size(0, 8); V<A> a = gen<A>(t, n, false); V<B> b = gen<B>(t, n, false); vec<1,A> va = vp::mk<A>(a); vec<1,B> vb = vp::mk<B>(b); B s = gen<B>(t, 1, false)[0]; A sa = gen<A>(t, 1, false)[0]; V<A> mi(n), ma(n), ms(n), Ms(n), ls(n), Ls(n); for (size_t i = 0; i < n; ++i) { mi[i] = A(std::min<double>(a[i], b[i])); ma[i] = A(std::max<double>(a[i], b[i])); ms[i] = A(std::min<double>(a[i], s)); Ms[i] = A(std::max<double>(a[i], s)); ls[i] = A(std::min<double>(sa, b[i])); Ls[i] = A(std::max<double>(sa, b[i])); }
    t.note(a, b, s); vp::expect1(min(va, vb), mi, "min of two vectors"); vp::expect1(max(va, vb), ma, "max of two vectors"); vp::expect1(min(va, s), ms, "min of vector and scalar"); vp::expect1(max(va, s), Ms, "max of vector and scalar"); vp::expect1(min(sa, vb), ls, "min of scalar and vector"); vp::expect1(max(sa, vb), Ls, "max of scalar and vector"); vec<1,B> x(n + 1); CHECK(errors([&] { min(va, x); }) && errors([&] { max(va, x); }), "dimensions"); CHECK(min(sa, s) == std::min<double>(sa, s) && max(sa, s) == std::max<double>(sa, s), "scalars"); if (n > 1) t.nontrivial();
}
SUB("elementwise", 2) { switch (t.draw(4)) { case 0: elems<double,double>(t); break; case 1: elems<int,int>(t); break; case 2: elems<float,float>(t); break; default: elems<double,float>(t); } }
template<size_t D, class T> static void part(Tape& t) {
    std::array<size_t,D> d; for (auto& x : d) x = t.size(1, 5); size_t n = vp::prod(d); V<T> m = gen<T>(t, n, t.chance(1, 3)); vec<D,T> v = vp::mkd<D,T>(d, m); size_t k = t.draw(D); t.note("dims ", vp::show(d), " along ", k, " ", m); std::array<size_t,D-1> rd; for (size_t i = 0, j = 0; i < D; ++i) if (i != k) rd[j++] = d[i];
    size_t before = 1, after = 1; for (size_t i = 0; i < k; ++i) before *= d[i]; for (size_t i = k + 1; i < D; ++i) after *= d[i]; V<V<T>> sl; for (size_t b = 0; b < before; ++b) for (size_t a = 0; a < after; ++a) { V<T> s; for (size_t j = 0; j < d[k]; ++j) s.push_back(m[(b*d[k] + j)*after + a]); sl.push_back(s); }
    auto chk = [&](const char* what, const V<double>& got, const V<size_t>& gd, double (*f)(const V<T>&), double tol) { CHECK(gd == V<size_t>(rd.begin(), rd.end()), what, ": dimensions ", gd); CHECK(got.size() == sl.size(), what); for (size_t i = 0; i < sl.size(); ++i) CHECK(tol == 0 ? same(got[i], f(sl[i])) : near(got[i], f(sl[i]), 1000), what, ": element ", i, " is ", got[i], " expected ", f(sl[i])); };
    auto td = [](const auto& r) { V<double> o; for (size_t i = 0; i < r.size(); ++i) o.push_back(double(r.safe[i])); return o; };
#define PART(name, def, tol) { auto r = partial_##name(k, v); vp::valid(r, "partial_" #name); chk("partial_" #name, td(r), vp::dimsv(r), [](const V<T>& s) { return double(def(s)); }, tol); CHECK(errors([&] { partial_##name(D, v); }), "dimension accepted"); }
    switch (t.draw(9)) { case 0: PART(total, d_total, 1) break; case 1: PART(mean, d_mean, 1) break; case 2: PART(median, d_median, 0) break; case 3: PART(min, d_min, 0) break; case 4: PART(max, d_max, 0) break; case 5: PART(rms, d_rms, 1) break; case 6: PART(stddev, d_std, 1) break; case 7: PART(mad, d_mad, 0) break; default: { double p = ps[t.draw(8)]; auto r = partial_percentile(k, v, p); auto g = td(r); CHECK(g.size() == sl.size()); for (size_t i = 0; i < g.size(); ++i) CHECK(same(g[i], d_pct(sl[i], p)), "partial_percentile ", p, ": element ", i, " is ", g[i], " expected ", d_pct(sl[i], p)); } }
    { auto r = reduce(k, v, [](vec<1,T> x) { return x.size() ? double(x[0])*3 + double(x.size()) : 0.0; }); vp::valid(r, "reduce"); chk("reduce", td(r), vp::dimsv(r), [](const V<T>& s) { return double(s[0])*3 + double(s.size()); }, 1); CHECK(errors([&] { reduce(D, v, [](vec<1,T> x) { return 1.0; }); }), "reduce: dimension accepted"); }
    { vec<D,int> w(v.dims); for (size_t i = 0; i < n; ++i) w.data[i] = int(i); V<int> seen(sl.size(), 0); run_dim(k, v, w, [&](uint_t i, vec<1,T> x, vec1i y) { CHECK(i < sl.size(), "run_dim index"); ++seen[i]; CHECK(x.size() == d[k] && y.size() == d[k], "run_dim slice size"); for (size_t j = 0; j < d[k]; ++j) { CHECK(same(x[j], sl[i][j]), "run_dim slice ", i); CHECK(same(m[size_t(y[j])], sl[i][j]) && size_t(y[j]) == (i/after*d[k] + j)*after + i%after, "run_dim slice of the second vector"); } }); for (auto s : seen) CHECK(s == 1, "run_dim calls per slice"); vec<D,int> z; CHECK(errors([&] { run_dim(k, v, z, [&](uint_t, vec<1,T>, vec1i) {}); }), "run_dim: different dimensions accepted"); }
    if (n > 2) t.nontrivial();
}
SUB("partial", 6) { switch (t.draw(5)) { case 0: part<2,double>(t); break; case 1: part<2,int>(t); break; case 2: part<3,double>(t); break; case 3: part<3,float>(t); break; default: part<4,double>(t); } }
SUB("partial-bool", 1) { size_t a = t.size(1, 5), b = t.size(1, 5); vec2b v(a, b); for (size_t i = 0; i < a*b; ++i) v.data[i] = t.coin(); auto c0 = partial_count(0, v); auto c1 = partial_count(1, v); auto f1 = partial_fraction_of(1, v); CHECK(c0.size() == b && c1.size() == a && f1.size() == a); for (size_t i = 0; i < a; ++i) { size_t c = 0; for (size_t j = 0; j < b; ++j) c += v(i, j); CHECK(c1[i] == c, "partial_count"); CHECK(same(f1[i], double(c)/b), "partial_fraction_of"); } for (size_t j = 0; j < b; ++j) { size_t c = 0; for (size_t i = 0; i < a; ++i) c += v(i, j); CHECK(c0[j] == c, "partial_count"); } if (a*b > 2) t.nontrivial(); }
SUB("large-ints", 1) { size_t n = t.size(1, 6); V<int> m = vp::ints<int>(t, n, -2000000000, 2000000000); t.note(m); vec1i v = vp::mk<int>(m); double s = 0, q = 0; for (auto x : m) { s += x; q += double(x)*x; } CHECK(double(total(v)) == s, "total"); CHECK(near(mean(v), s/n, 1e9), "mean"); CHECK(near(rms(v), std::sqrt(q/n)), "rms ", rms(v), " expected ", std::sqrt(q/n)); V<int> w = vp::ints<int>(t, n, 1, 100000); vec1i vw = vp::mk<int>(w); double a = 0, b = 0; for (size_t i = 0; i < n; ++i) { a += double(m[i])*w[i]; b += w[i]; } CHECK(near(weighted_mean(v, vw), a/b, 1e9), "weighted_mean ", weighted_mean(v, vw), " expected ", a/b); auto o = optimal_mean(v, vw); a = b = 0; for (size_t i = 0; i < n; ++i) { a += double(m[i])/double(w[i])/double(w[i]); b += 1/double(w[i])/double(w[i]); } CHECK(near(o.first, a/b, 1e9) && near(o.second, 1/std::sqrt(b)), "optimal_mean"); t.nontrivial(); }
