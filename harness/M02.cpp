// M02: bins and histograms count every value exactly where it belongs; cumulative sums.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/histogram.hpp>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
struct Bins { V<double> lo, hi; };
// disjoint bins: contiguous, with gaps, or in any order; edges are multiples of 1/4
static Bins gbins(Tape& t) {
    size_t n = t.size(0, 7); Bins b; double x = double(t.range(-20, 4))/4; for (size_t i = 0; i < n; ++i) { double w = double(1 + t.draw(12))/4; b.lo.push_back(x); b.hi.push_back(x + w); x += w; if (t.chance(1, 5)) x += double(t.draw(6))/4; }
    if (t.chance(1, 4)) for (size_t k = n; k > 1; --k) { size_t j = t.draw(k); std::swap(b.lo[k-1], b.lo[j]); std::swap(b.hi[k-1], b.hi[j]); }
    return b;
}
template<class T> static vec<2,T> tobins(const Bins& b) { vec<2,T> r(2, b.lo.size()); for (size_t i = 0; i < b.lo.size(); ++i) { r.safe(0, i) = T(b.lo[i]); r.safe(1, i) = T(b.hi[i]); } return r; }
template<class T> static V<T> gdata(Tape& t, size_t n, const Bins& b) { V<T> r(n); for (auto& x : r) { size_t k = t.draw(6); if (k == 0 && !b.lo.empty()) x = T(b.lo[t.draw(b.lo.size())]); else if (k == 1 && !b.hi.empty()) x = T(b.hi[t.draw(b.hi.size())]); else if (k == 2) x = T(t.range(-6, 20)); else x = T((t.unit() - 0.3)*20); if (std::is_floating_point<T>::value && t.chance(1, 15)) x = T(t.coin() ? NaN : t.coin() ? dinf : -dinf); } return r; }
static bool in(double x, double l, double h) { return x >= l && x < h; }
template<class T> static void hist(Tape& t) {
    Bins b = gbins(t); size_t nb = b.lo.size(), n = t.size(0, t.chance(1, 10) ? 100 : 12); V<T> m = gdata<T>(t, n, b); vec2d vb = tobins<double>(b); vec<1,T> v = vp::mk<T>(m); t.note("bins ", b.lo, b.hi, " data ", m); V<size_t> want(nb, 0); V<double> w(n), ww(nb, 0.0); for (auto& x : w) x = double(t.range(-20, 60))/4; V<V<size_t>> ids(nb); for (size_t i = 0; i < nb; ++i) for (size_t j = 0; j < n; ++j) if (in(double(m[j]), b.lo[i], b.hi[i])) { ++want[i]; ww[i] += w[j]; ids[i].push_back(j); }
    vec1d vw = vp::mk<double>(w); vp::expect1(histogram(v, vb), want, "histogram"); vp::expect1(histogram(v, vw, vb), ww, "weighted histogram"); vp::expect1(v, m, "histogram modified its argument"); vec<1,T> v2(2*n + 1); vec1u sel(n); for (size_t i = 0; i < n; ++i) { sel[i] = 2*i + 1; v2[2*i + 1] = m[i]; } vp::expect1(histogram(v2[sel], vb), want, "histogram of a view"); vp::expect1(histogram(v2[sel], vw, vb), ww, "weighted histogram of a view"); if (n % 2 == 0) { vec<2,T> m2 = reform(v, 2, n/2); vp::expect1(histogram(m2, vb), want, "histogram of a 2D vector"); }
    V<int> calls(nb, 0); histogram(v, vb, [&](uint_t i, vec1u id) { CHECK(i < nb, "bin ", i); CHECK(!calls[i], "bin ", i, " visited twice"); ++calls[i]; auto g = vp::tov(id); V<size_t> s(g.begin(), g.end()); std::sort(s.begin(), s.end()); CHECK(s == ids[i], "values of bin ", i, " are ", s, " expected ", ids[i]); }); for (size_t i = 0; i < nb; ++i) CHECK(calls[i] || ids[i].empty(), "bin ", i, " not visited");
    for (size_t i = 0; i < nb; ++i) { auto r = in_bin(v, vb, i); auto q = in_bin(v, vec1d{vb(_, i)}); auto o = in_bin_open(v, vb, i); CHECK(r.size() == n && q.size() == n && o.size() == n); for (size_t j = 0; j < n; ++j) { bool e = in(double(m[j]), b.lo[i], b.hi[i]), eo = i == 0 ? double(m[j]) < b.hi[i] : i + 1 == nb ? double(m[j]) >= b.lo[i] : e; CHECK(bool(r[j]) == e && bool(q[j]) == e, "in_bin of ", m[j]); CHECK(bool(o[j]) == eo, "in_bin_open of ", m[j], " in bin ", i); CHECK(in_bin(m[j], vb, i) == e && in_bin(m[j], vec1d{vb(_, i)}) == e && in_bin_open(m[j], vb, i) == eo, "scalar in_bin of ", m[j]); } }
    CHECK(errors([&] { in_bin(v, vb, nb); }) && errors([&] { in_bin_open(v, vb, nb); }) && errors([&] { in_bin(T(1), vb, nb); }) && errors([&] { in_bin_open(T(1), vb, nb); }), "bin index accepted"); vec2d bad(3, nb); vec1d badw(n + 1); CHECK(errors([&] { histogram(v, bad); }) && errors([&] { histogram(v, vw, bad); }) && errors([&] { histogram(v, badw, vb); }) && errors([&] { bin_center(bad); }) && errors([&] { bin_width(bad); }), "bad dimensions accepted");
    vec1d bc = bin_center(vb), bw = bin_width(vb); CHECK(bc.size() == nb && bw.size() == nb); for (size_t i = 0; i < nb; ++i) { CHECK(vp::near(bc[i], 0.5*(b.lo[i] + b.hi[i]), 1e-14, 1e-14) && vp::near(bw[i], b.hi[i] - b.lo[i], 1e-14), "bin_center/bin_width"); CHECK(bin_center(vec1d{vb(_, i)}) == bc[i] && bin_width(vec1d{vb(_, i)}) == bw[i], "single bin"); } if (n > 2 && nb > 1) t.nontrivial();
}
SUB("histogram", 6) { switch (t.draw(3)) { case 0: hist<int>(t); break; case 1: hist<float>(t); break; default: hist<double>(t); } }
SUB("histogram2d", 4) {
    Bins bx = gbins(t), by = gbins(t); size_t nx = bx.lo.size(), ny = by.lo.size(), n = t.size(0, t.chance(1, 10) ? 100 : 14); V<double> x = gdata<double>(t, n, bx), y = gdata<double>(t, n, by); vec2d vx = tobins<double>(bx), vy = tobins<double>(by); vec1d dx = vp::mk<double>(x), dy = vp::mk<double>(y); t.note("x ", x, " y ", y, " bins ", bx.lo, bx.hi, by.lo, by.hi); V<V<size_t>> ids(nx*ny); for (size_t i = 0; i < nx; ++i) for (size_t j = 0; j < ny; ++j) for (size_t k = 0; k < n; ++k) if (in(x[k], bx.lo[i], bx.hi[i]) && in(y[k], by.lo[j], by.hi[j])) ids[i*ny + j].push_back(k);
    V<size_t> want; for (auto& s : ids) want.push_back(s.size()); vp::expect(histogram2d(dx, dy, vx, vy), std::array<size_t,2>{{nx, ny}}, want, "histogram2d"); V<int> calls(nx*ny, 0); histogram2d(dx, dy, vx, vy, [&](uint_t i, uint_t j, vec1u id) { CHECK(i < nx && j < ny, "bin"); CHECK(!calls[i*ny + j], "bin visited twice"); ++calls[i*ny + j]; auto g = vp::tov(id); V<size_t> s(g.begin(), g.end()); std::sort(s.begin(), s.end()); CHECK(s == ids[i*ny + j], "values of bin ", i, ",", j); }); for (size_t i = 0; i < nx*ny; ++i) CHECK(calls[i] || ids[i].empty(), "bin ", i, " not visited"); vec1d z(n + 1); CHECK(errors([&] { histogram2d(dx, z, vx, vy); }), "dimensions"); vec2d bad(3, 1); CHECK(errors([&] { histogram2d(dx, dy, bad, vy); }) && errors([&] { histogram2d(dx, dy, vx, bad); }), "bad bins"); if (n > 2 && nx > 1 && ny > 1) t.nontrivial();
}
SUB("bins", 2) {
    double lo = double(t.range(-50, 50))/4, hi = lo + double(1 + t.draw(80))/4; size_t n = t.size(0, 12); auto b1 = make_bins(lo, hi); CHECK(vp::dimsv(b1) == (V<size_t>{2, 1}) && b1[0] == lo && b1[1] == hi, "make_bins of one bin"); vec2d b = t.coin() ? make_bins(lo, hi, n) : make_bins(lo = std::floor(lo), hi = std::ceil(hi) + 1, n); t.note(lo, " ", hi, " ", n); CHECK(vp::dimsv(b) == (V<size_t>{2, n}), "make_bins: dimensions"); vp::valid(b, "make_bins"); double d = (hi - lo)/double(n); for (size_t i = 0; i < n; ++i) { CHECK(vp::near(b(0, i), lo + i*d, 1e-12, 1e-12) && vp::near(b(1, i), lo + (i + 1)*d, 1e-12, 1e-12), "make_bins: bin ", i); if (i) CHECK(b(0, i) == b(1, i - 1), "bins are not contiguous"); } { vec2d bi = make_bins(int(lo), int(lo) + 7, n); for (size_t i = 0; i < n; ++i) CHECK(vp::near(bi(0, i), int(lo) + i*7.0/n, 1e-12, 1e-12) && vp::near(bi(1, i), int(lo) + (i + 1)*7.0/n, 1e-12, 1e-12), "make_bins of integers"); }
    V<double> e; double x = lo; for (size_t i = 0; i < n; ++i) { e.push_back(x); x += double(1 + t.draw(9))/4; } vec1d ve = vp::mk<double>(e); if (n < 2) { CHECK(errors([&] { make_bins_from_edges(ve); }) && errors([&] { make_bins_from_centers(ve); }), "too few values accepted"); return; } vec2d be = make_bins_from_edges(ve), bc = make_bins_from_centers(ve); CHECK(vp::dimsv(be) == (V<size_t>{2, n - 1}) && vp::dimsv(bc) == (V<size_t>{2, n}), "dimensions"); for (size_t i = 0; i + 1 < n; ++i) { CHECK(be(0, i) == e[i] && be(1, i) == e[i + 1], "make_bins_from_edges"); CHECK(bc(1, i) == 0.5*(e[i] + e[i + 1]) && bc(0, i + 1) == bc(1, i), "make_bins_from_centers: bin ", i); } CHECK(bc(0, 0) == e[0] - 0.5*(e[1] - e[0]) && bc(1, n - 1) == e[n - 1] + 0.5*(e[n - 1] - e[n - 2]), "make_bins_from_centers: outer edges"); if (n > 2) t.nontrivial();
}
template<class T> static void cum(Tape& t) { size_t n = t.size(0, 12); V<T> m(n); for (auto& x : m) x = T(t.range(-50, 50)); vec<1,T> v = vp::mk<T>(m); V<T> a(n), r(n); T s = 0; for (size_t i = 0; i < n; ++i) { s = T(s + m[i]); a[i] = s; } s = 0; for (size_t i = n; i-- > 0;) { s = T(s + m[i]); r[i] = s; } t.note(m); vp::expect1(cumul(v), a, "cumul"); vp::expect1(cumul_reverse(v), r, "cumul_reverse"); vec1u q = reverse(indgen<size_t>(n)); V<T> rr(a); { T c = 0; for (size_t i = 0; i < n; ++i) { c = T(c + m[n - 1 - i]); rr[i] = c; } } vp::expect1(cumul(v[q]), rr, "cumul of a view"); if (n > 2) t.nontrivial(); }
SUB("cumul", 1) { if (t.coin()) cum<int>(t); else cum<double>(t); }
