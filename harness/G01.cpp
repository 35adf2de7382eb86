// G01: searching, matching, set and sorting functions agree with brute force definitions.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
using namespace vif;
using vp::Tape;
using VU = std::vector<uint_t>;

static bool lessn(double a, double b) { return std::isnan(a) ? false : std::isnan(b) ? true : a < b; } // NaN is the greatest
static VU brute_sort(const std::vector<double>& x) { VU r(x.size()); std::iota(r.begin(), r.end(), 0); std::stable_sort(r.begin(), r.end(), [&](uint_t a, uint_t b) { return lessn(x[a], x[b]); }); return r; }
static std::vector<double> few(Tape& t, size_t n, bool nan) { std::vector<double> r(n); int span = t.pick({2, 6, 20, 1000}); for (auto& q : r) { q = t.range(-span, span); if (nan && t.chance(1, 8)) q = std::numeric_limits<double>::quiet_NaN(); } return r; }

SUB("where", 3) {
    std::array<size_t,2> d{{t.size(0, 5), t.size(0, 5)}}; size_t n = vp::prod(d); std::vector<char> b(n); unsigned p = 1 + t.draw(6); for (auto& q : b) q = t.chance(p, 7);
    vec<2,bool> v(d); for (size_t i = 0; i < n; ++i) v.data[i] = b[i]; t.note(vp::show(b));
    VU w; for (size_t i = 0; i < n; ++i) if (b[i]) w.push_back(i);
    vp::expect1(where(v), w, "where"); vp::expect1(where(v(_, _)), w, "where(view)");
    CHECK(where_first(v) == (w.empty() ? npos : w.front()), "where_first"); CHECK(where_last(v) == (w.empty() ? npos : w.back()), "where_last");
    auto fl = flatten(v); CHECK(where_first(fl[_]) == (w.empty() ? npos : w.front())); CHECK(where_last(fl[_]) == (w.empty() ? npos : w.back()));
    VU c; for (size_t i = 0; i < n; ++i) if (!b[i]) c.push_back(i); vec1u ids = where(v);
    for (size_t i = ids.size(); i > 1; --i) std::swap(ids.data[i-1], ids.data[t.draw(i)]); // any order
    vp::expect1(complement(v, ids), c, "complement");
    if (!w.empty() && !c.empty()) t.nontrivial();
}
SUB("match", 4) {
    size_t n1 = t.coin() ? t.size(0, 12) : t.size(0, 150), n2 = t.coin() ? t.size(0, 12) : t.size(0, 150); if (t.chance(1, 3)) { n1 = 60 + t.draw(12); n2 = 60 + t.draw(12); }
    bool uniq = t.coin(); std::vector<int> a, b; int span = t.pick({3, 30, 200, 5000});
    std::set<int> s1, s2; for (size_t i = 0; i < n1; ++i) { int q = t.range(-span, span); if (uniq && !s1.insert(q).second) continue; a.push_back(q); } for (size_t i = 0; i < n2; ++i) { int q = t.range(-span, span); if (uniq && !s2.insert(q).second) continue; b.push_back(q); }
    VU w1, w2; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (a[i] == b[j]) { w1.push_back(i); w2.push_back(j); break; }
    auto va = vp::mk<int>(a), vb = vp::mk<int>(b); vec1u id1 = {3, 4}, id2 = {9}; t.note(vp::show(a), "\n", vp::show(b));
    match(va, vb, id1, id2); vp::expect1(id1, w1, "match ids in the first vector"); vp::expect1(id2, w2, "match ids in the second vector");
    match(va[_], vb, id1, id2); vp::expect1(id1, w1, "match(view)"); vp::expect1(id2, w2, "match(view)");
    if (!w1.empty()) t.nontrivial(); if (std::min(a.size(), b.size()) >= 64) t.label("large");
}
SUB("match-string", 1) {
    size_t n1 = t.size(0, 80), n2 = t.size(0, 80); std::vector<std::string> a, b; for (size_t i = 0; i < n1; ++i) a.push_back("s" + std::to_string(t.draw(60))); for (size_t i = 0; i < n2; ++i) b.push_back("s" + std::to_string(t.draw(60)));
    VU w1, w2; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (a[i] == b[j]) { w1.push_back(i); w2.push_back(j); break; }
    vec1u id1, id2; match(vp::mk<std::string>(a), vp::mk<std::string>(b), id1, id2); vp::expect1(id1, w1, "match ids in the first vector"); vp::expect1(id2, w2, "match ids in the second vector");
    t.note(vp::show(a), "\n", vp::show(b)); if (!w1.empty()) t.nontrivial();
}
SUB("sets", 3) {
    auto a = vp::ints<int>(t, t.size(0, 12), -4, 6), b = vp::ints<int>(t, t.size(0, 12), -4, 6); std::map<int,int> ca, cb; for (auto q : a) ++ca[q]; for (auto q : b) ++cb[q];
    std::vector<int> wi, wu; for (int q = -5; q <= 7; ++q) { for (int k = 0; k < std::min(ca[q], cb[q]); ++k) wi.push_back(q); for (int k = 0; k < std::max(ca[q], cb[q]); ++k) wu.push_back(q); }
    auto va = vp::mk<int>(a), vb = vp::mk<int>(b); t.note(vp::show(a), vp::show(b));
    vp::expect1(set_intersection(va, vb), wi, "set_intersection"); vp::expect1(set_union(va, vb), wu, "set_union"); vp::expect1(set_intersection(vb, va), wi, "set_intersection swapped"); vp::expect1(set_union(vb, va), wu, "set_union swapped");
    vp::expect1(va, a, "argument unchanged"); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); va = vp::mk<int>(a); vb = vp::mk<int>(b);
    vp::expect1(set_intersection_sorted(va, vb), wi, "set_intersection_sorted"); vp::expect1(set_union_sorted(va, vb), wu, "set_union_sorted");
    for (size_t i = 0; i < a.size(); ++i) CHECK(is_any_of(a[i], vb) == (cb[a[i]] > 0), "is_any_of scalar");
    auto r = is_any_of(va, vb); for (size_t i = 0; i < a.size(); ++i) CHECK(bool(r.data[i]) == (cb[a[i]] > 0), "is_any_of vector");
    if (!wi.empty() && a.size() > 1) t.nontrivial();
}
SUB("unique", 3) {
    auto x = few(t, t.size(0, 25), false); auto v = vp::mk<double>(x); t.note(vp::show(x));
    std::map<double,uint_t> first; for (size_t i = 0; i < x.size(); ++i) first.insert({x[i], i}); VU w; std::vector<double> wv; for (auto& p : first) { w.push_back(p.second); wv.push_back(p.first); }
    vp::expect1(unique_ids(v), w, "unique_ids"); vp::expect1(unique_values(v), wv, "unique_values"); vp::expect1(unique_ids(v[_]), w, "unique_ids(view)");
    auto s = sort(v); vp::expect1(unique_ids(v, s), w, "unique_ids(sorted ids)"); vp::expect1(unique_values(v, s), wv, "unique_values(sorted ids)");
    auto y = x; std::sort(y.begin(), y.end()); auto vy = vp::mk<double>(y); VU wy; for (size_t i = 0; i < y.size(); ++i) if (i == 0 || y[i] != y[i-1]) wy.push_back(i);
    vp::expect1(unique_ids_sorted(vy), wy, "unique_ids_sorted"); vp::expect1(unique_values_sorted(vy), wv, "unique_values_sorted");
    if (w.size() > 1 && w.size() < x.size()) t.nontrivial();
}
SUB("bounds", 4) {
    size_t n = t.size(0, 20); auto y = few(t, n, false); std::sort(y.begin(), y.end()); auto v = vp::mk<double>(y); double x = t.coin() && n ? y[t.draw(n)] : double(t.range(-25, 25)); if (t.chance(1, 4)) x += 0.5; if (t.chance(1, 20)) x = t.coin() ? 1e300 : -1e300;
    double x2 = x + t.pick({0, 1, 7}); t.note(vp::show(y), " x=", x, " x2=", x2);
    auto lo = [&](double q) { uint_t r = npos; for (size_t i = 0; i < n; ++i) if (y[i] <= q) r = i; return r; }; auto up = [&](double q) { for (size_t i = 0; i < n; ++i) if (y[i] > q) return uint_t(i); return npos; };
    CHECK(lower_bound(v, x) == lo(x), "lower_bound"); CHECK(upper_bound(v, x) == up(x), "upper_bound");
    auto b = bounds(v, x); CHECK(b[0] == lo(x) && b[1] == up(x), "bounds ", b, " expected ", lo(x), " ", up(x)); auto b2 = bounds(v, x, x2); CHECK(b2[0] == lo(x) && b2[1] == up(x2), "bounds(x1,x2)");
    CHECK(lower_bound(v[_], x) == lo(x), "lower_bound(view)"); CHECK(upper_bound(v[_], x) == up(x), "upper_bound(view)"); auto b3 = bounds(v[_], x); CHECK(b3[0] == lo(x) && b3[1] == up(x), "bounds(view)");
    uint_t f = npos, l = npos; for (size_t i = 0; i < n; ++i) if (y[i] == x) { if (f == npos) f = i; l = i; }
    auto e = equal_range(v, x); CHECK(e[0] == f && e[1] == l, "equal_range gives ", e, " expected ", f, " ", l);
    if (n > 1) t.nontrivial();
}
SUB("sort", 4) {
    auto x = few(t, t.size(0, 30), true); auto v = vp::mk<double>(x); auto w = brute_sort(x); t.note(vp::show(x)); std::vector<double> ws; for (auto i : w) ws.push_back(x[i]);
    vp::expect1(sort(v), w, "sort (stable, NaN last)"); vp::expect1(sort(v[_]), w, "sort(view)"); auto u = v; inplace_sort(u); vp::expect1(u, ws, "inplace_sort");
    bool srt = true; for (size_t i = 1; i < x.size(); ++i) if (lessn(x[i], x[i-1])) srt = false; CHECK(is_sorted(v) == srt, "is_sorted says ", !srt); CHECK(is_sorted(u), "is_sorted after inplace_sort");
    auto gt = [](double a, double b) { return std::fabs(a) > std::fabs(b); }; std::vector<double> y; for (auto q : x) if (!std::isnan(q)) y.push_back(q); auto vy = vp::mk<double>(y); VU wg(y.size()); std::iota(wg.begin(), wg.end(), 0); std::stable_sort(wg.begin(), wg.end(), [&](uint_t a, uint_t b) { return gt(y[a], y[b]); });
    vp::expect1(sort(vy, gt), wg, "sort with comparator"); std::vector<double> yg; for (auto i : wg) yg.push_back(y[i]); inplace_sort(vy, gt); vp::expect1(vy, yg, "inplace_sort with comparator");
    if (x.size() > 1 && !srt) t.nontrivial();
    // sorting in place through a view changes only the viewed elements
    if (!x.empty()) { size_t a = t.draw(x.size()), b = a + t.draw(x.size() - a); auto z = v; std::vector<double> m = x; vec1d part = z[a-_-b]; inplace_sort(part); z[a-_-b] = part; std::stable_sort(m.begin() + a, m.begin() + b + 1, lessn); vp::expect1(z, m, "sorting a section"); }
}
SUB("sort-string", 1) {
    std::vector<std::string> x; size_t n = t.size(0, 15); for (size_t i = 0; i < n; ++i) x.push_back(std::string(t.draw(3), char('a' + t.draw(3))) + char('a' + t.draw(3))); auto v = vp::mk<std::string>(x);
    VU w(n); std::iota(w.begin(), w.end(), 0); std::stable_sort(w.begin(), w.end(), [&](uint_t a, uint_t b) { return x[a] < x[b]; }); vp::expect1(sort(v), w, "sort strings"); std::vector<std::string> y; for (auto i : w) y.push_back(x[i]); inplace_sort(v); vp::expect1(v, y, "inplace_sort strings"); CHECK(is_sorted(v)); if (n > 2) t.nontrivial(); t.note(vp::show(x));
}
SUB("astar", 2) {
    std::array<size_t,2> d{{t.size(1, 7), t.size(1, 7)}}; vec2b m(d); unsigned p = t.draw(4); size_t n = 0; for (auto& q : m) { q = p && t.chance(p, 12); n += q; } uint_t x0 = t.draw(d[0] + 2), y0 = t.draw(d[1] + 2), x = x0, y = y0; uint_t sx = std::min<uint_t>(x, d[0] - 1), sy = std::min<uint_t>(y, d[1] - 1);
    t.note("dims ", vp::show(d), " from ", x0, ",", y0, " ", vp::show(std::vector<char>(m.data)));
    bool found = astar_find(m, x, y); CHECK(found == (n > 0), "astar_find returned ", found, " with ", n, " true points");
    if (found) { CHECK(x < d[0] && y < d[1] && m(x, y), "the position is not a true point"); auto dist = [&](int64_t a, int64_t b) { return std::llabs(a - int64_t(sx)) + std::llabs(b - int64_t(sy)); }; int64_t best = 1000; for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) if (m(i, j)) best = std::min<int64_t>(best, dist(i, j)); CHECK(dist(x, y) == best, "found at distance ", dist(x, y), " closest is ", best); t.nontrivial(); }
}
