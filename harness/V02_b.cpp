// V02, second part: index lists that are views or literal lists, the unchecked ("safe") accessors, and views of vectors.
#include "V02_h.hpp"
template<class A> void chk(Tape& t, const std::vector<int>& x, const Sel& s, A&& get, const char* what) { check_access(t, x, {x.size()}, {s}, get, what); }
static std::vector<size_t> pick(Tape& t, size_t n, size_t k) { std::vector<size_t> p(k); for (auto& q : p) q = t.draw(n); return p; }
static Sel sel(const std::vector<size_t>& p, size_t n) { bool ok = true; for (auto q : p) ok = ok && q < n; return Sel{p, false, ok, vp::show(p)}; }
static Sel rsel(size_t a, size_t b) { std::vector<size_t> p; for (size_t i = a; i <= b; ++i) p.push_back(i); return Sel{p, false, true, vp::show(a) + ".." + vp::show(b)}; }
// every index kind on X (a vector or a view) holding the values x
template<class X> void lists(Tape& t, X& v, const X& c, const std::vector<int>& x, const char* what) {
    size_t n = x.size(); std::vector<size_t> p = pick(t, n, n ? t.size(0, 5) : 0); bool bad = t.chance(1, 5) && !p.empty(); std::vector<size_t> o = p; if (bad) o[t.draw(o.size())] = n + t.draw(2);
    // the index list as a view: a bigger list, of which the view selects the wanted ones
    std::vector<size_t> big, at; for (auto q : o) { if (t.coin()) big.push_back(777); at.push_back(big.size()); big.push_back(q); } vec1u ib = vp::mk<uint_t>(big), ia = vp::mk<uint_t>(at); auto iv = ib[ia]; vec1i sb = vp::mk<int_t>(std::vector<int_t>(big.begin(), big.end())); std::vector<size_t> o2 = o; for (size_t k = 0; k < o.size(); ++k) if (o[k] < n && t.coin()) sb[at[k]] -= int_t(n); auto sv = sb[ia]; Sel s = sel(o, n); vec1u io = vp::mk<uint_t>(o);
    chk(t, x, s, [&]() -> decltype(auto) { return v[io]; }, what); chk(t, x, s, [&]() -> decltype(auto) { return c[io]; }, what);
    chk(t, x, s, [&]() -> decltype(auto) { return v[iv]; }, what); chk(t, x, s, [&]() -> decltype(auto) { return c[iv]; }, what);
    chk(t, x, s, [&]() -> decltype(auto) { return v[sv]; }, what); chk(t, x, s, [&]() -> decltype(auto) { return c[sv]; }, what);
    if (n > 0) {
        size_t i = t.draw(n), j = t.draw(n); Sel l = sel({i, j, i}, n); chk(t, x, l, [&]() -> decltype(auto) { return v[{i, j, i}]; }, what); chk(t, x, l, [&]() -> decltype(auto) { return v.safe[{i, j, i}]; }, what);
        if (t.coin()) { Sel e = sel({i, n}, n); chk(t, x, e, [&]() -> decltype(auto) { return v[{i, n}]; }, what); }
        CHECK(v.safe[i] == x[i] && c.safe[i] == x[i] && v[i] == x[i] && c[i] == x[i], what, ": scalar");
    }
    if (!bad) {
        chk(t, x, s, [&]() -> decltype(auto) { return v.safe[io]; }, what); chk(t, x, s, [&]() -> decltype(auto) { return c.safe[io]; }, what);
        chk(t, x, s, [&]() -> decltype(auto) { return v.safe[iv]; }, what); chk(t, x, s, [&]() -> decltype(auto) { return c.safe[iv]; }, what);
    }
    std::vector<size_t> all(n); std::iota(all.begin(), all.end(), 0); Sel f = sel(all, n);
    chk(t, x, f, [&]() -> decltype(auto) { return v[_]; }, what); chk(t, x, f, [&]() -> decltype(auto) { return v.safe[_]; }, what);
    if (n > 0) {
        size_t a = t.draw(n), b = a + t.draw(n - a); chk(t, x, rsel(a, b), [&]() -> decltype(auto) { return v.safe[a-_-b]; }, what); chk(t, x, rsel(0, b), [&]() -> decltype(auto) { return v.safe[_-b]; }, what); chk(t, x, rsel(a, n - 1), [&]() -> decltype(auto) { return v.safe[a-_]; }, what);
        chk(t, x, rsel(a, b), [&]() -> decltype(auto) { return v[a-_-b]; }, what); chk(t, x, rsel(0, b), [&]() -> decltype(auto) { return v[_-b]; }, what); chk(t, x, rsel(a, n - 1), [&]() -> decltype(auto) { return v[a-_]; }, what);
    }
    if (o.size() > 1) t.nontrivial();
}
SUB("lists", 4) { size_t n = t.size(0, 8); auto x = ramp(t, n); vec<1,int> v = vp::mk<int>(x); const auto& c = v; lists(t, v, c, x, "vector"); if (n > 0) { CHECK(v.front() == x[0] && c.front() == x[0] && v.back() == x[n-1] && c.back() == x[n-1], "front or back"); } }
SUB("lists-2d", 2) { std::array<size_t,2> d{{t.size(0, 4), t.size(0, 4)}}; auto x = ramp(t, vp::prod(d)); auto v = vp::mkd<2,int>(d, x); const auto& c = v; lists(t, v, c, x, "2D vector"); CHECK(v.pitch(0) == d[1] && v.pitch(1) == 1, "pitch"); }
SUB("lists-view", 4) {
    size_t n = 1 + t.size(0, 8); auto x = ramp(t, n); vec<1,int> v = vp::mk<int>(x); auto p = pick(t, n, t.size(0, 7)); vec1u ip = vp::mk<uint_t>(p); auto w = v[ip]; const auto& c = w; std::vector<int> y; for (auto q : p) y.push_back(x[q]); t.note("view ", p, " of ", x); lists(t, w, c, y, "view"); if (!y.empty()) { CHECK(w.front() == y[0] && w.back() == y.back() && c.front() == y[0] && c.back() == y.back(), "front or back of a view"); CHECK(&w.front() == &v.data[p[0]] && &w.back() == &v.data[p.back()], "front or back of a view is not the original element"); }
    const auto& cv = v; auto k = cv[ip]; const auto& ck = k; std::vector<size_t> q = y.empty() ? std::vector<size_t>() : pick(t, y.size(), 3); vec1u iq = vp::mk<uint_t>(q); Sel s = sel(q, y.size()); chk(t, y, s, [&]() -> decltype(auto) { return k[iq]; }, "view of a const vector"); chk(t, y, s, [&]() -> decltype(auto) { return ck[iq]; }, "const view of a const vector"); chk(t, y, s, [&]() -> decltype(auto) { return k.safe[iq]; }, "view of a const vector");
    // writing through lists and views of views
    if (!y.empty()) { std::vector<size_t> r; for (size_t i = 0; i < y.size(); ++i) if (t.coin()) r.push_back(i); vec1u ir = vp::mk<uint_t>(r); bool sf = t.coin(); int val = 5000; if (sf) w.safe[ir] = val; else w[ir] = val; for (auto i : r) x[p[i]] = val; CHECK(vp::tov(v) == x, "writing through a view of a view gives ", vp::tov(v), " expected ", x); size_t a = t.draw(y.size()), b = a + t.draw(y.size() - a); if (sf) w.safe[a-_-b] = val + 1; else w[a-_-b] = val + 1; for (size_t i = a; i <= b; ++i) x[p[i]] = val + 1; CHECK(vp::tov(v) == x, "writing through a range of a view gives ", vp::tov(v), " expected ", x); for (auto& e : w) e += 1; std::vector<int> z = x; for (auto i : p) z[i] += 1; CHECK(vp::tov(v) == z, "writing through the iteration of a view"); x = z; }
    // a list of values assigned to a view
    if (n >= 3) { size_t i = t.draw(n), j = (i + 1 + t.draw(n - 1)) % n; vec1u two = {i, j}; v[two] = {7001, 7002}; x[i] = 7001; x[j] = 7002; CHECK(vp::tov(v) == x, "list assigned to a view gives ", vp::tov(v), " expected ", x); CHECK(vp::errors([&] { v[two] = {1, 2, 3}; }) && vp::errors([&] { v[two] = {1}; }), "a list of the wrong size must be an error"); CHECK(vp::tov(v) == x, "failed assignment changed the vector"); }
}
SUB("view-2d-safe", 5) {
    std::array<size_t,2> d{{1 + t.size(0, 4), 1 + t.size(0, 4)}}; auto x = ramp(t, vp::prod(d)); auto v = vp::mkd<2,int>(d, x); auto r = pick(t, d[0], 1 + t.size(0, 3)), k = pick(t, d[1], 1 + t.size(0, 3)); vec1u ir = vp::mk<uint_t>(r), ik = vp::mk<uint_t>(k); auto w = v(ir, ik); const auto& c = w; std::vector<int> y; for (auto a : r) for (auto b : k) y.push_back(x[a*d[1] + b]); std::vector<size_t> e{r.size(), k.size()}; t.note("view ", r, "x", k, " of ", vp::show(d));
    with_index(t, e[0], true, false, [&](auto const& i0, Sel s0) { with_index(t, e[1], true, false, [&](auto const& i1, Sel s1) {
        check_access(t, y, e, {s0, s1}, [&]() -> decltype(auto) { return w.safe(i0, i1); }, "view.safe(i,j)"); check_access(t, y, e, {s0, s1}, [&]() -> decltype(auto) { return c.safe(i0, i1); }, "const view.safe(i,j)"); check_access(t, y, e, {s0, s1}, [&]() -> decltype(auto) { return w(i0, i1); }, "view(i,j)"); }); });
    with_index(t, e[0], false, true, [&](auto const& i0, Sel s0) { check_access(t, y, e, {s0, Sel{{e[1] - 1}, true, true, "last"}}, [&]() -> decltype(auto) { return w(i0, e[1] - 1); }, "view(i,last)"); });
    lists(t, w, c, y, "2D view"); CHECK(w.pitch(0) == e[1] && w.pitch(1) == 1, "pitch of a view");
    size_t i = t.draw(e[0]), j = t.draw(e[1]); std::vector<int> row, col, g; for (size_t q = 0; q < e[1]; ++q) row.push_back(y[i*e[1] + q]); for (size_t q = 0; q < e[0]; ++q) col.push_back(y[q*e[1] + j]);
    for (auto& q : w.stride(i, _)) g.push_back(q); CHECK(g == row, "stride of a view"); g.clear(); for (auto& q : c.stride(_, j)) g.push_back(q); CHECK(g == col, "stride of a const view"); g.clear(); const auto& cv = v; for (auto& q : cv.raw_stride(_, k[0])) g.push_back(q); std::vector<int> cl; for (size_t q = 0; q < d[0]; ++q) cl.push_back(x[q*d[1] + k[0]]); CHECK(g == cl, "raw stride"); g.clear(); for (auto& q : v.raw_stride(r[0], _)) g.push_back(q); cl.clear(); for (size_t q = 0; q < d[1]; ++q) cl.push_back(x[r[0]*d[1] + q]); CHECK(g == cl, "raw stride");
    if (t.coin()) { w.safe(i, _) = 9000; for (auto b : k) x[r[i]*d[1] + b] = 9000; } else { w(_, j) = 9001; for (auto a : r) x[a*d[1] + k[j]] = 9001; } CHECK(vp::tov(v) == x, "writing through a row or column of a view gives ", vp::tov(v), " expected ", x);
}
