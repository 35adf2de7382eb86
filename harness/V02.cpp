// V02: every way of indexing a vector (flat or multidimensional, scalar, negative, range, index
// list, repeated, on vectors or views, const or not, checked or "safe", strides) selects exactly
// the elements that row-major order prescribes, and an index outside the bounds is an error.
#include "V02_h.hpp"

SUB("flat", 4) {
    std::array<size_t,2> d{{t.size(0, 4), t.size(0, 4)}}; size_t n = vp::prod(d);
    auto x = ramp(t, n); auto v = vp::mkd<2,int>(d, x); const auto& c = v; auto v1 = vp::mk<int>(x); const auto& c1 = v1;
    with_index(t, n, false, true, [&](auto const& ix, Sel s) {
        std::vector<size_t> fd{n};
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return v[ix]; }, "v[i]");
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return c[ix]; }, "const v[i]");
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return v1[ix]; }, "v[i] (1D)");
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return v1(ix); }, "v(i)");
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return c1(ix); }, "const v(i)");
    });
    with_index(t, n, true, false, [&](auto const& ix, Sel s) {
        std::vector<size_t> fd{n};
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return v1.safe(ix); }, "v.safe(i)");
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return c1.safe(ix); }, "const v.safe(i)");
    });
    if (n > 2) t.nontrivial();
}
// narrow index types behave like wide ones
SUB("index-type", 2) {
    size_t n = 1 + t.size(0, 300); auto x = ramp(t, n); auto v = vp::mk<int>(x); auto m = vp::mkd<2,int>({{1, n}}, x);
    int64_t i = t.range(-int64_t(n), int64_t(n) + 2); size_t p = i < 0 ? i + n : i; bool ok = p < n;
    t.note("n=", n, " i=", i);
    auto tryit = [&](auto idx, const char* ty) {
        using I = decltype(idx);
        if (int64_t(I(i)) != i) return; // not representable
        for (int mode = 0; mode < 4; ++mode) {
            int got = 0; bool err = vp::errors([&] { got = mode == 0 ? v[I(i)] : mode == 1 ? m(0, I(i)) : mode == 2 ? v[_][I(i)] : *m.stride(0, _).begin() + m(0, I(i)) - m(0, 0); });
            CHECK(err == !ok, ty, " index ", i, " in a vector of ", n, mode); if (ok) CHECK(got == x[p], ty, " index ", i, " in a vector of ", n, ": got ", got, " expected ", x[p]);
        }
        vec<1,I> ids; ids.resize(2); ids.data[0] = I(i); ids.data[1] = I(i); std::vector<int> got;
        bool err = vp::errors([&] { got = vp::tov(v[ids]); }); CHECK(err == !ok, ty, " index vector ", i, " of ", n);
        if (ok) CHECK(got == std::vector<int>(2, x[p]), ty, " index vector ", i, " of ", n);
        got.clear(); err = vp::errors([&] { got = vp::tov(m(0, ids)); }); CHECK(err == !ok, ty, " multidim index vector ", i, " of ", n);
        if (ok) CHECK(got == std::vector<int>(2, x[p]), ty, " multidim index vector ", i, " of ", n);
        got.clear(); err = vp::errors([&] { got = vp::tov(v(ids)); }); CHECK(err == !ok, ty, " v(ids) ", i, " of ", n);
        if (ok) CHECK(got == std::vector<int>(2, x[p]), ty, " v(ids) ", i, " of ", n);
    };
    tryit((signed char)0, "int8"); tryit(short(0), "int16"); tryit(int(0), "int32"); tryit(int64_t(0), "int64");
    if (i >= 0) { tryit((unsigned char)0, "uint8"); tryit((unsigned short)0, "uint16"); tryit(unsigned(0), "uint32"); tryit(uint64_t(0), "uint64"); }
    if (i < 0 || n > 100) t.nontrivial();
}
SUB("multi-2d", 6) {
    std::array<size_t,2> d{{t.size(0, 5), t.size(0, 5)}}; size_t n = vp::prod(d); std::vector<size_t> dv(d.begin(), d.end());
    auto x = ramp(t, n); auto v = vp::mkd<2,int>(d, x); const auto& c = v;
    with_index(t, d[0], false, true, [&](auto const& i, Sel s0) { with_index(t, d[1], false, true, [&](auto const& j, Sel s1) {
        check_access(t, x, dv, {s0, s1}, [&]() -> decltype(auto) { return v(i, j); }, "v(i,j)");
        check_access(t, x, dv, {s0, s1}, [&]() -> decltype(auto) { return c(i, j); }, "const v(i,j)");
    }); });
    with_index(t, d[0], true, false, [&](auto const& i, Sel s0) { with_index(t, d[1], true, false, [&](auto const& j, Sel s1) {
        check_access(t, x, dv, {s0, s1}, [&]() -> decltype(auto) { return v.safe(i, j); }, "v.safe(i,j)");
    }); });
    if (n > 2) t.nontrivial();
}
// through a 2D view of a larger vector
SUB("multi-2d-view", 3) {
    std::array<size_t,2> d{{t.size(1, 4), t.size(1, 4)}}; std::vector<size_t> dv(d.begin(), d.end());
    std::array<size_t,3> pd{{d[0] + 1, 2, d[1] + 2}}; auto px = ramp(t, vp::prod(pd)); auto p = vp::mkd<3,int>(pd, px);
    auto w = p(_-(d[0]-1), 1, 1-_-d[1]); std::vector<int> x;
    for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) x.push_back(px[(i*2 + 1)*pd[2] + j + 1]);
    const auto& c = w; CHECK(vp::tov(w) == x);
    with_index(t, d[0], false, true, [&](auto const& i, Sel s0) { with_index(t, d[1], false, true, [&](auto const& j, Sel s1) {
        check_access(t, x, dv, {s0, s1}, [&]() -> decltype(auto) { return w(i, j); }, "view(i,j)");
        check_access(t, x, dv, {s0, s1}, [&]() -> decltype(auto) { return c(i, j); }, "const view(i,j)");
    }); });
    with_index(t, x.size(), false, true, [&](auto const& i, Sel s) {
        std::vector<size_t> fd{x.size()};
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return w[i]; }, "view[i]");
        check_access(t, x, fd, {s}, [&]() -> decltype(auto) { return c[i]; }, "const view[i]");
    });
    t.nontrivial();
}
template<class F> void with_index3(Tape& t, size_t n, F&& f) { // fewer kinds, to bound instantiations
    bool bad = t.chance(1, 6);
    switch (t.draw(4)) {
    case 0: { int i = bad ? int(n + t.draw(2)) : int(t.range(-int64_t(n), n - 1)); size_t p = i < 0 ? i + n : i; f(i, Sel{{p}, true, p < n, vp::show(i)}); break; }
    case 1: { std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0); f(_, Sel{p, false, true, "_"}); break; }
    case 2: { uint_t a = t.draw(n), b = bad ? n : a + t.draw(n - a); if (!bad && a > 0 && t.chance(1, 5)) b = a - 1; std::vector<size_t> p; for (size_t i = a; i <= b && i < n; ++i) p.push_back(i); f(a - _ - b, Sel{p, false, b < n, vp::show(a) + "-_-" + vp::show(b)}); break; }
    default: { size_t k = t.size(1, 3); std::vector<size_t> p(k); for (auto& x : p) x = t.draw(n); if (bad) p[t.draw(k)] = n; f(vp::mk<uint_t>(p), Sel{p, false, !bad, vp::show(p)}); break; }
    }
}
SUB("multi-3d", 4) {
    std::array<size_t,3> d{{t.size(1, 3), t.size(1, 4), t.size(1, 3)}}; std::vector<size_t> dv(d.begin(), d.end());
    auto x = ramp(t, vp::prod(d)); auto v = vp::mkd<3,int>(d, x); const auto& c = v;
    with_index3(t, d[0], [&](auto const& i, Sel s0) { with_index3(t, d[1], [&](auto const& j, Sel s1) { with_index3(t, d[2], [&](auto const& k, Sel s2) {
        check_access(t, x, dv, {s0, s1, s2}, [&]() -> decltype(auto) { return v(i, j, k); }, "v(i,j,k)");
        check_access(t, x, dv, {s0, s1, s2}, [&]() -> decltype(auto) { return c(i, j, k); }, "const v(i,j,k)");
    }); }); });
    t.nontrivial();
}
SUB("repeat", 1) {
    std::array<size_t,4> d{{t.size(1, 3), t.size(1, 3), t.size(1, 3), t.size(1, 3)}}; auto x = ramp(t, vp::prod(d)); auto v = vp::mkd<4,int>(d, x);
    size_t k = t.draw(d[1]), l = t.draw(std::min(d[0], d[1]));
    auto r1 = v(repeat<1>(_), k, repeat<2>(_)); auto r2 = v(_, k, _, _); CHECK(vp::tov(r1) == vp::tov(r2)); CHECK(vp::dimsv(r1) == vp::dimsv(r2));
    auto r3 = v(repeat<2>(l), repeat<2>(_)); auto r3b = v(l, l, _, _); if (l < d[1]) CHECK(vp::tov(r3) == vp::tov(r3b));
    size_t q = t.draw(d[3]); auto r4 = v(repeat<3>(_), q); auto r5 = v(_, _, _, q); CHECK(vp::tov(r4) == vp::tov(r5)); CHECK(vp::dimsv(r4) == vp::dimsv(r5));
    auto r6 = v.safe(repeat<3>(_), q); CHECK(vp::tov(r6) == vp::tov(r5));
    t.nontrivial(); t.note("dims ", vp::show(d));
}
// strides and iterators visit exactly one line, in order, and give access to the elements
SUB("stride", 3) {
    std::array<size_t,3> d{{t.size(1, 4), t.size(1, 4), t.size(1, 4)}}; auto x = ramp(t, vp::prod(d)); auto v = vp::mkd<3,int>(d, x); const auto& c = v;
    size_t i = t.draw(d[0]), j = t.draw(d[1]), k = t.draw(d[2]); int axis = t.draw(3);
    std::vector<size_t> w; for (size_t q = 0; q < d[axis]; ++q) { size_t a = axis == 0 ? q : i, b = axis == 1 ? q : j, e = axis == 2 ? q : k; w.push_back((a*d[1] + b)*d[2] + e); }
    t.note("dims ", vp::show(d), " axis ", axis, " at ", i, ",", j, ",", k);
    std::vector<int> want; for (auto q : w) want.push_back(x[q]);
    auto run = [&](auto&& rng, const char* what) {
        std::vector<int> got; for (auto& e : rng) { got.push_back(e); CHECK(got.size() <= want.size(), what, ": iterates past the line"); }
        CHECK(got == want, what, ": ", got, " expected ", want);
        auto b = rng.begin(), e = rng.end(); CHECK(size_t(e - b) == want.size(), what, ": length");
        size_t m = t.draw(want.size()); CHECK(*(b + m) == want[m]); auto z = b; z += m; CHECK(*z == want[m]);
        CHECK(size_t(z - b) == m); auto y = e; y -= (want.size() - m); CHECK(y == z); --e; CHECK(*e == want.back()); CHECK((b < e) == (want.size() > 1)); CHECK(b <= e && e >= b);
        auto u = b; CHECK(*u++ == want[0]); if (want.size() > 1) CHECK(*u == want[1]);
    };
    if (axis == 0) { run(v.stride(_, j, k), "stride"); run(c.stride(_, j, k), "const stride"); }
    if (axis == 1) { run(v.stride(i, _, k), "stride"); run(c.stride(i, _, k), "const stride"); }
    if (axis == 2) { run(v.stride(i, j, _), "stride"); run(c.stride(i, j, _), "const stride"); }
    auto view = v(_, _, _); if (axis == 1) run(view.stride(i, _, k), "stride of a view");
    std::reverse(want.begin(), want.end()); std::vector<int> got;
    { // write through a stride
        if (axis == 0) for (auto& e : v.stride(_, j, k)) e += 1000; else if (axis == 1) for (auto& e : v.stride(i, _, k)) e += 1000; else for (auto& e : v.stride(i, j, _)) e += 1000;
        for (auto q : w) x[q] += 1000; CHECK(vp::tov(v) == x, "writing through a stride");
    }
    bool err = vp::errors([&] { if (axis == 0) v.stride(_, d[1], k); else if (axis == 1) v.stride(d[0], _, k); else v.stride(i, d[1] + 1, _); });
    CHECK(err, "stride out of bounds must be an error");
    std::vector<int> all; for (auto it = c.begin(); it != c.end(); ++it) all.push_back(*it); CHECK(all == x, "iteration order");
    std::vector<int> idx; for (uint_t q : range(v)) idx.push_back(v[q]); CHECK(idx == x);
    if (want.size() > 1) t.nontrivial();
}
// range() for loops
SUB("range", 1) {
    int64_t a = t.range(-20, 20), b = t.range(-20, 20); t.note("range ", a, " ", b); std::vector<int64_t> got, exp;
    for (auto i : range(a, b)) { got.push_back(i); CHECK(got.size() <= 60); }
    if (a <= b) for (int64_t i = a; i < b; ++i) exp.push_back(i); else for (int64_t i = a; i > b; --i) exp.push_back(i);
    CHECK(got == exp, "range(", a, ",", b, ") gives ", got);
    uint_t n = t.size(0, 30); std::vector<uint_t> g2, e2; for (uint_t i : range(n)) g2.push_back(i); for (uint_t i = 0; i < n; ++i) e2.push_back(i); CHECK(g2 == e2);
    uint_t i0 = t.draw(n + 1); g2.clear(); e2.clear(); for (uint_t i : range(i0, n)) g2.push_back(i); for (uint_t i = i0; i < n; ++i) e2.push_back(i); CHECK(g2 == e2);
    if (a != b) t.nontrivial();
}
