#pragma once
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
using namespace vif;
using vp::Tape;

namespace {
struct Sel { std::vector<size_t> pos; bool scalar, ok; std::string txt; };

// Draw an index specification for a dimension of length n and hand the actual argument to f.
template<class F> void with_index(Tape& t, size_t n, bool in_bounds, bool allow_neg, F&& f) {
    bool bad = !in_bounds && t.chance(1, 4);
    if (n == 0 && in_bounds) { // only empty selections are valid
        if (t.coin()) f(_, Sel{{}, false, true, "_"}); else f(vec1u{}, Sel{{}, false, true, "{}"}); return;
    }
    switch (t.draw(8)) {
    case 0: { uint_t i = bad || n == 0 ? n + t.draw(3) : t.draw(n); f(i, Sel{{i}, true, i < n, vp::show(i)}); break; }
    case 1: { // negative or positive, signed 64 bit
        int_t i = bad || n == 0 ? int_t(n + t.draw(3)) : allow_neg ? t.range(-int64_t(n), n - 1) : t.draw(n);
        size_t p = i < 0 ? i + n : i; f(i, Sel{{p}, true, p < n && n > 0, vp::show(i)}); break; }
    case 2: { std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0); f(_, Sel{p, false, true, "_"}); break; }
    case 3: { uint_t l = bad || n == 0 ? n + t.draw(3) : t.draw(n); std::vector<size_t> p; for (size_t i = 0; i <= l && i < n; ++i) p.push_back(i);
        f(_ - l, Sel{p, false, l < n, "_-" + vp::show(l)}); break; }
    case 4: { uint_t l = bad || n == 0 ? n + t.draw(3) : t.draw(n); std::vector<size_t> p; for (size_t i = l; i < n; ++i) p.push_back(i);
        f(l - _, Sel{p, false, l < n, vp::show(l) + "-_"}); break; }
    case 5: { uint_t a = n ? t.draw(n) : 0, b = bad || n == 0 ? n + t.draw(3) : a + t.draw(n - a); if (!bad && a > 0 && t.chance(1, 5)) b = a - 1; /* empty range */ std::vector<size_t> p; for (size_t i = a; i <= b && i < n; ++i) p.push_back(i);
        f(a - _ - b, Sel{p, false, b < n && a < n, vp::show(a) + "-_-" + vp::show(b)}); break; }
    case 6: { size_t k = t.size(0, 4); if (n == 0 && bad && k == 0) k = 1; if (n == 0 && !bad) k = 0;
        std::vector<size_t> p(k); for (auto& x : p) x = n ? t.draw(n) : 0; bool ok = true;
        if (bad && k) { p[t.draw(k)] = n + t.draw(3); ok = false; }
        f(vp::mk<uint_t>(p), Sel{p, false, ok, vp::show(p)}); break; }
    default: { size_t k = t.size(0, 4); if (n == 0 && bad && k == 0) k = 1; if (n == 0 && !bad) k = 0;
        std::vector<int_t> q(k); std::vector<size_t> p(k); bool ok = true;
        for (size_t i = 0; i < k; ++i) { q[i] = n == 0 ? 0 : allow_neg ? t.range(-int64_t(n), n - 1) : t.draw(n); p[i] = q[i] < 0 ? q[i] + n : q[i]; }
        if (bad && k) { size_t j = t.draw(k); q[j] = n + t.draw(3); p[j] = q[j]; ok = false; }
        f(vp::mk<int_t>(q), Sel{p, false, ok, vp::show(q)}); break; }
    }
}
template<class R> struct Read { // views
    static std::vector<int> values(const R& r) { std::vector<int> o; for (size_t i = 0; i < r.size(); ++i) o.push_back(r.safe[i]); return o; }
    static std::vector<size_t> dims(const R& r) { return std::vector<size_t>(r.dims.begin(), r.dims.end()); }
};
template<> struct Read<int> {
    static std::vector<int> values(int r) { return {r}; }
    static std::vector<size_t> dims(int) { return {}; }
};
struct Want { std::vector<size_t> dims; std::vector<int> vals; std::vector<size_t> flat; bool ok; };
static Want want(const std::vector<int>& data, const std::vector<size_t>& d, const std::vector<Sel>& s) {
    Want w; w.ok = true; bool empty = false;
    for (auto& x : s) { if (!x.ok) w.ok = false; if (!x.scalar) w.dims.push_back(x.pos.size()); if (x.pos.empty()) empty = true; }
    if (!w.ok || empty) return w;
    std::vector<size_t> it(s.size(), 0);
    for (;;) {
        size_t k = 0; for (size_t j = 0; j < s.size(); ++j) k = k*d[j] + s[j].pos[it[j]];
        w.flat.push_back(k); w.vals.push_back(data[k]);
        size_t j = s.size(); while (j > 0) { --j; if (++it[j] < s[j].pos.size()) break; it[j] = 0; if (j == 0) return w; }
    }
}
// an out of bounds index combined with an empty selection of another dimension is not reached
static bool vacuous(const std::vector<Sel>& s) { bool e = false; for (auto& x : s) if (x.ok && !x.scalar && x.pos.empty()) e = true; return e; }

template<class A> void check_access(Tape& t, const std::vector<int>& data, const std::vector<size_t>& d, const std::vector<Sel>& s, A&& get, const char* what) {
    Want w = want(data, d, s); std::string txt; for (auto& x : s) txt += x.txt + ", "; t.note(what, " dims ", vp::show(d), " index (", txt, ")");
    if (!w.ok && vacuous(s)) return;
    bool err = false; t.evals(1);
    try {
        auto&& r = get(); using R = typename std::decay<decltype(r)>::type;
        auto gv = Read<R>::values(r); auto gd = Read<R>::dims(r);
        CHECK(w.ok, what, ": an out of bounds index (", txt, ") on dims ", d, " returned ", gv);
        CHECK(gd == w.dims, what, ": dims ", gd, " expected ", w.dims, " for (", txt, ")");
        CHECK(gv == w.vals, what, ": got ", gv, " expected ", w.vals, " for (", txt, ") on dims ", d);
    } catch (vp::Fail&) { throw; } catch (vp::Exited&) { err = true; }
    catch (std::length_error&) { err = true; } catch (std::bad_alloc&) { err = true; }
    CHECK(err == !w.ok, what, ": error on the valid index (", txt, ") on dims ", d);
}
static std::vector<int> ramp(Tape& t, size_t n) { int b = t.range(0, 900); std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = b + 3*int(i); return v; }
}
