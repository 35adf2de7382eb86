// V03: writing through a view changes exactly the selected elements of the viewed vector, and any
// assignment x = y, x op= y behaves as if y were copied first (no aliasing), however x and y overlap.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
using namespace vif;
using vp::Tape;
using V = std::vector<int>;

static int apply(int op, int a, int b) {
    switch (op) { case 0: return b; case 1: return a + b; case 2: return a - b; case 3: return a*b; default: return a/b; }
}
// perform `x op y` on the real objects
template<class X, class Y> void perform(int op, X&& x, const Y& y) {
    switch (op) { case 0: x = y; break; case 1: x += y; break; case 2: x -= y; break; case 3: x *= y; break; default: x /= y; }
}
template<class X, class Y> void perform_nz(int op, X&& x, const Y& y) { perform(op, std::forward<X>(x), y); }
static V values(Tape& t, size_t n) { V v(n); for (auto& x : v) { x = int(t.range(1, 30)); if (t.chance(1, 3)) x = -x; } return v; }
static std::vector<size_t> positions(Tape& t, size_t n, size_t k) { std::vector<size_t> p(k); for (auto& x : p) x = t.draw(n); return p; }
static std::vector<size_t> perm(Tape& t, size_t n) { std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0); for (size_t i = n; i > 1; --i) std::swap(p[i-1], p[t.draw(i)]); return p; }

// A selection of a 1D vector of size n: positions and the way to obtain the view
struct Sel { int kind; size_t a, b; std::vector<size_t> ids; std::vector<size_t> pos; int k2; std::vector<size_t> ids2; };
static Sel gen_sel(Tape& t, size_t n, size_t want) {
    Sel s; s.kind = 0; s.a = s.b = 0; s.k2 = 0;
    std::vector<int> kinds{0}; if (want == n) kinds.push_back(1); kinds.push_back(2); kinds.push_back(3);
    s.kind = t.pick(kinds);
    switch (s.kind) {
    case 0: s.ids = t.coin() && want <= n ? perm(t, n) : positions(t, n, want); s.ids.resize(want); s.pos = s.ids; break;
    case 1: s.pos.resize(n); std::iota(s.pos.begin(), s.pos.end(), 0); break;
    case 2: if (want > n) { s.kind = 0; s.ids = positions(t, n, want); s.pos = s.ids; } else { s.a = t.draw(n - want + 1); s.b = s.a + want - 1; for (size_t i = s.a; i <= s.b; ++i) s.pos.push_back(i); } break;
    case 3: { // view of a view
        size_t m = want + t.draw(3); s.ids = positions(t, n, m); s.ids2 = positions(t, m, want); s.k2 = t.draw(3);
        if (s.k2 == 1) { s.ids.resize(want); s.pos = s.ids; }
        else if (s.k2 == 2) { s.b = t.draw(m - want + 1); for (size_t i = 0; i < want; ++i) s.pos.push_back(s.ids[s.b + i]); }
        else for (auto q : s.ids2) s.pos.push_back(s.ids[q]);
        break; }
    }
    return s;
}
static std::string txt(const Sel& s) {
    switch (s.kind) { case 0: return "v[" + vp::show(s.ids) + "]"; case 1: return "v[_]"; case 2: return "v[" + vp::show(s.a) + "-_-" + vp::show(s.b) + "]";
    default: return "v[" + vp::show(s.ids) + "][" + (s.k2 == 1 ? std::string("_") : s.k2 == 2 ? vp::show(s.b) + "-_-.." : vp::show(s.ids2)) + "]"; }
}
template<class A> const A& pick_ref(A&, const A& c, std::true_type) { return c; }
template<class A> A& pick_ref(A& a, const A&, std::false_type) { return a; }
template<class W, class F> void with_view(W& v, const Sel& s, F&& f) {
    switch (s.kind) {
    case 0: f(v[vp::mk<uint_t>(s.ids)]); break;
    case 1: f(v[_]); break;
    case 2: f(v[s.a - _ - s.b]); break;
    default: { auto w = v[vp::mk<uint_t>(s.ids)]; const auto& cw = w; constexpr bool C = std::is_const<W>::value; auto& rw = pick_ref(w, cw, std::integral_constant<bool,C>()); if (s.k2 == 1) f(rw[_]); else if (s.k2 == 2) f(rw[s.b - _ - (s.b + s.pos.size() - 1)]); else f(w[vp::mk<uint_t>(s.ids2)]); }
    }
}
SUB("view-from-view", 6) {
    size_t n = 1 + t.size(0, 7), k = 1 + t.draw(5); auto x = values(t, n); auto v = vp::mk<int>(x); const auto& cv = v;
    Sel l = gen_sel(t, n, k), r = gen_sel(t, n, k); int op = t.draw(5); bool cst = t.coin();
    t.note("n=", n, " v=", vp::show(x), "\nlhs ", txt(l), " op ", op, " rhs ", cst ? "const " : "", txt(r));
    V y; for (auto p : r.pos) y.push_back(x[p]); V m = x;
    bool ok = true; if (op == 4) { V z = m; for (size_t i = 0; i < k && ok; ++i) { if (y[i] == 0) ok = false; } }
    if (!ok) throw vp::Discard();
    for (size_t i = 0; i < k; ++i) m[l.pos[i]] = apply(op, m[l.pos[i]], y[i]);
    with_view(v, l, [&](auto lv) { if (cst) with_view(cv, r, [&](auto rv) { perform(op, lv, rv); }); else with_view(v, r, [&](auto rv) { perform(op, lv, rv); }); });
    CHECK(vp::tov(v) == m, "got ", vp::tov(v), " expected ", m);
    std::set<size_t> ov(l.pos.begin(), l.pos.end()); for (auto p : r.pos) if (ov.count(p)) { t.nontrivial(); break; }
}
SUB("view-from-vector", 4) { // v[...] op= v or another vector / a literal list / a scalar element of itself
    size_t n = 1 + t.size(0, 7); auto x = values(t, n); auto v = vp::mk<int>(x); V m = x; int op = t.draw(5); Sel l = gen_sel(t, n, n); int what = t.draw(3);
    t.note("v=", vp::show(x), " lhs ", txt(l), " op ", op, " rhs kind ", what);
    V y; size_t e = t.draw(n); auto o = values(t, n);
    if (what == 0) y = x; else if (what == 1) y = o; else y.assign(n, x[e]);
    for (size_t i = 0; i < n; ++i) m[l.pos[i]] = apply(op, m[l.pos[i]], y[i]);
    auto ov = vp::mk<int>(o);
    with_view(v, l, [&](auto lv) { if (what == 0) perform(op, lv, v); else if (what == 1) perform(op, lv, ov); else switch (op) { case 0: lv = int(v[e]); break; case 1: lv += v[e]; break; case 2: lv -= v[e]; break; case 3: lv *= v[e]; break; default: lv /= v[e]; } });
    CHECK(vp::tov(v) == m, "got ", vp::tov(v), " expected ", m); CHECK(vp::tov(ov) == o);
    if (n > 1) t.nontrivial();
}
SUB("vector-from-view", 4) { // v op= view of v
    size_t n = 1 + t.size(0, 7); auto x = values(t, n); auto v = vp::mk<int>(x); const auto& cv = v; int op = t.draw(5); bool cst = t.coin();
    Sel r = gen_sel(t, n, op == 0 ? 1 + t.draw(n + 3) : n); V y; for (auto p : r.pos) y.push_back(x[p]);
    t.note("v=", vp::show(x), " op ", op, " rhs ", cst ? "const " : "", txt(r));
    V m = x; if (op == 0) m = y; else for (size_t i = 0; i < n; ++i) m[i] = apply(op, m[i], y[i]);
    if (cst) with_view(cv, r, [&](auto rv) { perform(op, v, rv); }); else with_view(v, r, [&](auto rv) { perform(op, v, rv); });
    CHECK(vp::tov(v) == m, "got ", vp::tov(v), " expected ", m); vp::valid(v, "after assignment");
    if (n > 1) t.nontrivial();
}
SUB("vector-self-scalar", 2) { // v op= v[k], v op= v
    size_t n = 1 + t.size(0, 7); auto x = values(t, n); auto v = vp::mk<int>(x); size_t k = t.draw(n); int op = 1 + t.draw(4); bool whole = t.coin();
    t.note("v=", vp::show(x), " op ", op, whole ? " v" : " v[k] k=", k);
    V m = x; for (size_t i = 0; i < n; ++i) m[i] = apply(op, x[i], whole ? x[i] : x[k]);
    if (whole) perform(op, v, v); else switch (op) { case 1: v += v[k]; break; case 2: v -= v[k]; break; case 3: v *= v[k]; break; default: v /= v[k]; }
    CHECK(vp::tov(v) == m, "got ", vp::tov(v), " expected ", m);
    if (n > 1) t.nontrivial();
}
SUB("size-mismatch", 1) { // sizes that differ are an error and nothing is written
    size_t n = 2 + t.size(0, 6), k = 1 + t.draw(n), k2 = 1 + t.draw(n); auto x = values(t, n); auto v = vp::mk<int>(x); int op = t.draw(5);
    auto p = positions(t, n, k); auto q = positions(t, n, k2); t.note("op ", op, " ", k, " <- ", k2);
    bool err = vp::errors([&] { perform(op, v[vp::mk<uint_t>(p)], v[vp::mk<uint_t>(q)]); });
    CHECK(err == (k != k2), k, " <- ", k2); if (err) CHECK(vp::tov(v) == x, "a rejected assignment changed the vector");
    if (err) t.nontrivial();
}
template<class F> void with2(Tape& t, size_t n, F&& f) {
    std::vector<size_t> p;
    switch (t.draw(4)) {
    case 0: { for (size_t i = 0; i < n; ++i) p.push_back(i); f(_, p); break; }
    case 1: { uint_t a = t.draw(n); for (size_t i = a; i < n; ++i) p.push_back(i); f(a - _, p); break; }
    case 2: { uint_t a = t.draw(n); for (size_t i = 0; i <= a; ++i) p.push_back(i); f(_ - a, p); break; }
    default: { p = perm(t, n); p.resize(1 + t.draw(n)); f(vp::mk<uint_t>(p), p); }
    }
}
SUB("view-2d", 5) { // 2D views: transposed/shifted blocks of the same matrix
    std::array<size_t,2> d{{1 + t.size(0, 3), 1 + t.size(0, 3)}}; auto x = values(t, vp::prod(d)); auto v = vp::mkd<2,int>(d, x); int op = t.draw(5);
    with2(t, d[0], [&](auto const& i, auto p) { with2(t, d[1], [&](auto const& j, auto q) {
        // rhs: same shape, other rows and columns
        auto p2 = positions(t, d[0], p.size()), q2 = positions(t, d[1], q.size()); int what = t.draw(3);
        t.note("dims ", vp::show(d), " rows ", vp::show(p), " cols ", vp::show(q), " op ", op, " kind ", what, " from ", vp::show(p2), vp::show(q2));
        V m = x; int s = t.range(1, 9); auto o = values(t, p.size()*q.size()); auto ov = vp::mkd<2,int>({{p.size(), q.size()}}, o);
        for (size_t a = 0; a < p.size(); ++a) for (size_t b = 0; b < q.size(); ++b) {
            int y = what == 0 ? x[p2[a]*d[1] + q2[b]] : what == 1 ? o[a*q.size() + b] : s; int& z = m[p[a]*d[1] + q[b]]; z = apply(op, z, y); }
        if (what == 0) perform(op, v(i, j), v(vp::mk<uint_t>(p2), vp::mk<uint_t>(q2))); else if (what == 1) perform(op, v(i, j), ov); else perform(op, v(i, j), s);
        CHECK(vp::tov(v) == m, "got ", vp::tov(v), " expected ", m); CHECK(v.dims == d);
        // reading back
        auto w = v(i, j).concretise(); vp::valid(w, "concretised view"); size_t c = 0; for (size_t a = 0; a < p.size(); ++a) for (size_t b = 0; b < q.size(); ++b) CHECK(w[c++] == m[p[a]*d[1] + q[b]]);
        // row/column views
        size_t r0 = t.draw(d[0]), c0 = t.draw(d[1]); auto row = v(r0, _); auto col = v(_, c0);
        for (size_t b = 0; b < d[1]; ++b) CHECK(row[b] == m[r0*d[1] + b]); for (size_t a = 0; a < d[0]; ++a) CHECK(col[a] == m[a*d[1] + c0]);
        row[c0] = 4242; CHECK(col[r0] == 4242 && v(r0, c0) == 4242, "views share the element");
        if (p.size()*q.size() > 1) t.nontrivial();
    }); });
}
SUB("flatten-view", 1) { // flattened / reformed views still refer to the original
    std::array<size_t,2> d{{1 + t.size(0, 3), 1 + t.size(0, 3)}}; auto x = values(t, vp::prod(d)); auto v = vp::mkd<2,int>(d, x); auto m = x;
    auto f = flatten(v(_, _)); size_t k = t.draw(x.size()); f[k] = 777; m[k] = 777; CHECK(vp::tov(v) == m);
    auto g = reform(v[_], d[1], d[0]); g(d[1]-1, d[0]-1) = 888; m.back() = 888; CHECK(vp::tov(v) == m);
    auto r = perm(t, x.size()); V y; for (auto q : r) y.push_back(m[q]); flatten(v(_, _)) = flatten(v(_, _))[vp::mk<uint_t>(r)]; CHECK(vp::tov(v) == y, "permutation through flattened views: ", vp::tov(v), " expected ", y);
    t.note("dims ", vp::show(d), " perm ", vp::show(r)); if (x.size() > 1) t.nontrivial();
}
SUB("where-update", 1) { // masked update touches exactly the true positions
    size_t n = t.size(0, 10); auto x = values(t, n); auto v = vp::mk<int>(x); int c = t.range(-10, 10); V m = x;
    v[where(v < c)] = c; for (auto& q : m) if (q < c) q = c; CHECK(vp::tov(v) == m); v[where(v > c)] -= 1; for (auto& q : m) if (q > c) q -= 1; CHECK(vp::tov(v) == m);
    if (n > 1) t.nontrivial(); t.note(vp::show(x), " threshold ", c);
}
