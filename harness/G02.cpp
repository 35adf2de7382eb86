// G02: functions that rearrange vectors (reverse, shift, transpose, replicate, remove, append, prepend,
// flatten, reform) put every element where a reference model puts it, and report incompatible shapes.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
using namespace vif;
using vp::Tape;
using V = std::vector<int>;
static V seqv(Tape& t, size_t n) { int b = t.range(0, 99); V v(n); for (size_t i = 0; i < n; ++i) v[i] = b + 7*int(i); return v; }
static V gen1(Tape& t, size_t mx) { return vp::ints<int>(t, t.size(0, mx), -99, 99); }

SUB("reverse-shift", 3) {
    V x = gen1(t, 12); auto v = vp::mk<int>(x); V r(x.rbegin(), x.rend()); vp::expect1(reverse(v), r, "reverse"); vp::expect1(v, x, "reverse leaves its argument");
    int64_t n = x.size(), k = t.range(-30, 30); V w(x.size()); for (int64_t i = 0; i < n; ++i) w[((i + k)%n + n)%n] = x[i]; t.note(vp::show(x), " shift ", k);
    vp::expect1(shift(v, k), w, "shift"); vp::expect1(v, x, "shift leaves its argument"); auto u = v; inplace_shift(u, k); vp::expect1(u, w, "inplace_shift"); vp::expect1(shift(shift(v, k), -k), x, "shift and back");
    if (n > 1 && k%n != 0) t.nontrivial();
}
SUB("transpose", 2) {
    std::array<size_t,2> d{{t.size(0, 6), t.size(0, 6)}}; V x = seqv(t, vp::prod(d)); auto v = vp::mkd<2,int>(d, x); auto r = transpose(v); V w; for (size_t j = 0; j < d[1]; ++j) for (size_t i = 0; i < d[0]; ++i) w.push_back(x[i*d[1] + j]);
    vp::expect(r, std::array<size_t,2>{{d[1], d[0]}}, w, "transpose"); vp::expect(transpose(r), d, x, "transpose twice"); t.note("dims ", vp::show(d)); if (d[0] > 1 && d[1] > 1) t.nontrivial();
}
SUB("replicate", 2) {
    V x = gen1(t, 4); auto v = vp::mk<int>(x); size_t a = t.size(0, 4), b = t.size(0, 3); t.note(vp::show(x), " x ", a, "x", b); V w; for (size_t i = 0; i < a; ++i) w.insert(w.end(), x.begin(), x.end());
    vp::expect(replicate(v, a), std::array<size_t,2>{{a, x.size()}}, w, "replicate(v, n)"); vp::expect(replicate(v[_], a), std::array<size_t,2>{{a, x.size()}}, w, "replicate(view, n)");
    V w2; for (size_t i = 0; i < a*b; ++i) w2.insert(w2.end(), x.begin(), x.end()); vp::expect(replicate(v, a, b), std::array<size_t,3>{{a, b, x.size()}}, w2, "replicate(v, n, m)");
    int s = t.range(-9, 9); vp::expect(replicate(s, a, b), std::array<size_t,2>{{a, b}}, V(a*b, s), "replicate(scalar)"); std::string st = "q"; vp::expect1(replicate(st, a), std::vector<std::string>(a, st), "replicate(string)");
    if (a > 1 && x.size() > 1) t.nontrivial();
}
template<size_t D> void do_remove(Tape& t, std::array<size_t,D> d) {
    V x = seqv(t, vp::prod(d)); auto v = vp::mkd<D,int>(d, x); size_t pitch = 1; for (size_t i = 1; i < D; ++i) pitch *= d[i];
    size_t k = t.size(0, std::min<size_t>(d[0] + 1, 6)); std::vector<size_t> ids(k); for (auto& q : ids) q = t.draw(d[0] + (t.chance(1, 12) ? 2 : 0) + (d[0] == 0));
    if (t.chance(3, 4)) { std::vector<size_t> u; for (auto q : ids) if (std::find(u.begin(), u.end(), q) == u.end()) u.push_back(q); ids = u; }
    std::set<size_t> s(ids.begin(), ids.end()); bool dup = s.size() != ids.size(), oob = false; for (auto q : ids) if (q >= d[0]) oob = true;
    t.note("dims ", vp::show(d), " remove ", vp::show(ids)); vec<D,int> r; bool err = vp::errors([&] { r = vif::remove(v, vp::mk<uint_t>(ids)); });
    CHECK(err == (dup || oob), "remove ", ids, " from dims ", d, err ? " rejected" : " accepted"); vp::expect(v, d, x, "remove leaves its argument");
    if (err) return; V w; for (size_t i = 0; i < d[0]; ++i) if (!s.count(i)) w.insert(w.end(), x.begin() + i*pitch, x.begin() + (i + 1)*pitch); auto wd = d; wd[0] -= ids.size();
    vp::expect(r, wd, w, "remove"); inplace_remove(v, vp::mk<uint_t>(ids)); vp::expect(v, wd, w, "inplace_remove"); if (!ids.empty() && ids.size() < d[0]) t.nontrivial();
}
SUB("remove-1d", 3) { do_remove<1>(t, {{t.size(0, 10)}}); }
SUB("remove-2d", 2) { do_remove<2>(t, {{t.size(0, 5), t.size(1, 4)}}); }
SUB("remove-3d", 1) { do_remove<3>(t, {{t.size(0, 4), t.size(1, 3), t.size(1, 3)}}); }
SUB("append-1d", 3) {
    V x = gen1(t, 8), y = gen1(t, 8); auto a = vp::mk<int>(x), b = vp::mk<int>(y); t.note(vp::show(x), vp::show(y)); V w = x; w.insert(w.end(), y.begin(), y.end()); V p = y; p.insert(p.end(), x.begin(), x.end());
    auto u = a; append(u, b); vp::expect1(u, w, "append"); u = a; prepend(u, b); vp::expect1(u, p, "prepend"); vp::expect1(b, y, "argument unchanged"); u = a; append(u, b[_]); vp::expect1(u, w, "append(view)"); u = a; prepend(u, b[_]); vp::expect1(u, p, "prepend(view)");
    V ww = x; ww.insert(ww.end(), x.begin(), x.end()); u = a; append(u, u); vp::expect1(u, ww, "append to itself"); u = a; prepend(u, u); vp::expect1(u, ww, "prepend to itself"); u = a; append(u, u[_]); vp::expect1(u, ww, "append a view of itself"); u = a; prepend(u, u[_]); vp::expect1(u, ww, "prepend a view of itself");
    vec<1,double> dv = a; append(dv, b); vp::expect1(dv, std::vector<double>(w.begin(), w.end()), "append of another type"); if (x.size() && y.size()) t.nontrivial();
}
template<size_t N, size_t D> void do_append(Tape& t) {
    std::array<size_t,D> d, e; for (auto& q : d) q = t.size(1, 3); e = d; e[N] = t.size(0, 3); if (t.chance(1, 12)) d[N] = 0; bool mism = t.chance(1, 5); if (mism) { size_t k = t.draw(D); if (k == N) k = (k + 1)%D; e[k] += 1; if (t.coin() && D > 2) { size_t k2 = 3 - N - k; std::swap(e[k], e[k2]); e = d; std::swap(e[k], e[k2]); if (e == d) e[k] += 1; e[N] = d[N] ? d[N] : 1; } }
    V x = seqv(t, vp::prod(d)), y = seqv(t, vp::prod(e)); auto a = vp::mkd<D,int>(d, x); auto b = vp::mkd<D,int>(e, y); bool pre = t.coin(), view = t.coin(), self = t.chance(1, 8); t.note(pre ? "prepend<" : "append<", N, "> ", vp::show(d), " ", vp::show(e), view ? " view" : "", self ? " self" : "");
    if (self) { e = d; y = x; mism = false; }
    bool ok = true; for (size_t i = 0; i < D; ++i) if (i != N && d[i] != e[i]) ok = false; if (x.empty() || y.empty()) ok = true;
    bool err = vp::errors([&] { if (self) { if (pre) prepend<N>(a, a); else append<N>(a, a); } else if (view) { if (pre) prepend<N>(a, b(repeat<D>(_))); else append<N>(a, b(repeat<D>(_))); } else { if (pre) prepend<N>(a, b); else append<N>(a, b); } });
    CHECK(err == !ok, pre ? "prepend " : "append ", e, " to ", d, err ? " rejected" : " accepted"); if (err) return;
    if (x.empty()) { vp::expect(a, e, y, "append to an empty vector"); return; } if (y.empty()) { vp::expect(a, d, x, "append an empty vector"); return; }
    auto r = d; r[N] += e[N]; CHECK(vp::dimsv(a) == std::vector<size_t>(r.begin(), r.end()), "dims ", vp::dimsv(a), " expected ", r); vp::valid(a, "append");
    std::array<size_t,D> it; for (size_t f = 0; f < vp::prod(r); ++f) { size_t q = f; for (size_t k = D; k-- > 0; ) { it[k] = q%r[k]; q /= r[k]; }
        size_t first = pre ? e[N] : d[N]; bool infirst = it[N] < first; bool from_a = pre ? !infirst : infirst; auto& dd = from_a ? d : e; auto jt = it; if (!infirst) jt[N] -= first; size_t s = 0; for (size_t k = 0; k < D; ++k) s = s*dd[k] + jt[k];
        CHECK(a.data[f] == (from_a ? x : y)[s], "element ", f, " of ", V(a.data)); }
    t.nontrivial();
}
SUB("append-2d", 3) { if (t.coin()) do_append<0,2>(t); else do_append<1,2>(t); }
SUB("append-3d", 3) { switch (t.draw(3)) { case 0: do_append<0,3>(t); break; case 1: do_append<1,3>(t); break; default: do_append<2,3>(t); } }
SUB("flatten-reform", 2) {
    std::array<size_t,3> d{{t.size(0, 3), t.size(0, 3), t.size(0, 3)}}; V x = seqv(t, vp::prod(d)); auto v = vp::mkd<3,int>(d, x); vp::expect1(flatten(v), x, "flatten"); vp::expect1(flatten(v(_, _, _)).concretise(), x, "flatten(view)"); size_t a = t.size(0, 9), b = t.size(0, 9); if (t.coin() && x.size()) { a = 1 + t.draw(x.size()); b = x.size()/a; }
    vec<2,int> r; bool err = vp::errors([&] { r = reform(v, a, b); }); CHECK(err == (a*b != x.size()), "reform ", d, " to ", a, "x", b); if (!err) vp::expect(r, std::array<size_t,2>{{a, b}}, x, "reform"); t.note("dims ", vp::show(d), " to ", a, " ", b); if (!err && x.size() > 1) t.nontrivial();
}
