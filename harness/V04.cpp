// V04: an operator or vectorised function applied to vectors gives, element by element, the scalar
// result, for vectors, temporaries, views and scalars on either side; differing dimensions are an error.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/utility/string.hpp>
using namespace vif;
using vp::Tape;

template<size_t D, class T> struct Op { // one operand in several guises
    std::array<size_t,D> d; std::vector<T> x; int kind; T s; size_t pad;
    T at(size_t i) const { return kind == 3 ? s : x[i]; }
};
static int gv(Tape& t, int*, bool nz) { int r = t.range(-20, 20); return nz && r == 0 ? 7 : r; }
static double gv(Tape& t, double*, bool nz) { double r = vp::gen_double(t, true); return r; }
static float gv(Tape& t, float*, bool nz) { return float(t.range(-40, 40))/4; }
static unsigned gv(Tape& t, unsigned*, bool nz) { return t.range(nz ? 1 : 0, 40); }
template<size_t D, class T> Op<D,T> operand(Tape& t, std::array<size_t,D> d, bool scalar_ok, bool nz) {
    Op<D,T> o; o.d = d; o.kind = t.draw(scalar_ok ? 4 : 3); o.s = gv(t, (T*)nullptr, nz); o.pad = t.draw(3);
    o.x.resize(vp::prod(d)); for (auto& q : o.x) q = gv(t, (T*)nullptr, nz); return o;
}
// kinds: 0 lvalue vector, 1 temporary, 2 view, 3 scalar
template<size_t D, class T, class F> auto use(const Op<D,T>& o, F&& f) {
    auto v = vp::mkd<D,T>(o.d, o.x);
    return f(v);
}
template<class R, class A, class B, size_t D, class F, class S>
void binary(Tape& t, const char* name, F&& f, S&& sc, bool nz, bool need_same = true) {
    std::array<size_t,D> d; for (auto& q : d) q = t.size(0, 3);
    auto a = operand<D,A>(t, d, true, false); auto d2 = d; bool mism = t.chance(1, 6); if (mism) d2[t.draw(D)] += 1;
    auto b = operand<D,B>(t, d2, a.kind != 3, nz);
    if (a.kind == 3 || b.kind == 3) { mism = false; b.d = d; b.x.resize(vp::prod(d), b.s); }
    t.note(name, " kinds ", a.kind, ",", b.kind, " dims ", vp::show(d), " ", vp::show(a.x), " ", vp::show(b.x), " s ", a.s, " ", b.s);
    vec<D,R> r; auto va = vp::mkd<D,A>(a.d, a.x); auto vb = vp::mkd<D,B>(b.d, b.x);
    auto fa = flatten(va); auto fb = flatten(vb);
    bool err = vp::errors([&] {
        auto wa = reform(fa[_], a.d); auto wb = reform(fb[_], b.d);
        switch (a.kind*4 + b.kind) {
        case 0: r = f(va, vb); break; case 1: r = f(va, vec<D,B>(vb)); break; case 2: r = f(va, wb); break; case 3: r = f(va, b.s); break;
        case 4: r = f(vec<D,A>(va), vb); break; case 5: r = f(vec<D,A>(va), vec<D,B>(vb)); break; case 6: r = f(vec<D,A>(va), wb); break; case 7: r = f(vec<D,A>(va), b.s); break;
        case 8: r = f(wa, vb); break; case 9: r = f(wa, vec<D,B>(vb)); break; case 10: r = f(wa, wb); break; case 11: r = f(wa, b.s); break;
        case 12: r = f(a.s, vb); break; case 13: r = f(a.s, vec<D,B>(vb)); break; default: r = f(a.s, wb); break;
        }
    });
    CHECK(err == mism, name, ": dims ", a.d, " and ", b.d, err ? " rejected" : " accepted");
    CHECK(vp::tov(va) == vp::tov(vp::mkd<D,A>(a.d, a.x)) || true);
    for (size_t i = 0; i < a.x.size(); ++i) CHECK(va.data[i] == a.x[i] || a.x[i] != a.x[i], name, ": operand modified");
    for (size_t i = 0; i < b.x.size(); ++i) CHECK(vb.data[i] == b.x[i] || b.x[i] != b.x[i], name, ": operand modified");
    if (mism) { t.label("mismatch"); return; }
    std::vector<R> w; for (size_t i = 0; i < vp::prod(d); ++i) w.push_back(R(sc(a.at(i), b.at(i))));
    vp::expect(r, d, w, name);
    if (w.size() > 1) t.nontrivial();
}
#define BIN(R, A, B, D, op, nz) binary<R,A,B,D>(t, #A #op #B, [](auto&& x, auto&& y) { return std::forward<decltype(x)>(x) op std::forward<decltype(y)>(y); }, [](A x, B y) { return x op y; }, nz)
SUB("arith-int", 4) { switch (t.draw(5)) { case 0: BIN(int,int,int,2,+,false); break; case 1: BIN(int,int,int,2,-,false); break; case 2: BIN(int,int,int,2,*,false); break; case 3: BIN(int,int,int,2,/,true); break; default: BIN(int,int,int,2,%,true); } }
SUB("arith-double", 4) { switch (t.draw(4)) { case 0: BIN(double,double,double,2,+,false); break; case 1: BIN(double,double,double,2,-,false); break; case 2: BIN(double,double,double,2,*,false); break; default: BIN(double,double,double,2,/,false); } }
SUB("arith-mixed", 3) { switch (t.draw(6)) { case 0: BIN(double,double,int,1,+,false); break; case 1: BIN(double,int,double,1,-,false); break; case 2: BIN(float,float,int,1,*,false); break; case 3: BIN(double,float,double,1,/,false); break; case 4: BIN(unsigned,unsigned,unsigned,1,%,true); break; default: BIN(float,int,float,1,-,false); } }
SUB("compare", 4) { switch (t.draw(6)) { case 0: BIN(bool,int,int,2,<,false); break; case 1: BIN(bool,int,int,2,<=,false); break; case 2: BIN(bool,double,double,2,>,false); break; case 3: BIN(bool,double,double,2,>=,false); break; case 4: BIN(bool,double,int,2,==,false); break; default: BIN(bool,int,double,2,!=,false); } }
SUB("logic", 3) {
    std::array<size_t,2> d{{t.size(0, 3), t.size(0, 3)}}; std::vector<char> a(vp::prod(d)), b(a.size()); for (auto& q : a) q = t.coin(); for (auto& q : b) q = t.coin(); bool s = t.coin();
    auto mkb = [&](const std::vector<char>& x) { vec<2,bool> v(d); for (size_t i = 0; i < x.size(); ++i) v.data[i] = x[i]; return v; };
    auto va = mkb(a), vb = mkb(b); auto fa = flatten(va), fb = flatten(vb); auto wa = reform(fa[_], d); auto wb = reform(fb[_], d);
    auto chk = [&](const vec<2,bool>& r, auto f, const char* n) { vp::valid(r, n); CHECK(r.dims == d); for (size_t i = 0; i < a.size(); ++i) CHECK(bool(r.data[i]) == f(bool(a[i]), bool(b[i])), n, " element ", i); t.evals(1); };
    auto AND = [](bool x, bool y) { return x && y; }; auto OR = [](bool x, bool y) { return x || y; };
    chk(va && vb, AND, "v&&v"); chk(mkb(a) && vb, AND, "t&&v"); chk(va && mkb(b), AND, "v&&t"); chk(mkb(a) && mkb(b), AND, "t&&t"); chk(wa && vb, AND, "w&&v"); chk(va && wb, AND, "v&&w"); chk(mkb(a) && wb, AND, "t&&w");
    chk(va || vb, OR, "v||v"); chk(mkb(a) || vb, OR, "t||v"); chk(va || mkb(b), OR, "v||t"); chk(mkb(a) || mkb(b), OR, "t||t"); chk(wa || wb, OR, "w||w");
    chk(va && s, [&](bool x, bool) { return x && s; }, "v&&s"); chk(s && mkb(b), [&](bool, bool y) { return s && y; }, "s&&t"); chk(mkb(a) || s, [&](bool x, bool) { return x || s; }, "t||s"); chk(s || vb, [&](bool, bool y) { return s || y; }, "s||v");
    chk(!va, [](bool x, bool) { return !x; }, "!v"); chk(!mkb(a), [](bool x, bool) { return !x; }, "!t"); chk(!wa, [](bool x, bool) { return !x; }, "!w");
    vec<2,bool> c(d[0] + 1, d[1]); CHECK(vp::errors([&] { va && c; })); CHECK(vp::errors([&] { va || c; })); CHECK(vp::errors([&] { mkb(a) || c; })); CHECK(vp::errors([&] { mkb(a) && vec<2,bool>(c); }));
    t.note("dims ", vp::show(d), vp::show(a), vp::show(b)); if (a.size() > 1) t.nontrivial();
}
SUB("negate-strings", 1) {
    size_t n = t.size(0, 6); auto x = vp::ints<int>(t, n, -20, 20); auto v = vp::mk<int>(x); std::vector<int> m; for (auto q : x) m.push_back(-q);
    vp::expect1(-v, m, "-v"); vp::expect1(-v[_], m, "-view"); vp::expect1(+v, x, "+v"); vp::expect1(v, x, "operand unchanged");
    std::vector<std::string> s; for (size_t i = 0; i < n; ++i) s.push_back(std::string(t.draw(4), char('a' + t.draw(5)))); auto vs = vp::mk<std::string>(s);
    std::vector<std::string> l, r, b; for (auto& q : s) { l.push_back("x_" + q); r.push_back(q + "_y"); b.push_back(q + q); }
    vp::expect1("x_" + vs, l, "string + v"); vp::expect1(vs + "_y", r, "v + string"); vp::expect1(vs + vs, b, "v + v"); vp::expect1(std::string("x_") + vs, l, "string + v"); vp::expect1(vec1s(vs) + std::string("_y"), r, "temp + string");
    vp::expect1(std::string("x_") + vec1s(vs), l, "string + temp");
    if (n > 1) t.nontrivial(); t.note(vp::show(x), vp::show(s));
}
// vectorised mathematical functions
template<class F, class S> void unary(Tape& t, const char* name, const std::vector<double>& x, std::array<size_t,2> d, F&& f, S&& s) {
    auto v = vp::mkd<2,double>(d, x); auto fl = flatten(v); std::vector<double> w; for (auto q : x) w.push_back(double(s(q)));
    auto chk = [&](auto const& r, const char* k) { CHECK(r.dims == d, name, k); CHECK(r.size() == w.size(), name, k); for (size_t i = 0; i < w.size(); ++i) CHECK(vp::same(double(r.safe[i]), w[i]), name, k, " of ", x[i], " is ", double(r.safe[i]), " expected ", w[i]); t.evals(1); };
    chk(f(v), " (vector)"); chk(f(vec<2,double>(v)), " (temporary)"); chk(f(reform(fl[_], d)), " (view)");
    for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(v.data[i], x[i]), name, ": argument modified");
}
#define UN(fn, ref) unary(t, #fn, x, d, [&](auto&& v) { return vif::fn(std::forward<decltype(v)>(v)); }, [&](double q) { return ref; })
SUB("functions", 3) {
    std::array<size_t,2> d{{t.size(0, 3), t.size(0, 3)}}; auto x = vp::doubles(t, vp::prod(d), true);
    UN(abs, std::fabs(q)); UN(sqrt, std::sqrt(q)); UN(cos, std::cos(q)); UN(exp, std::exp(q)); UN(log, std::log(q)); UN(floor, std::floor(q)); UN(ceil, std::ceil(q)); UN(round, std::round(q));
    UN(is_finite, std::isfinite(q)); UN(is_nan, std::isnan(q)); UN(sqr, q*q); UN(invsqr, 1.0/(q*q)); UN(tan, std::tan(q)); UN(atan, std::atan(q)); UN(log10, std::log10(q)); UN(sin, std::sin(q)); UN(asin, std::asin(q)); UN(acos, std::acos(q)); UN(cosh, std::cosh(q)); UN(sinh, std::sinh(q)); UN(tanh, std::tanh(q)); UN(sign, q >= 0 ? 1 : -1);
    UN(acosh, std::acosh(q)); UN(asinh, std::asinh(q)); UN(atanh, std::atanh(q)); UN(log2, std::log2(q)); UN(erf, std::erf(q)); UN(erfc, std::erfc(q)); UN(tgamma, std::tgamma(q)); UN(bessel_j0, ::j0(q)); UN(bessel_j1, ::j1(q)); UN(e10, std::exp(vif::ln10*q));
    auto v = vp::mkd<2,double>(d, x); double e = t.range(-3, 3); auto p = pow(v, e); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(p.safe[i], std::pow(x[i], e)), "pow"); CHECK(p.dims == d);
    auto p2 = pow(e, v); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(p2.safe[i], std::pow(e, x[i])), "pow(scalar, v)");
    { auto p3 = pow(e, vec<2,double>(v)); CHECK(p3.dims == d); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(p3.safe[i], std::pow(e, x[i])), "pow(scalar, temporary)"); auto f = fmod(v, e), f2 = fmod(vec<2,double>(v), e); CHECK(f.dims == d && f2.dims == d); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(f.safe[i], std::fmod(x[i], e)) && vp::same(f2.safe[i], f.safe[i]), "fmod"); auto n = vp::ints<int>(t, x.size(), -9, 9); auto vn = vp::mkd<2,int>(d, n); auto q = pow(2.0, vn); static_assert(std::is_same<typename std::decay<decltype(q.safe[0])>::type, double>::value, "type of pow"); CHECK(q.dims == d); for (size_t i = 0; i < n.size(); ++i) CHECK(vp::same(q.safe[i], std::pow(2.0, n[i])), "pow(2, integers)"); auto iq = sqr(vn); for (size_t i = 0; i < n.size(); ++i) CHECK(iq.safe[i] == n[i]*n[i], "sqr(integers)"); auto g = sqrt(vn); for (size_t i = 0; i < n.size(); ++i) CHECK(vp::same(double(g.safe[i]), std::sqrt(double(n[i]))), "sqrt(integers)"); auto pv = pow(vn, 0.5); for (size_t i = 0; i < n.size(); ++i) CHECK(vp::same(double(pv.safe[i]), std::pow(double(n[i]), 0.5)), "pow(integers, 0.5)"); }
    { double a = -86.5 + 174*t.unit(); CHECK(vp::near(vif::fast_exp(float(a)), std::exp(double(float(a))), 4e-3), "fast_exp(", a, ") = ", vif::fast_exp(float(a))); }
    { auto y = vp::doubles(t, x.size(), true); auto vy = vp::mkd<2,double>(d, y); auto chk2 = [&](const vec<2,double>& r) { CHECK(r.dims == d); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(r.safe[i], std::atan2(x[i], y[i])), "atan2(v, v)"); };
      chk2(atan2(v, vy)); chk2(atan2(vec<2,double>(v), vy)); chk2(atan2(v, vec<2,double>(vy))); chk2(atan2(vec<2,double>(v), vec<2,double>(vy))); }
    { auto r = atan2(e, vec<2,double>(v)); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(r.safe[i], std::atan2(e, x[i])), "atan2(s, v)"); auto r2 = atan2(vec<2,double>(v), e); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(r2.safe[i], std::atan2(x[i], e))); }
    double lo = t.range(-5, 5), hi = lo + t.draw(6); auto c = clamp(v, lo, hi); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(c.safe[i], x[i] < lo ? lo : x[i] > hi ? hi : x[i]), "clamp(", x[i], ",", lo, ",", hi, ") = ", double(c.safe[i])); CHECK(c.dims == d);
    auto a2 = atan2(v, e); for (size_t i = 0; i < x.size(); ++i) CHECK(vp::same(a2.safe[i], std::atan2(x[i], e)));
    auto w = vec<2,double>(d[0] + 1, d[1]); CHECK(vp::errors([&] { atan2(v, w); }), "atan2 on differing dimensions");
    if (x.size() > 1) t.nontrivial(); t.note("dims ", vp::show(d), " ", vp::show(x));
}
SUB("lambda", 2) { // vectorize_lambda / vectorize_lambda_first
    std::array<size_t,2> d{{t.size(0, 3), t.size(0, 3)}}; auto d2 = d; bool mism = t.chance(1, 5); if (mism) ++d2[t.draw(2)];
    auto x = vp::ints<int>(t, vp::prod(d), -9, 9), y = vp::ints<int>(t, vp::prod(d2), -9, 9); int s = t.range(-9, 9); auto vx = vp::mkd<2,int>(d, x); auto vy = vp::mkd<2,int>(d2, y);
    auto f = vectorize_lambda([](int a, int b) { return 10*a + b; }); std::vector<int> w;
    CHECK(f(3, s) == 30 + s);
    for (auto q : x) w.push_back(10*q + s); vp::expect(f(vx, s), d, w, "lambda(v, s)"); w.clear(); for (auto q : x) w.push_back(10*s + q); vp::expect(f(s, vx), d, w, "lambda(s, v)");
    vec<2,int> r; bool err = vp::errors([&] { r = f(vx, vy); }); CHECK(err == mism, "lambda dims ", d, d2);
    if (!mism) { w.clear(); for (size_t i = 0; i < x.size(); ++i) w.push_back(10*x[i] + y[i]); vp::expect(r, d, w, "lambda(v, v)"); auto fl = flatten(vx); vp::expect(vec<2,int>(f(reform(fl[_], d), vy)), d, w, "lambda(view, v)"); }
    auto g = vectorize_lambda_first([](int a, int b) { return 7*a - b; }); w.clear(); for (auto q : x) w.push_back(7*q - s); vp::expect(g(vx, s), d, w, "lambda_first(v, s)"); vp::expect(g(vec<2,int>(vx), s), d, w, "lambda_first(temp, s)"); CHECK(g(2, s) == 14 - s);
    int calls = 0, sum = 0; auto h = vectorize_lambda([&](int& a, int b) { ++calls; a += b; sum += b; }); auto vz = vx; h(vz, s); CHECK(calls == int(x.size())); w.clear(); for (auto q : x) w.push_back(q + s); vp::expect(vz, d, w, "void lambda modifies in place");
    if (x.size() > 1) t.nontrivial(); t.note("dims ", vp::show(d), vp::show(d2), vp::show(x));
}
SUB("op-assign", 2) { // v op= other: dims must match, result element-wise; type of v kept
    std::array<size_t,2> d{{t.size(0, 3), t.size(0, 3)}}; auto d2 = d; bool mism = t.chance(1, 4); if (mism) ++d2[t.draw(2)];
    auto x = vp::ints<int>(t, vp::prod(d), -30, 30), y = vp::ints<int>(t, vp::prod(d2), 1, 9); auto v = vp::mkd<2,int>(d, x); auto u = vp::mkd<2,int>(d2, y); int op = t.draw(4); std::vector<int> w = x;
    t.note("op ", op, " ", vp::show(d), vp::show(d2));
    bool err = vp::errors([&] { switch (op) { case 0: v += u; break; case 1: v -= u; break; case 2: v *= u; break; default: v /= u; } }); CHECK(err == mism, "dims ", d, d2);
    if (!mism) for (size_t i = 0; i < w.size(); ++i) switch (op) { case 0: w[i] += y[i]; break; case 1: w[i] -= y[i]; break; case 2: w[i] *= y[i]; break; default: w[i] /= y[i]; }
    vp::expect(v, d, w, "op-assign");
    auto xd = vp::doubles(t, vp::prod(d)); auto vd = vp::mkd<2,double>(d, xd); auto vi = vp::mkd<2,int>(d, x); vd += vi; vd *= 2; vd -= 0.5; for (size_t i = 0; i < xd.size(); ++i) CHECK(vp::same(vd.safe[i], (xd[i] + x[i])*2 - 0.5));
    if (w.size() > 1) t.nontrivial();
}
