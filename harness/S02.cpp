// S02: values converted to text and back: printing equals the standard formatting, reading is its inverse,
// malformed or too large text is refused, and vector forms act element by element.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
using namespace vif;
using vp::Tape; using Str = std::string;
template<class T> T gen_int(Tape& t) { using L = std::numeric_limits<T>; switch (t.draw(5)) { case 0: return T(t.draw(20)); case 1: return L::max() - T(t.draw(3)); case 2: return L::min() + T(t.draw(3)); case 3: return T(t.u64()); default: return T(t.range(-100, 100)); } }
static bool neg(long long x) { return x < 0; }
template<class T> void int_rt(Tape& t, const char* nm) {
    T x = gen_int<T>(t); Str ref = std::is_signed<T>::value ? std::to_string((long long)x) : std::to_string((unsigned long long)x); t.note(nm, " ", ref); CHECK(to_string(x) == ref, "to_string gives ", to_string(x)); T y = 77; CHECK(from_string(ref, y), "own text refused"); CHECK(y == x, "round trip gives ", y);
    CHECK(from_string("  " + ref + " \t", y) && y == x, "surrounding blanks refused"); CHECK(!from_string(ref + "a", y), "trailing letter accepted"); CHECK(!from_string(ref + ".5", y), "fraction accepted as integer"); CHECK(!from_string(ref + " 3", y), "two numbers accepted as one"); CHECK(!from_string("", y) && !from_string("  ", y) && !from_string("x" + ref, y), "not a number accepted");
    Str big = std::is_signed<T>::value ? std::to_string((long long)std::numeric_limits<T>::max()) : std::to_string((unsigned long long)std::numeric_limits<T>::max()); big += char('0' + t.draw(10)); CHECK(!from_string(big, y), "too large ", big, " accepted as ", y); if (std::is_signed<T>::value) CHECK(!from_string("-" + big, y), "too small -", big, " accepted");
    if (x > 9 || neg((long long)x)) t.nontrivial();
}
SUB("integers", 3) { switch (t.draw(6)) { case 0: int_rt<int>(t, "int"); break; case 1: int_rt<long>(t, "long"); break; case 2: int_rt<unsigned>(t, "unsigned"); break; case 3: int_rt<uint_t>(t, "uint_t"); break; case 4: int_rt<short>(t, "short"); break; default: int_rt<long long>(t, "llong"); } }
static double any_double(Tape& t) { for (;;) { double d; switch (t.draw(4)) { case 0: d = double(t.range(-1000, 1000)); break; case 1: d = vp::gen_double(t); break; case 2: d = std::ldexp(t.unit() - 0.5, int(t.range(-300, 300))); break; default: { uint64_t b = t.u64(); std::memcpy(&d, &b, 8); } } if (std::isfinite(d) && (d == 0 || std::fabs(d) > 1e-300)) return d; } }
static Str pf(const char* f, int p, double d) { char b[1200]; std::snprintf(b, sizeof b, f, p, d); return b; }
SUB("floats", 4) {
    double d = any_double(t); t.note(d); Str def = pf("%.*g", 6, d); CHECK(to_string(d) == def, "to_string gives ", to_string(d), " expected ", def); double r = -77; Str s17 = to_string(format::precision(d, 17)); CHECK(from_string(s17, r), "own text refused: ", s17); CHECK(r == d, "round trip through 17 digits gives ", r); Str sci = to_string(format::scientific(format::precision(d, 16))); CHECK(sci == pf("%.*e", 16, d), "scientific gives ", sci); CHECK(from_string(sci, r) && r == d, "round trip through scientific");
    uint_t p = t.draw(12); Str a = to_string(format::fixed(format::precision(d, p))), b = to_string(format::precision(format::fixed(d), p)); CHECK(a == pf("%.*f", p, d), "fixed gives ", a); CHECK(a == b, "order of fixed/precision matters"); CHECK(to_string(format::scientific(d)) == pf("%.*e", 6, d)); CHECK(to_string(format::fixed(d)) == pf("%.*f", 6, d)); CHECK(to_string(format::precision(d, p ? p : 1)) == pf("%.*g", p ? p : 1, d), "precision");
    std::ostringstream o; o << format::scientific(d) << "|" << d << "|" << format::precision(d, 3) << "|" << d; CHECK(o.str() == pf("%.*e", 6, d) + "|" + def + "|" + pf("%.*g", 3, d) + "|" + def, "a format leaks to the next value: ", o.str());
    float f = float(d); if (std::isfinite(f) && (f == 0 || std::fabs(f) > 1e-37f)) { float g = -77; CHECK(from_string(to_string(format::precision(f, 9)), g) && g == f, "float round trip"); } else if (std::fabs(d) > 1e39) { float g; CHECK(!from_string(s17, g), "value too large for a float accepted"); }
    CHECK(!from_string(s17 + "x", r), "trailing letter accepted"); CHECK(!from_string("a" + s17, r)); CHECK(from_string(" " + s17 + "  ", r) && r == d); if (d != std::floor(d)) t.nontrivial();
}
SUB("special", 1) {
    Str nan = t.pick({Str("nan"), Str("NaN"), Str("NAN"), Str("+nan"), Str("-NaN")}), pi = t.pick({Str("inf"), Str("INF"), Str("+Inf"), Str("inf+")}), ni = t.pick({Str("-inf"), Str("-INF"), Str("Inf-")}); double d = 1; float f = 1; CHECK(from_string(nan, d) && std::isnan(d), nan); CHECK(from_string(nan, f) && std::isnan(f)); CHECK(from_string(pi, d) && d == INFINITY, pi); CHECK(from_string(ni, d) && d == -INFINITY, ni); int i; CHECK(!from_string(nan, i) && !from_string(pi, i), "NaN accepted as integer"); double q = t.pick({double(NAN), double(INFINITY), -double(INFINITY)}); CHECK(from_string(to_string(q), d) && vp::same(q, d), "round trip of ", q);
    bool b; CHECK(to_string(true) == "1" && to_string(false) == "0"); CHECK(from_string("1", b) && b); CHECK(from_string("0", b) && !b); CHECK(!from_string("2", b) && !from_string("yes", b), "not a boolean"); Str w = vp::gen_str(t, "abXY12-_", 1, 8), g; CHECK(to_string(w) == w); CHECK(from_string(w, g) && g == w, "string"); CHECK(to_string(w.c_str()) == w); t.nontrivial();
}
SUB("vectors", 3) {
    size_t n = t.size(0, 6); std::vector<int> x = vp::ints<int>(t, n, -99, 99); auto v = vp::mk<int>(x); Str w = "{"; for (size_t i = 0; i < n; ++i) { if (i) w += ", "; w += std::to_string(x[i]); } w += "}"; CHECK(to_string(v) == w, "to_string(vector) gives ", to_string(v)); CHECK(to_string(v[_]) == w, "to_string(view)"); std::vector<Str> e; for (int i : x) e.push_back(std::to_string(i)); vp::expect1(to_string_vector(v), e, "to_string_vector"); vp::expect1(to_string_vector(v[_]), e, "to_string_vector(view)"); t.note(w);
    std::vector<char> ok(n, 1); for (size_t i = 0; i < n; ++i) if (t.chance(1, 4)) { e[i] = t.pick({Str("zz"), Str(""), Str("1x"), Str("99999999999999999999999")}); ok[i] = 0; } vec1i r = {9}; auto sv = vp::mk<Str>(e); auto b = from_string(sv, r); CHECK(b.size() == n && r.size() == n && r.dims[0] == n, "from_string(vector) sizes"); for (size_t i = 0; i < n; ++i) { CHECK(b[i] == bool(ok[i]), "from_string says ", b[i], " for ", e[i]); if (ok[i]) CHECK(r[i] == x[i]); } vec1i r2(n); auto b2 = from_string(sv, r2[_]); for (size_t i = 0; i < n; ++i) { CHECK(b2[i] == bool(ok[i])); if (ok[i]) CHECK(r2[i] == x[i], "from_string into a view"); }
    std::array<size_t,2> d{{t.size(0, 3), t.size(0, 3)}}; std::vector<double> y = vp::doubles(t, vp::prod(d)); auto m = vp::mkd<2,double>(d, y); auto sm = to_string_vector(format::precision(m, 17)); CHECK(vp::dimsv(sm) == vp::dimsv(m)); vec2d bk; auto b3 = from_string(sm, bk); CHECK(vp::dimsv(bk) == vp::dimsv(m) && vp::dimsv(b3) == vp::dimsv(m), "dims lost"); for (size_t i = 0; i < y.size(); ++i) CHECK(b3[i] && bk[i] == y[i], "2D round trip of ", y[i], " gives ", bk[i], " through ", sm[i]); auto fx = to_string_vector(format::fixed(m)); for (size_t i = 0; i < y.size(); ++i) CHECK(fx[i] == pf("%.*f", 6, y[i]));
    if (n > 1) t.nontrivial();
}
