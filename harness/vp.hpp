// Choice-tape property-based testing engine (no dependency on the code under test).
//
// A property is a set of sub-tests `void f(vp::Tape&)`. Every random decision is drawn
// from the tape, so a case is fully described by the list of choices it consumed; that
// list is what gets shrunk and what a replay file contains.
#ifndef VP_HPP
#define VP_HPP
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <stdexcept>
#include <utility>
#include <memory>
#include <numeric>
#include <iomanip>

namespace vp {

// Thrown when a property is violated.
template<class T> std::string show(const std::vector<T>& v);
template<class A> void emit(std::ostream& o, const A& a) { o << a; }
template<class T> void emit(std::ostream& o, const std::vector<T>& a) { o << show(a) << ' '; }
struct Fail : std::exception {
    std::string m;
    explicit Fail(std::string s) : m(std::move(s)) {}
    const char* what() const noexcept override { return m.c_str(); }
};
// Thrown in place of exit() by the library's run time checks.
struct Exited { int code; };
// Thrown when the case turned out not to be a valid input (counted, never a failure).
struct Discard {};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

class Tape {
public:
    enum Mode { random_mode, replay_mode, bytes_mode };
    Mode mode = random_mode;
    uint64_t rng = 0;
    std::vector<uint64_t> in;
    size_t pos = 0;
    const uint8_t* bytes = nullptr; size_t nbytes = 0;
    std::vector<uint64_t> out;     // canonical choices made
    bool noting = false;
    std::string notes;
    bool nontriv = false;
    std::vector<std::string> labels;
    uint64_t inner = 0;
    uint64_t* live = nullptr; uint64_t* live_n = nullptr; size_t live_max = 0; char* live_notes = nullptr; size_t live_notes_max = 0; // survives a crash
    void record(uint64_t v) { out.push_back(v); if (live && out.size() <= live_max) { live[out.size()-1] = v; *live_n = out.size(); } }

    static Tape random(uint64_t seed) { Tape t; t.mode = random_mode; t.rng = mix(seed); return t; }
    static Tape replay(std::vector<uint64_t> v) { Tape t; t.mode = replay_mode; t.in = std::move(v); return t; }
    static Tape from_bytes(const uint8_t* d, size_t n) { Tape t; t.mode = bytes_mode; t.bytes = d; t.nbytes = n; return t; }

    uint64_t raw64() { rng += 0x9e3779b97f4a7c15ull; uint64_t x = rng;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

    // Uniform draw in [0,n). 0 is always the "simplest" choice.
    uint64_t draw(uint64_t n) {
        uint64_t v = 0;
        if (n <= 1) { record(0); if (mode == replay_mode) ++pos; else if (mode == random_mode) raw64(); return 0; }
        switch (mode) {
        case random_mode: v = raw64() % n; break;
        case replay_mode: v = pos < in.size() ? in[pos] : 0; ++pos; if (v >= n) v = v % n; break;
        case bytes_mode: {
            uint64_t m = n - 1; int k = 0;
            while (m) { m >>= 8; ++k; }
            for (int i = 0; i < k; ++i) { v = (v << 8) | (pos < nbytes ? bytes[pos] : 0); ++pos; }
            v %= n; break; }
        }
        record(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { // inclusive
        return lo + int64_t(draw(uint64_t(hi - lo) + 1));
    }
    uint64_t u64() { // full 64 bit
        uint64_t hi = draw(uint64_t(1) << 32), lo = draw(uint64_t(1) << 32);
        return (hi << 32) | lo;
    }
    bool coin() { return draw(2) == 1; }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 => false
    double unit() { return double(draw(uint64_t(1) << 53)) / double(uint64_t(1) << 53); }
    // size biased to small values and to boundaries
    size_t size(size_t lo, size_t hi) {
        if (hi <= lo) { draw(1); return lo; }
        switch (draw(8)) {
        case 0: return lo;
        case 1: return std::min(hi, lo + 1);
        case 2: case 3: case 4: return lo + draw(std::min<size_t>(hi - lo, 5) + 1);
        case 5: case 6: return lo + draw(hi - lo + 1);
        default: return hi - draw(std::min<size_t>(hi - lo, 2) + 1);
        }
    }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }

    template<class... A> void note(const A&... a) {
        if (!noting) return;
        std::ostringstream o; o.precision(17);
        int dummy[] = {0, (emit(o, a), 0)...}; (void)dummy;
        notes += o.str(); notes += '\n';
        if (live_notes) { size_t k = std::min(notes.size(), live_notes_max - 1); std::memcpy(live_notes, notes.data(), k); live_notes[k] = 0; }
    }
    void nontrivial() { nontriv = true; }
    void label(const std::string& s) { labels.push_back(s); }
    // number of oracle evaluations inside the case beyond the first
    void evals(uint64_t n) { inner += n; }
};

using Fn = void(*)(Tape&);
struct Sub { std::string name; unsigned weight; Fn fn; unsigned repeat; };
std::vector<Sub>& subs();
struct Known { std::string id; std::string what; bool (*fn)(); };
std::vector<Known>& knowns();
struct Reg { Reg(const char* n, unsigned w, Fn f, unsigned rep = 1) { subs().push_back({n, w, f, rep}); } };
struct RegK { RegK(const char* i, const char* w, bool (*f)()) { knowns().push_back({i, w, f}); } };

#define VP_CAT2(a,b) a##b
#define VP_CAT(a,b) VP_CAT2(a,b)
#define SUB(name, weight) \
    static void VP_CAT(vp_fn_,__LINE__)(vp::Tape&); \
    static vp::Reg VP_CAT(vp_reg_,__LINE__)(name, weight, VP_CAT(vp_fn_,__LINE__)); \
    static void VP_CAT(vp_fn_,__LINE__)(vp::Tape& t)
// schedule dependent sub-test: a replay repeats the case up to `rep` times
#define SUBR(name, weight, rep) \
    static void VP_CAT(vp_fn_,__LINE__)(vp::Tape&); \
    static vp::Reg VP_CAT(vp_reg_,__LINE__)(name, weight, VP_CAT(vp_fn_,__LINE__), rep); \
    static void VP_CAT(vp_fn_,__LINE__)(vp::Tape& t)
#define KNOWN(id, what) \
    static bool VP_CAT(vp_kn_,__LINE__)(); \
    static vp::RegK VP_CAT(vp_regk_,__LINE__)(id, what, VP_CAT(vp_kn_,__LINE__)); \
    static bool VP_CAT(vp_kn_,__LINE__)()

// ---- printing helpers
template<class T> struct is_printable_ {
    template<class U> static auto f(int) -> decltype(std::declval<std::ostream&>() << std::declval<const U&>(), std::true_type());
    template<class U> static std::false_type f(...);
    static const bool value = decltype(f<T>(0))::value;
};
inline std::string quote(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline std::string show(const std::string& s) { return quote(s); }
inline std::string show(const char* s) { return s; }
inline std::string show(bool b) { return b ? "true" : "false"; }
inline std::string show(char c) { return std::to_string(int(c)); }
inline std::string show(signed char c) { return std::to_string(int(c)); }
inline std::string show(unsigned char c) { return std::to_string(int(c)); }
template<class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
std::string show(T v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
template<class T, size_t N> std::string show(const std::array<T,N>& v);
template<class T> std::string show(const std::vector<T>& v) {
    std::string r = "{"; size_t n = 0;
    for (size_t i = 0; i < v.size(); ++i) { if (n++) r += ", "; if (n > 300) { r += "..."; break; } r += show(T(v[i])); }
    return r + "}";
}
template<class T, size_t N> std::string show(const std::array<T,N>& v) {
    std::string r = "{"; for (size_t i = 0; i < N; ++i) { if (i) r += ", "; r += show(v[i]); } return r + "}";
}
inline std::string cat_() { return ""; }
template<class A, class... R> std::string cat_(const A& a, const R&... r) { return show(a) + cat_(r...); }

template<class... A> [[noreturn]] void fail(const A&... a) { throw Fail(cat_(a...)); }
#define CHECK(cond, ...) do { if (!(cond)) vp::fail(__FILE__ ":", __LINE__, ": ", #cond, " | ", ##__VA_ARGS__); } while (0)

inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool near(double a, double b, double rel, double abs = 0) {
    if (same(a, b)) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    double d = std::fabs(a - b);
    return d <= abs || d <= rel * std::max(std::fabs(a), std::fabs(b));
}

// Run f, tell whether the library reported an error (exit or exception of its own).
template<class F> bool errors(F&& f) {
    try { f(); } catch (Exited&) { return true; }
    return false;
}

std::string scratch(); // per process scratch directory (created, removed at exit)
bool quick();
}
#endif
