// Includes the library under test so that its fatal run time errors (which call exit())
// become exceptions, and provides conversions between vif vectors and plain std ones.
#ifndef VIF_H_HPP
#define VIF_H_HPP
#include "vp.hpp"
#include <cassert>
#include <cctype>
#include <ctime>
#include <random>
#include <thread>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <complex>
#include <chrono>
#include <regex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <list>
#include <queue>
#include <iterator>
#include <initializer_list>
#include <tuple>
#include <type_traits>
#include <string>
#include <cstdio>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
namespace vp { [[noreturn]] inline void exit_(int c) { throw Exited{c}; } }
inline void vp_exit(int c) { throw vp::Exited{c}; }
#define exit vp_exit
namespace std { using ::vp_exit; }
#include <vif/core/vec.hpp>
#include <vif/core/error.hpp>
// `exit` stays redefined: the library's checks are macros expanded in every header.

namespace vp {
template<class T> struct plain { using type = T; };
template<> struct plain<bool> { using type = char; };

template<std::size_t D, typename T>
std::vector<typename vif::vec<D,T>::rtype> tov(const vif::vec<D,T>& v) {
    std::vector<typename vif::vec<D,T>::rtype> r; r.reserve(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v.safe[i]);
    return r;
}
template<std::size_t D, typename T>
std::vector<size_t> dimsv(const vif::vec<D,T>& v) { return std::vector<size_t>(v.dims.begin(), v.dims.end()); }

template<class R, class T> vif::vec<1,R> mk(const std::vector<T>& a) {
    vif::vec<1,R> v; v.resize(a.size()); for (size_t i = 0; i < a.size(); ++i) v.data[i] = R(a[i]); return v;
}
template<std::size_t D, class T> vif::vec<D,T> mkd(const std::array<size_t,D>& d, const std::vector<T>& a) {
    vif::vec<D,T> v; for (size_t i = 0; i < D; ++i) v.dims[i] = d[i]; v.resize();
    for (size_t i = 0; i < a.size(); ++i) v.data[i] = a[i]; return v;
}
template<std::size_t D> size_t prod(const std::array<size_t,D>& d) { size_t n = 1; for (auto x : d) n *= x; return n; }

// structural validity of a vector: the dimensions always describe the storage
template<std::size_t D, typename T> void valid(const vif::vec<D,T>& v, const char* what) {
    size_t n = 1; for (auto x : v.dims) n *= x;
    CHECK(v.data.size() == n, what, ": storage ", v.data.size(), " dims ", std::vector<size_t>(v.dims.begin(), v.dims.end()));
    CHECK(v.size() == n, what);
    CHECK(v.empty() == (n == 0), what);
}
template<std::size_t D, typename T, class U> void expect(const vif::vec<D,T>& v, const std::array<size_t,D>& d, const std::vector<U>& m, const char* what) {
    std::vector<size_t> gd(v.dims.begin(), v.dims.end()), wd(d.begin(), d.end());
    CHECK(gd == wd, what, ": dims got ", gd, " expected ", wd);
    valid(v, what);
    CHECK(v.size() == m.size(), what);
    for (size_t i = 0; i < m.size(); ++i) {
        bool eq = v.safe[i] == U(m[i]) || (v.safe[i] != v.safe[i] && m[i] != m[i]);
        CHECK(eq, what, ": element ", i, " got ", tov(v), " expected ", m);
    }
}
template<typename T, class U> void expect1(const vif::vec<1,T>& v, const std::vector<U>& m, const char* what) {
    expect(v, std::array<size_t,1>{{m.size()}}, m, what);
}
template<class U> std::vector<U> ints(Tape& t, size_t n, int64_t lo, int64_t hi) { std::vector<U> r(n); for (auto&& x : r) x = U(t.range(lo, hi)); return r; }
inline double gen_double(Tape& t, bool special = false) {
    switch (t.draw(special ? 8 : 6)) {
    case 0: return double(t.range(0, 9));
    case 1: return double(t.range(-20, 20));
    case 2: return double(t.range(-20, 20))/4.0;
    case 3: return (t.unit() - 0.5)*20;
    case 4: return (t.unit() - 0.5)*2e6;
    case 5: return (t.unit() - 0.5)*2e-6;
    case 6: return std::numeric_limits<double>::quiet_NaN();
    default: return t.coin() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    }
}
inline std::string gen_str(Tape& t, const std::string& alpha, size_t lo, size_t hi) { size_t n = t.size(lo, hi); std::string s(n, ' '); for (auto& c : s) c = alpha[t.draw(alpha.size())]; return s; }
inline std::vector<double> doubles(Tape& t, size_t n, bool special = false) { std::vector<double> r(n); for (auto& x : r) x = gen_double(t, special); return r; }
}
#endif
