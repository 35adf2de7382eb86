#ifndef FITS_H_HPP
#define FITS_H_HPP
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/fits.hpp>
namespace fh {
using namespace vif; using vp::Tape; using Str = std::string;
template<class F> bool errs(F&& f) { try { f(); } catch (vp::Exited&) { return true; } catch (fits::exception&) { return true; } return false; }
template<class T> struct ty { using type = T; };
template<class F> void with_type(size_t k, F&& f) { switch (k) { case 0: f(ty<double>{}); break; case 1: f(ty<float>{}); break; case 2: f(ty<int_t>{}); break; case 3: f(ty<uint_t>{}); break; case 4: f(ty<short>{}); break; case 5: f(ty<char>{}); break; default: f(ty<bool>{}); } }
template<class F> void with_dim(size_t d, F&& f) { switch (d) { case 1: f(std::integral_constant<size_t,1>{}); break; case 2: f(std::integral_constant<size_t,2>{}); break; case 3: f(std::integral_constant<size_t,3>{}); break; default: f(std::integral_constant<size_t,4>{}); } }
// stored class: 0 double 1 float 2 int64 3 int16 4 byte
template<class T> int klass() { return std::is_same<T,double>::value ? 0 : std::is_same<T,float>::value ? 1 : std::is_same<T,int_t>::value || std::is_same<T,uint_t>::value ? 2 : std::is_same<T,short>::value ? 3 : 4; }
template<class T> bool can_read(int k) { if (std::is_same<T,double>::value) return true; if (std::is_same<T,float>::value) return k != 0; if (std::is_same<T,int_t>::value || std::is_same<T,uint_t>::value) return k >= 2; if (std::is_same<T,short>::value) return k >= 3; return k == 4; }
template<class T> bool can_narrow(int k) { if (std::is_same<T,double>::value || std::is_same<T,float>::value) return true; return k >= 2; }
// small: values exactly representable in every type (0 or 1 for the byte types)
template<class T> T gen(Tape& t, bool small) {
    if (std::is_same<T,bool>::value) return T(t.coin()); if (small) return T(t.draw(100));
    if (std::is_floating_point<T>::value) { double x = vp::gen_double(t, true); if (t.chance(1, 6)) x *= t.coin() ? 1e30 : 1e-30; return T(x); }
    if (std::is_same<T,char>::value) return T(t.range(-128, 127)); if (std::is_same<T,short>::value) return T(t.range(-32768, 32767)); if (t.coin()) return T(t.range(0, 1000)); if (std::is_same<T,uint_t>::value) return T(t.u64() >> 1); return T(t.u64());
}
template<class T> std::vector<T> gens(Tape& t, size_t n, bool small) { std::vector<T> r(n); for (size_t i = 0; i < n; ++i) r[i] = gen<T>(t, small); return r; }
template<size_t D> std::array<size_t,D> gdims(Tape& t, size_t mx, bool zero = true) { std::array<size_t,D> d; for (auto& x : d) x = zero ? t.size(t.chance(1, 20) ? 0 : 1, mx) : 1 + t.draw(mx); return d; }
template<class T, size_t D> vec<D,T> mkv(const std::array<size_t,D>& d, const std::vector<T>& a) { vec<D,T> v; for (size_t i = 0; i < D; ++i) v.dims[i] = d[i]; v.resize(); for (size_t i = 0; i < a.size(); ++i) v.data[i] = a[i]; return v; }
// known finding K1 (see known-findings.txt): an infinite value may be read as NaN, a denormal one as 0
template<class R> bool okv(R g, R w) { return g == w || (g != g && (w != w || std::isinf(double(w)))) || (std::is_floating_point<R>::value && g == R(0) && !(std::fabs(double(w)) >= double(std::numeric_limits<typename std::conditional<std::is_floating_point<R>::value,R,float>::type>::min()))); }
inline bool eqv(double a, double b) { return a == b || (a != a && b != b); }
}
#endif
