// X02: sexagesimal coordinates.
#include "astro_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
struct Sx { std::string s; double v; }; // text and its value (in units of the first field)
static Sx gen(Tape& t, int maxh) {
    std::string s; bool neg = t.chance(1, 3); if (neg) s = "-"; else if (t.chance(1, 6)) s = "+"; int h = t.chance(1, 3) ? 0 : int(t.range(0, maxh)), m = int(t.range(0, 59)); int dec = int(t.range(0, 6)); long long p = 1; for (int i = 0; i < dec; ++i) p *= 10; long long q = (long long)t.draw(60*p); char b[64]; std::snprintf(b, sizeof b, t.coin() ? "%02d:%02d:" : "%d:%d:", h, m); s += b; std::snprintf(b, sizeof b, "%02lld", q/p); s += b; if (dec) { std::snprintf(b, sizeof b, ".%0*lld", dec, q % p); s += b; } double v = h + m/60.0 + (double(q)/double(p))/3600; return {s, neg ? -v : v}; }
static bool wellformed(const std::string& s, bool neg) { size_t i = 0; if (i < s.size() && s[i] == '-') { if (!neg) return false; ++i; } else if (neg) return false; V<std::string> f(1); for (; i < s.size(); ++i) if (s[i] == ':') f.push_back(""); else f.back() += s[i]; if (f.size() != 3) return false; auto dig = [](const std::string& x) { for (char c : x) if (c < '0' || c > '9') return false; return !x.empty(); }; if (!dig(f[0]) || f[0].size() > 3 || !dig(f[1]) || f[1].size() != 2 || std::atoi(f[1].c_str()) > 59) return false; auto p = f[2].find('.'); std::string a = f[2].substr(0, p); if (!dig(a) || a.size() != 2) return false; if (p != std::string::npos && !dig(f[2].substr(p + 1))) return false; return std::atof(f[2].c_str()) < 60; }
static double gendeg(Tape& t, double lo, double hi, double unit) { double x; switch (t.draw(6)) { case 0: x = double(t.range(int(lo), int(hi))); break; case 1: x = lo + (hi - lo)*t.unit(); break; case 2: x = (t.coin() ? 1 : -1)*std::pow(10.0, -double(t.draw(14)))*(t.coin() ? unit/3600 : 1); break; case 3: x = double(t.range(int(lo), int(hi))) + unit*double(t.range(-3600*10, 3600*10))/36000.0; break; case 4: x = double(t.range(int(lo), int(hi))) + (t.coin() ? 1 : -1)*unit*std::pow(10.0, -double(t.draw(12)))/3600.0; break; default: x = unit*(double(t.range(int(lo/unit), int(hi/unit))) + double(t.range(0, 59))/60 + (t.coin() ? 59.99 + 0.01*(1 - std::pow(10.0, -double(t.draw(9)))) : 60*t.unit())/3600); } return std::min(hi, std::max(lo, x)); }
SUB("parse", 4) {
    size_t n = t.size(1, 4); vec1s sr(n), sd(n); V<Sx> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = gen(t, 23); b[i] = gen(t, 89); sr[i] = a[i].s; sd[i] = b[i].s; t.note(a[i].s, "  ", b[i].s); } vec1d r, d; vec1b ok = sex2deg(sr, sd, r, d); CHECK(ok.size() == n && r.size() == n && d.size() == n); for (size_t i = 0; i < n; ++i) { CHECK(ok[i], "refused"); CHECK(vp::near(r[i], 15*a[i].v, 1e-13, 1e-13), "RA ", r[i], " expected ", 15*a[i].v); CHECK(vp::near(d[i], b[i].v, 1e-13, 1e-13), "Dec ", d[i], " expected ", b[i].v); double x = 5, y = 6; CHECK(sex2deg(a[i].s, b[i].s, x, y) && x == r[i] && y == d[i], "scalar and vector versions differ"); if (a[i].v < 0 || b[i].v < 0) t.nontrivial(); }
    vec1s bad(n + 1); CHECK(errors([&] { sex2deg(sr, bad, r, d); }), "incompatible dimensions");
}
SUB("invalid", 3) {
    std::string g = gen(t, 23).s, x; switch (t.draw(6)) { case 0: x = ""; break; case 1: x = g.substr(0, g.rfind(':')); break; case 2: x = g + ":00"; break; case 3: { x = g; x[t.draw(x.size())] = 'a'; break; } case 4: x = vp::gen_str(t, "0123ab.", 0, 6); break; default: { V<std::string> f{"1", "2", "3"}; f[t.draw(3)] = t.pick(V<std::string>{"", "x", "1x", "a:b", "1 2"}); x = f[0] + ":" + f[1] + ":" + f[2]; } } std::string good = gen(t, 23).s; bool first = t.coin(); t.note(x, "  ", good); double r = 1, d = 2; bool ok = sex2deg(first ? x : good, first ? good : x, r, d); CHECK(!ok, "accepted"); CHECK(std::isnan(r) && std::isnan(d), "values of invalid coordinates"); vec1d vr, vd; vec1b o = sex2deg(vec1s{good, first ? x : good}, vec1s{good, first ? good : x}, vr, vd); CHECK(o[0] && !o[1] && std::isfinite(vr[0]) && std::isnan(vr[1]) && std::isnan(vd[1]), "vector"); t.nontrivial();
}
SUB("format", 5) {
    size_t n = t.size(1, 3); V<double> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = gendeg(t, t.chance(1, 4) ? -360 : 0, 360, 15); b[i] = gendeg(t, -90, 90, 1); } t.note(a, b); vec1d va = vp::mk<double>(a), vb = vp::mk<double>(b); vec1s sr, sd; deg2sex(va, vb, sr, sd); CHECK(sr.size() == n && sd.size() == n); vec1d r, d; for (size_t i = 0; i < n; ++i) { t.note(sr[i], "  ", sd[i]); double x, y; CHECK(sex2deg(sr[i], sd[i], x, y), "not read back: ", sr[i], " ", sd[i]); CHECK(std::fabs(x - a[i]) <= 15*6e-5/3600, "RA ", sr[i], " reads ", x); CHECK(std::fabs(y - b[i]) <= 6e-5/3600, "Dec ", sd[i], " reads ", y); CHECK(wellformed(sr[i], a[i] < 0 && sr[i][0] == '-'), "format of RA ", sr[i]); CHECK(wellformed(sd[i], b[i] < 0 && sd[i][0] == '-'), "format of Dec ", sd[i]); std::string s1, s2; deg2sex(a[i], b[i], s1, s2); CHECK(s1 == sr[i] && s2 == sd[i], "scalar and vector versions differ"); if (a[i] != 0 && b[i] != 0) t.nontrivial(); }
    vec1d bad(n + 1); CHECK(errors([&] { deg2sex(va, bad, sr, sd); }), "incompatible dimensions");
}
