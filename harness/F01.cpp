// F01: path functions are consistent pieces of one path algebra (directory + base name, name + extension,
// absolute/relative), agreeing with a component-wise reference model.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <libgen.h>
using namespace vif;
using vp::Tape; using Str = std::string; using VS = std::vector<Str>;
static VS comps(const Str& p) { VS r; Str c; for (char k : p + "/") { if (k == '/') { if (!c.empty()) r.push_back(c); c.clear(); } else c += k; } return r; }
static Str gen_name(Tape& t) { for (;;) { Str s = vp::gen_str(t, "ab.c_-", 1, 6); if (s != "." && s != "..") return s; } }
static Str squeeze(Str s) { Str r; for (char c : s) if (c != '/' || r.empty() || r.back() != '/') r += c; return r; }
SUB("dir-base", 5) {
    bool abs = t.coin(); size_t n = t.size(abs ? 0 : 1, 4); VS c(n); Str p = abs ? "/" : ""; bool dbl = t.chance(1, 4); if (abs && dbl && t.coin()) p += "/"; for (size_t i = 0; i < n; ++i) { c[i] = t.chance(1, 8) ? t.pick({Str("."), Str("..")}) : gen_name(t); if (i) { p += "/"; if (dbl && t.coin()) p += "/"; } p += c[i]; } size_t tr = n ? t.draw(3) : 0; p += Str(tr, '/'); t.note(vp::quote(p));
    std::vector<char> b1(p.begin(), p.end()), b2; b1.push_back(0); b2 = b1; Str rb = ::basename(b1.data()); char* dd = ::dirname(b2.data()); Str rd = dd; // C library
    Str gb = file::get_basename(p), gd = file::get_directory(p); Str wb = n ? c.back() : Str("/"); CHECK(gb == wb, "base name ", gb, " expected ", wb); (void)rb;
    Str wd = rd; if (wd.back() != '/') wd += "/"; CHECK(squeeze(gd) == squeeze(wd), "directory ", gd, " expected ", wd); CHECK(!gd.empty() && gd.back() == '/', "directory does not end with /");
    if (n) { Str whole = gd + gb; VS wc = comps(whole); if (!abs && n == 1) { CHECK(whole == "./" + c[0]); } else CHECK(wc == c, "directory+base name is another path: ", whole); CHECK((whole[0] == '/') == abs); }
    CHECK(file::is_absolute_path(p) == abs, "is_absolute_path"); Str d = file::directorize(p); CHECK(d.back() == '/'); CHECK(d == p || d == p + "/", "directorize gives ", d); CHECK((d == p) == (p.back() == '/')); CHECK(file::directorize(d) == d); if (n && tr == 0) CHECK(file::get_basename(d + "x") == "x" && squeeze(file::get_directory(d + "x")) == squeeze(d));
    vec1s v = {p, "q/" + p, p + "z"}; auto vb = file::get_basename(v); auto vd = file::get_directory(v); auto va = file::is_absolute_path(v); auto vz = file::directorize(v); for (size_t i = 0; i < 3; ++i) { CHECK(vb[i] == file::get_basename(v[i])); CHECK(vd[i] == file::get_directory(v[i])); CHECK(va[i] == file::is_absolute_path(v[i])); CHECK(vz[i] == file::directorize(v[i])); }
    if (n > 1) t.nontrivial();
}
SUB("extension", 3) {
    Str p = vp::gen_str(t, "ab./", 0, 10); t.note(vp::quote(p)); size_t k = p.size(); bool has = false; for (size_t i = p.size(); i-- > 0; ) if (p[i] == '.') { k = i; has = true; break; } Str e = has ? p.substr(k) : "", r = has ? p.substr(0, k) : p; CHECK(file::get_extension(p) == e, "get_extension gives ", file::get_extension(p)); CHECK(file::remove_extension(p) == r, "remove_extension gives ", file::remove_extension(p)); auto s = file::split_extension(p); CHECK(s.first == r && s.second == e, "split_extension"); CHECK(file::remove_extension(p) + file::get_extension(p) == p); vec1s v = {p, "x.y", ""}; auto ve = file::get_extension(v); auto vr = file::remove_extension(v); for (size_t i = 0; i < 3; ++i) { CHECK(ve[i] == file::get_extension(v[i])); CHECK(vr[i] == file::remove_extension(v[i])); } if (has) t.nontrivial();
}
SUB("blank", 1) { CHECK(file::directorize("") == ""); CHECK(!file::is_absolute_path("")); Str n = gen_name(t); CHECK(file::directorize("  " + n + " ") == n + "/"); CHECK(file::is_absolute_path(" /" + n)); CHECK(!file::is_absolute_path(n + "/")); CHECK(file::get_directory(n) == "./" && file::get_basename(n) == n); CHECK(file::get_directory("/") == "/" && file::get_basename("/") == "/"); t.nontrivial(); }
