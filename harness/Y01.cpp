// Y01: fitstool changes what it is asked to change in a FITS file, and nothing else
#include "tools_h.hpp"
namespace fitstool {
#include <../tools/fitstool/fitstool.cpp>
}
using namespace tl;
static int counter = 0;
static Str fresh(const char* n) { return vp::scratch() + "/" + n + std::to_string(counter++) + ".fits"; }
static Str lst(const V<Str>& v) { Str r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; }
static void keys(Tape& t, fitsfile* p, bool wcs) {
    int st = 0; for (const char* k : {"USERS", "USERI", "USERD", "OTHER", "NOTE"}) if (t.coin()) switch (t.draw(3)) { case 0: { Str v = vp::gen_str(t, "abcXYZ 019_-./+", 1, 12); fits_write_key(p, TSTRING, k, &v[0], "a comment", &st); break; } case 1: { int v = int(t.range(-1000, 1000)); fits_write_key(p, TINT, k, &v, nullptr, &st); break; } default: { double v = double(t.range(-1000, 1000))/64; fits_write_key(p, TDOUBLE, k, &v, "real", &st); } }
    if (wcs) for (const char* k : {"CRVAL1", "CRVAL2", "CRPIX1", "CRPIX2", "CD1_1", "CD2_2", "CD1_2", "PC1_1", "EQUINOX", "CDELT1", "LONPOLE", "PV2_1", "CTYPE1", "CTYPE2", "CUNIT1", "RADECSYS"}) if (t.coin()) { if (k[1] == 'T' || k[1] == 'U' || k[0] == 'R') { Str v = t.pick({Str("RA---TAN"), Str("DEC--TAN"), Str("deg"), Str("FK5")}); fits_write_key(p, TSTRING, k, &v[0], "wcs", &st); } else { double v = double(t.range(-100000, 100000))/1024; fits_write_key(p, TDOUBLE, k, &v, "wcs", &st); } }
    ck(st, "write keywords");
}
static void image(Tape& t, fitsfile* p, V<long> d, bool wcs) { int st = 0; int bp = t.pick({-64, -32, 32, 16}); fits_create_img(p, bp, int(d.size()), d.data(), &st); long n = d.empty() ? 0 : 1; for (long x : d) n *= x; V<double> v(n); for (auto& x : v) x = double(t.range(-300, 300)); long one[9] = {1,1,1,1,1,1,1,1,1}; if (n) fits_write_pix(p, TDOUBLE, one, n, v.data(), &st); ck(st, "write image"); keys(t, p, wcs); }
static const char types[] = "DEJIKBLA";
static void table(Tape& t, fitsfile* p, long rows, bool twod, bool dims = true) { // columns of every type, some with dimensions
    int st = 0; fits_create_tbl(p, BINARY_TBL, rows, 0, nullptr, nullptr, nullptr, nullptr, &st); int nc = 1 + int(t.draw(6)); long len = 1 + long(t.draw(6)); for (int c = 1; c <= nc; ++c) { char ty = types[t.draw(8)]; V<long> d; if (dims) { if (twod && t.chance(2, 3)) { d = {1 + long(t.draw(4)), 2 + long(t.draw(3))}; if (ty == 'A') ty = 'D'; } else d = {t.chance(2, 3) ? len : 1 + long(t.draw(5))}; } else d = {t.chance(2, 3) ? 1 : 1 + long(t.draw(4))}; long rep = 1; for (long x : d) rep *= x; Str nm = "COL" + Str(1, char('A' + c)) + vp::gen_str(t, "XYZ09_", 0, 3); long w = ty == 'A' ? 2 + long(t.draw(4)) : 1; Str fm = dims || rep*w > 1 || t.coin() ? std::to_string(rep*w) + ty : Str(1, ty); if (!dims && ty == 'A') { fm = std::to_string(w) + "A"; rep = 1; } if (dims && ty == 'A') fm += std::to_string(w);
        fits_insert_col(p, c, &nm[0], &fm[0], &st); if (ty == 'A' && dims) d.insert(d.begin(), w); if (dims && (d.size() > 1 || t.coin())) fits_write_tdim(p, c, int(d.size()), d.data(), &st); ck(st, "column"); for (long r = 1; r <= rows; ++r) { if (ty == 'A') { long n = dims ? rep : 1; V<Str> s(n); V<char*> q; for (auto& x : s) { x = vp::gen_str(t, "abcdXYZ12", size_t(1), size_t(w)); } for (auto& x : s) q.push_back(&x[0]); if (false) { Str all; for (auto& x : s) { x.resize(size_t(w), ' '); all += x; } char* a = &all[0]; fits_write_col(p, TSTRING, c, r, 1, 1, &a, &st); } else fits_write_col(p, TSTRING, c, r, 1, n, q.data(), &st); } else if (ty == 'L') { V<char> v(rep); for (auto& x : v) x = t.coin(); fits_write_col(p, TLOGICAL, c, r, 1, rep, v.data(), &st); } else if (ty == 'K') { V<LONGLONG> v(rep); for (auto& x : v) x = t.coin() ? LONGLONG(t.range(-1000, 1000)) : LONGLONG(t.range(-9000000000000000000, 9000000000000000000)); fits_write_col(p, TLONGLONG, c, r, 1, rep, v.data(), &st); } else { V<double> v(rep); for (auto& x : v) x = ty == 'B' ? double(t.draw(256)) : ty == 'D' || ty == 'E' ? double(t.range(-5000, 5000))/16 : ty == 'J' ? double(t.range(-2000000000, 2000000000)) : ty == 'K' ? double(t.range(-4000000000000, 4000000000000)) : double(t.range(-30000, 30000)); fits_write_col(p, TDOUBLE, c, r, 1, rep, v.data(), &st); } ck(st, "write column"); } } keys(t, p, false);
}
static Str create(Tape& t, const char* n, std::function<void(fitsfile*)> fn) { Str f = fresh(n); fitsfile* p = nullptr; int st = 0; fits_create_file(&p, ("!" + f).c_str(), &st); ck(st, "create"); fn(p); fits_close_file(p, &st); ck(st, "close"); return f; }
static Str tfile(Tape& t, bool twod) { return create(t, "t", [&](fitsfile* p) { image(t, p, {}, false); table(t, p, 1, twod); }); }
static void same(const Hdu& a, const Hdu& b, const char* w, bool ks = true) { CHECK(a.image == b.image && a.dim == b.dim && a.bitpix == b.bitpix && a.pix == b.pix, w, ": pixels"); CHECK(a.rows == b.rows && a.cols.size() == b.cols.size(), w, ": rows or columns"); for (size_t i = 0; i < a.cols.size(); ++i) CHECK(a.cols[i] == b.cols[i], w, ": column ", a.cols[i].name); if (ks) CHECK(a.keys == b.keys, w, ": keywords ", show(b)); }
static void same(const V<Hdu>& a, const V<Hdu>& b, const char* w) { CHECK(a.size() == b.size(), w, ": number of HDUs"); for (size_t i = 0; i < a.size(); ++i) same(a[i], b[i], w); }
#define TOOL(...) run(fitstool::vif_main, V<Str>{__VA_ARGS__})
SUB("remove", 3) {
    Str f = tfile(t, t.coin()); auto a = snap(f); V<Str> c; std::set<Str> gone; for (auto& x : a[1].cols) if (t.chance(1, 3)) { c.push_back(t.coin() ? vif::to_lower(x.name) : x.name); gone.insert(x.name); } if (!c.empty() && t.chance(1, 4)) c.push_back(c[t.draw(c.size())]); for (size_t i = c.size(); i > 1; --i) { size_t j = t.draw(i); if (j != i - 1) std::swap(c[i-1], c[j]); } bool unk = t.chance(1, 4); if (unk || c.empty()) { c.insert(c.begin() + long(t.draw(c.size() + 1)), "nothere"); unk = true; } t.note(show(a[1]), " remove ", lst(c)); bool force = t.coin(); Str ans; bool yes = true; if (!force) { if (unk) ans += "y\n"; yes = t.coin(); ans += t.coin() ? (yes ? "y\n" : "n\n") : (yes ? "maybe\nYES\n" : "\nno\n"); } V<Str> args = {f, "remove", "cols=" + lst(c)}; if (force) args.push_back("force"); auto r = run(fitstool::vif_main, args, ans); auto b = snap(f); CHECK(b.size() == a.size() && r.rc == 0); V<Hdu> w = a; if (yes) { w[1].cols.clear(); for (auto& x : a[1].cols) if (!gone.count(x.name)) w[1].cols.push_back(x); } same(w, b, "remove"); if (!gone.empty()) t.nontrivial();
}
SUB("transpose", 3) {
    Str f = tfile(t, true); auto a = snap(f), w = a; V<Str> c; for (auto& x : w[1].cols) if (x.dim.size() == 2 && x.type != 'A' && x.type != 'L' && t.chance(2, 3)) { c.push_back(t.coin() ? vif::to_lower(x.name) : x.name); long n = x.dim[0], m = x.dim[1]; Str q; for (long i = 0; i < n; ++i) for (long j = 0; j < m; ++j) q += x.bytes.substr(size_t((j*n + i)*x.w), size_t(x.w)); x.bytes = q; std::swap(x.dim[0], x.dim[1]); } if (c.empty()) throw vp::Discard(); t.note(show(a[1]), " transpose ", lst(c)); auto r = TOOL(f, "transpose", "cols=" + lst(c), "force"); same(w, snap(f), "transpose"); t.nontrivial();
}
SUB("r2c", 3) {
    long rows = 2 + long(t.draw(5)); Str f = create(t, "r", [&](fitsfile* p) { image(t, p, {}, false); table(t, p, rows, false, false); }), o = fresh("c"); auto a = snap(f); t.note(show(a[1])); auto r = TOOL(f, "r2c", "out=" + o, t.coin() ? "silent" : "silent=0"); same(a, snap(f), "the input of r2c"); auto b = snap(o); CHECK(b.size() == 2 && !b[1].image && b[1].rows == 1, "one row"); CHECK(b[1].cols.size() == a[1].cols.size(), "columns"); for (size_t i = 0; i < a[1].cols.size(); ++i) { auto &x = a[1].cols[i], &y = b[1].cols[i]; CHECK(x.name == y.name && x.type == y.type && y.rep == x.rep*rows && y.w == x.w, "column ", y.name, " ", y.rep, y.type); Str p = x.bytes, q = y.bytes; if (x.type == 'A') for (Str* s : {&p, &q}) for (auto& ch : *s) if (ch == 0) ch = ' '; CHECK(p == q, "content of column ", x.name); long n = 1; for (long d : y.dim) n *= d; CHECK(n == y.rep && y.dim.back() == rows, "dimensions of column ", x.name); } t.nontrivial();
}
static bool iswcs(const Str& k) { for (const char* p : {"CRVAL", "CRPIX", "CD", "PC", "PV", "CTYPE", "CUNIT", "EQUINOX", "RADECSYS", "LONPOLE"}) if (k.compare(0, strlen(p), p) == 0) return true; return false; }
static Str val(Str v) { if (!v.empty() && v[0] == '\'') return vif::trim(v.substr(1, v.rfind('\'') - 1)); double d = strtod(v.c_str(), nullptr); return dig(d); }
SUB("cpwcs", 2) {
    Str f = create(t, "w", [&](fitsfile* p) { image(t, p, {2 + long(t.draw(3)), 3}, true); }), g = create(t, "v", [&](fitsfile* p) { image(t, p, {2, 2 + long(t.draw(3))}, t.coin()); }); auto a = snap(f), b = snap(g); t.note(show(a[0]), " to ", show(b[0])); auto r = TOOL(f, "cpwcs", "out=" + g); same(a, snap(f), "the source of cpwcs"); auto c = snap(g); same(b[0], c[0], "cpwcs", false); CHECK(c.size() == 1); std::map<Str, Str> w; for (auto& k : b[0].keys) w[k.first] = val(k.second); size_t n = 0; for (auto& k : a[0].keys) if (iswcs(k.first)) { w[k.first] = val(k.second); ++n; } std::map<Str, Str> h; for (auto& k : c[0].keys) { CHECK(!h.count(k.first), "keyword ", k.first, " is twice in the header"); h[k.first] = val(k.second); } for (auto& k : w) CHECK(h.count(k.first) && h[k.first] == k.second, "keyword ", k.first, " is ", h[k.first], " expected ", k.second); CHECK(h.size() == w.size(), "number of keywords"); if (n) t.nontrivial();
}
static Str anyfile(Tape& t, size_t& hdu) { // the HDU the tool works on
    if (t.coin()) { hdu = 0; bool ext = t.coin(); return create(t, "k", [&](fitsfile* p) { image(t, p, {2, 1 + long(t.draw(3))}, t.coin()); if (ext) table(t, p, 1, false); }); } hdu = 1; return tfile(t, false);
}
SUB("hdr", 1) {
    size_t h; Str f = anyfile(t, h); auto a = snap(f); h = t.draw(a.size()); V<Str> args = {f, "hdr"}; if (h || t.coin()) args.push_back("hdu=" + std::to_string(h)); auto r = run(fitstool::vif_main, args); fitsfile* p = nullptr; int st = 0, n = 0, m = 0; fits_open_diskfile(&p, f.c_str(), READONLY, &st); fits_movabs_hdu(p, int(h) + 1, nullptr, &st); fits_get_hdrspace(p, &n, &m, &st); V<Str> w; for (int i = 1; i <= n; ++i) { char c[90]; fits_read_record(p, i, c, &st); Str s = c; while (!s.empty() && s.back() == ' ') s.pop_back(); w.push_back(s); } fits_close_file(p, &st); ck(st, "header"); V<Str> g; std::istringstream is(r.out); Str l; while (std::getline(is, l)) { while (!l.empty() && l.back() == ' ') l.pop_back(); g.push_back(l); } if (!g.empty() && g.back() == "END") g.pop_back(); CHECK(g == w, "printed header: ", r.out); same(a, snap(f), "hdr"); t.nontrivial();
}
SUB("readkwd", 2) {
    size_t h; Str f = anyfile(t, h); auto a = snap(f); V<Str> args = {f, "readkwd"}; if (t.chance(1, 3)) { h = t.draw(a.size()); args.push_back("hdu=" + std::to_string(h)); } V<Str> k; Str w; size_t n = 1 + t.draw(4); for (size_t i = 0; i < n; ++i) { Str x = t.chance(1, 3) || a[h].keys.empty() ? Str("NOKEY") : a[h].keys[t.draw(a[h].keys.size())].first; k.push_back(x); Str v = key(a[h], x); if (!v.empty() && v[0] == '\'') v = vif::trim(v.substr(1, v.rfind('\'') - 1)); w += v + "\n"; } args.push_back("key=" + lst(k)); t.note(show(a[h]), " read ", lst(k)); auto r = run(fitstool::vif_main, args); CHECK(r.out == w, "printed: ", r.out, " expected: ", w); same(a, snap(f), "readkwd"); t.nontrivial();
}
SUB("rmkwd", 2) {
    size_t h; Str f = anyfile(t, h); auto a = snap(f), w = a; V<Str> k; size_t n = 1 + t.draw(3); for (size_t i = 0; i < n; ++i) k.push_back(t.chance(1, 4) || a[h].keys.empty() ? Str("NOKEY") : a[h].keys[t.draw(a[h].keys.size())].first); w[h].keys.clear(); for (auto& x : a[h].keys) if (std::find(k.begin(), k.end(), x.first) == k.end()) w[h].keys.push_back(x); t.note(show(a[h]), " remove ", lst(k)); TOOL(f, "rmkwd", "key=" + lst(k)); same(w, snap(f), "rmkwd"); if (w[h].keys.size() < a[h].keys.size()) t.nontrivial();
}
SUB("editkwd", 3) {
    size_t h; Str f = anyfile(t, h); auto a = snap(f); V<Str> args = {f, "editkwd"}; if (t.chance(1, 3)) { h = t.draw(a.size()); args.push_back("hdu=" + std::to_string(h)); } Str k = t.chance(1, 3) || a[h].keys.empty() ? Str("NEWKEY") : a[h].keys[t.draw(a[h].keys.size())].first, v, e; switch (t.draw(4)) { case 0: { long i = long(t.coin() ? t.range(-1000, 1000) : t.range(-4000000000, 4000000000)); v = std::to_string(i); e = dig(double(i)); break; } case 1: { double d = double(t.range(-100000, 100000))/128; v = dig(d); e = dig(d); break; } case 2: { int q = int(t.range(0, 30)); v = "1e" + std::to_string(q); e = dig(strtod(v.c_str(), nullptr)); break; } default: { Str s = vp::gen_str(t, "abcdxyzXYZ019_-/ ", 1, 14); s = "q" + vif::trim(s); e = s; v = t.coin() ? s : "'" + s + "'"; } }
    t.note(show(a[h]), " edit ", k, " to ", v); bool inter = t.coin(); Str in; bool isnew = !has(a[h], k); if (inter) { in = (t.coin() ? vif::to_lower(k) : k) + "\n"; if (isnew) in += "y\n"; in += v + "\n\n"; } else { args.push_back("key=" + k); args.push_back("val=" + v); } auto r = run(fitstool::vif_main, args, in); auto b = snap(f); CHECK(b.size() == a.size()); for (size_t i = 0; i < a.size(); ++i) if (i != h) same(a[i], b[i], "another HDU"); same(a[h], b[h], "editkwd", false); CHECK(b[h].keys.size() == a[h].keys.size() + (isnew ? 1 : 0), "number of keywords, ", r.out, r.err); size_t j = 0; for (auto& x : a[h].keys) { if (x.first == k) continue; while (j < b[h].keys.size() && b[h].keys[j].first == k) ++j; CHECK(j < b[h].keys.size() && b[h].keys[j] == x, "keyword ", x.first); ++j; } CHECK(val(key(b[h], k)) == e, "keyword ", k, " is ", key(b[h], k), " expected ", e, r.out, r.err); t.nontrivial();
}
SUB("make2d", 2) {
    V<long> d = {2 + long(t.draw(3)), 1 + long(t.draw(3))}; size_t x = t.draw(3); bool bad = t.chance(1, 20) && x > 0; for (size_t i = 0; i < x; ++i) d.push_back(1); if (bad) d.back() = 2; Str f = create(t, "m", [&](fitsfile* p) { image(t, p, d, true); int st = 0; double v = 5; for (const char* k : {"CRVAL3", "CDELT3", "CRPIX4", "PC3_1", "PC1_3", "CTYPE3", "PC02_03", "PC03_03"}) if (t.chance(1, 3)) fits_write_key(p, TDOUBLE, k, &v, "extra", &st); ck(st, "extra"); }); auto a = snap(f), w = a; t.note(show(a[0])); if (!bad && x == 0) { TOOL(f, "make2d"); same(a, snap(f), "make2d of a 2D image"); return; } auto r = TOOL(f, "make2d"); if (bad) { CHECK(!r.err.empty() || !r.out.empty(), "refused silently"); same(a, snap(f), "refused make2d"); return; } int nx = int(d.size()); w[0].dim.resize(2); w[0].keys.clear(); for (auto& k : a[0].keys) { bool extra = false; for (int i = 3; i <= nx; ++i) { Str s = std::to_string(i); for (const char* b : {"CRVAL", "CDELT", "CRPIX", "CTYPE", "CUNIT", "CROTA"}) if (k.first == b + s) extra = true; for (int j = 1; j <= nx; ++j) { Str u = std::to_string(j); for (auto& q : {"PC" + s + "_" + u, "PC" + u + "_" + s, "PC0" + s + "_0" + u, "PC0" + u + "_0" + s}) if (k.first == q) extra = true; } } if (!extra) w[0].keys.push_back(k); } same(w, snap(f), "make2d"); t.nontrivial();
}
SUB("meta", 2) { // no data is lost, and the columns that stay share a dimension
    Str f = tfile(t, t.coin()); auto a = snap(f); t.note(show(a[1])); auto r = TOOL(f, "meta", "force"); auto b = snap(f); CHECK(b.size() == 2 || b.size() == 3, "number of HDUs ", b.size()); V<Col> c = b[1].cols; if (b.size() == 3) { CHECK(b[2].rows == 1 && !b[2].cols.empty()); c.insert(c.end(), b[2].cols.begin(), b[2].cols.end()); } CHECK(c.size() == a[1].cols.size(), "number of columns ", c.size()); for (auto& x : a[1].cols) { bool ok = false; for (auto& y : c) ok = ok || y == x; CHECK(ok, "column ", x.name, " is lost"); } CHECK(!b[1].cols.empty(), "no column left"); bool common = false; for (long d : b[1].cols[0].dim) { bool all = true; for (auto& x : b[1].cols) all = all && std::find(x.dim.begin(), x.dim.end(), d) != x.dim.end(); if (b.size() == 3) for (auto& x : b[2].cols) all = all && std::find(x.dim.begin(), x.dim.end(), d) == x.dim.end(); common = common || all; } CHECK(common, "the columns that stay do not share a dimension"); size_t i = 0, j = 0; for (auto& x : a[1].cols) { if (i < b[1].cols.size() && b[1].cols[i].name == x.name) ++i; else if (b.size() == 3 && j < b[2].cols.size() && b[2].cols[j].name == x.name) ++j; } same(a[0], b[0], "primary"); if (b.size() == 3) t.nontrivial();
}
SUB("extract", 2) {
    Str f = create(t, "e", [&](fitsfile* p) { image(t, p, {2, 2}, t.coin()); size_t n = 1 + t.draw(3); for (size_t i = 0; i < n; ++i) if (t.coin()) image(t, p, {1 + long(t.draw(3)), 2}, t.coin()); else table(t, p, 1 + long(t.draw(3)), false); }), o = fresh("o"); auto a = snap(f); size_t h = t.draw(a.size()); V<Str> args = {f, "extract", "out=" + o}; if (h || t.coin()) args.push_back("hdu=" + std::to_string(h)); t.note(show(a[h])); if (t.chance(1, 4)) std::ofstream(o) << "old"; run(fitstool::vif_main, args); auto b = snap(o); same(a, snap(f), "the source of extract"); CHECK(b.size() == (a[h].image ? 1 : 2), "number of HDUs"); same(a[h], b.back(), "extract"); if (h) t.nontrivial();
}
