// Y03: the command line tools that work on catalogs and coordinates (fits2ascii, qxmatch2, sex2deg, deg2sex)
#include "tools_h.hpp"
namespace fits2ascii {
#include <../tools/fits2ascii/fits2ascii.cpp>
}
namespace qxmatch2 {
#include <../tools/qxmatch2/qxmatch2.cpp>
}
namespace findsrc {
#include <../tools/findsrc/findsrc.cpp>
}
namespace deg2sex_ {
#include <../tools/deg2sex/deg2sex.cpp>
}
namespace sex2deg_ {
#include <../tools/sex2deg/sex2deg.cpp>
}
using namespace tl; typedef long double L; static const L D2R = acosl(-1.0L)/180;
static int counter = 0;
static Str fresh(const char* n, const char* e = ".fits") { return vp::scratch() + "/" + n + std::to_string(counter++) + e; }
static Str lst(const V<Str>& v) { Str r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; }
struct C { Str name, type; long n2 = 0; V<Str> s; V<double> v; Str f; };
static bool tok(const C& c, size_t i, const Str& g) { if (c.type == "string") return g == c.s[i]; if (c.type == "bool") return c.v[i] != 0 ? g == "1" || g == "true" || g == "T" : g == "0" || g == "false" || g == "F"; char* e = nullptr; double d = strtod(g.c_str(), &e); if (*e || g.empty()) return false; if (c.type == "float" || c.type == "double") return std::isnan(c.v[i]) ? std::isnan(d) : c.v[i] == d || std::abs(d - c.v[i]) <= 1e-5*std::abs(c.v[i]); return d == c.v[i]; }
SUB("ascii", 4) {
    size_t nr = 1 + t.draw(6), nc = 1 + t.draw(6); bool rows = t.coin(); if (rows && nr == 1) nr = 2; V<C> cs; for (size_t i = 0; i < nc; ++i) { C c; c.name = Str(1, char('A' + i)) + t.pick({Str("FLUX"), Str("X"), Str("_1")}); c.type = t.pick({Str("string"), Str("bool"), Str("byte"), Str("int"), Str("float"), Str("double")}); c.n2 = c.type != "string" && t.chance(1, 3) ? 2 + long(t.draw(3)) : 0; size_t n = nr*size_t(c.n2 ? c.n2 : 1); for (size_t k = 0; k < n; ++k) { Str s; double v = 0; if (c.type == "string") s = vp::gen_str(t, "abcXYZ_-+.019", 1, 6); else if (c.type == "bool") v = double(k ? t.draw(2) : 0); else if (c.type == "byte") v = double(2 + t.draw(254)); else if (c.type == "int") v = double(t.coin() ? t.range(-100, 100) : t.range(-2000000000, 2000000000)); else { v = double(t.range(-1000000, 1000000))/64*std::pow(10.0, double(t.range(-8, 8))); if (t.chance(1, 10)) v = NAN; if (c.type == "float") v = double(float(v)); } c.s.push_back(s); c.v.push_back(v); } cs.push_back(c); }
    C zc; for (auto& c : cs) if (!rows && c.n2 && c.n2 != long(nr) && zc.name.empty() && t.coin()) { zc.name = "ZNAMES"; zc.f = c.name; zc.type = "string"; for (long j = 0; j < c.n2; ++j) zc.s.push_back(Str(1, char('A' + j)) + vp::gen_str(t, "abXY9", 0, 3)); }
    Str f = fresh("t"), o = fresh("a", ".dat"); { fitsfile* p = nullptr; int st = 0; fits_create_file(&p, f.c_str(), &st); fits_create_tbl(p, BINARY_TBL, rows ? LONGLONG(nr) : 1, 0, nullptr, nullptr, nullptr, nullptr, &st); int q = 0; for (auto& c : cs) { ++q; size_t per = size_t(c.n2 ? c.n2 : 1)*(rows ? 1 : nr); Str fm; size_t w = 0; if (c.type == "string") { for (auto& s : c.s) w = std::max(w, s.size()); fm = std::to_string(w*per) + "A"; } else fm = std::to_string(per) + (c.type == "bool" ? "B" : c.type == "byte" ? "B" : c.type == "int" ? t.pick({Str("J"), Str("K")}) : c.type == "float" ? Str("E") : Str("D")); Str nm = c.name; fits_insert_col(p, q, &nm[0], &fm[0], &st); V<long> d; if (c.type == "string") d.push_back(long(w)); if (c.n2) d.push_back(c.n2); if (!rows) d.push_back(long(nr)); if (d.size() > 1) fits_write_tdim(p, q, int(d.size()), d.data(), &st);
            if (c.type == "string") { Str b; for (auto& s : c.s) { Str x = s; x.resize(w, ' '); b += x; } long rl = 0; if (rows) { V<char*> a; for (auto& s : c.s) a.push_back(&s[0]); fits_write_col(p, TSTRING, q, 1, 1, LONGLONG(nr), a.data(), &st); } else { (void)rl; fits_write_col(p, TBYTE, q, 1, 1, 0, &b[0], &st); V<char*> a; V<Str> z; z.push_back(b); a.push_back(&z[0][0]); fits_write_col(p, TSTRING, q, 1, 1, 1, a.data(), &st); } } else { V<double> v = c.v; fits_write_col(p, TDOUBLE, q, 1, 1, LONGLONG(v.size()), v.data(), &st); } } if (!zc.name.empty()) { size_t w = 0; for (auto& x : zc.s) w = std::max(w, x.size()); Str b; for (auto& x : zc.s) { Str y = x; y.resize(w, ' '); b += y; } Str nm = zc.name, fm = std::to_string(b.size()) + "A"; fits_insert_col(p, ++q, &nm[0], &fm[0], &st); long d[2] = {long(w), long(zc.s.size())}; fits_write_tdim(p, q, 2, d, &st); char* bp = &b[0]; fits_write_col(p, TSTRING, q, 1, 1, 1, &bp, &st); } fits_close_file(p, &st); ck(st, "table"); }
    V<Str> args = {f, o}; V<size_t> ids; if (t.chance(1, 3)) { size_t n = 1 + t.draw(5); for (size_t i = 0; i < n; ++i) ids.push_back(t.draw(nr)); vif::vec1u u; for (size_t i : ids) u.push_back(i); Str g = fresh("i"); vif::fits::write_table(g, "ids", u); args.push_back("ids=" + g); } else for (size_t i = 0; i < nr; ++i) ids.push_back(i);
    V<C> sel; int how = int(t.draw(4)); V<Str> pat; for (auto& c : cs) { bool p = how >= 2 && t.coin(); if (p) pat.push_back("^" + vif::to_lower(c.name) + "$"); if (how == 2 && !p) continue; if (how == 3 && p) continue; sel.push_back(c); } if (how == 2 && pat.empty()) sel = cs; if (how >= 2 && !pat.empty()) args.push_back((how == 2 ? "include=" : "exclude=") + lst(pat));
    V<Str> ren, spl; V<C> out; bool single = false; for (auto& c : sel) { if (c.n2) { if (single || t.chance(1, 4)) continue; Str w = (t.coin() ? vif::to_lower(c.name) : c.name); V<Str> nm; int k = int(t.draw(3)); if (k == 0) { for (long j = 0; j < c.n2; ++j) nm.push_back(c.name + "_" + std::to_string(j)); } else if (k == 1) { w += ":"; V<Str> e; for (long j = 0; j < c.n2; ++j) { e.push_back(Str(1, char('p' + j)) + vp::gen_str(t, "xy", 0, 2)); nm.push_back("m_" + e.back()); } w += "m_:" + lst(e); single = true; spl.clear(); for (size_t z = 0; z < out.size();) if (out[z].n2) out.erase(out.begin() + long(z)); else ++z; } else { if (zc.f != c.name) continue; w += Str(":g_:#") + (t.coin() ? "znames" : "ZNAMES"); for (auto& x : zc.s) nm.push_back("g_" + vif::to_lower(x)); } spl.push_back(w); for (long j = 0; j < c.n2; ++j) { C d = c; d.f = nm[size_t(j)]; d.s.clear(); d.v.clear(); for (size_t i = 0; i < nr; ++i) { d.s.push_back(c.s[i*size_t(c.n2) + size_t(j)]); d.v.push_back(c.v[i*size_t(c.n2) + size_t(j)]); } out.push_back(d); } } else { C d = c; if (t.chance(1, 4)) { d.f = "new" + vif::to_lower(c.name); ren.push_back(c.name + ":" + d.f); } else d.f = vif::to_lower(c.name); out.push_back(d); } } if (!ren.empty()) args.push_back("rename=" + lst(ren)); if (!spl.empty()) args.push_back("split=" + (single ? spl[0] : lst(spl))); if (out.empty()) throw vp::Discard();
    for (auto& c : cs) t.note(c.name, ":", c.type, "x", c.n2); for (size_t i = 2; i < args.size(); ++i) t.note(args[i].find("ids=") == 0 ? Str("ids") : args[i]); t.note(nr, rows ? " rows" : " in one row"); auto r = run(fits2ascii::vif_main, args); std::ifstream s(o); CHECK(s.good(), "no output: ", r.out, r.err); V<V<Str>> l; Str x; while (std::getline(s, x)) { std::istringstream q(x); V<Str> w; Str y; while (q >> y) w.push_back(y); l.push_back(w); }
    CHECK(l.size() == 3 + ids.size(), l.size(), " lines for ", ids.size(), " rows. ", r.out, r.err); CHECK(l[0].size() == out.size() + 1 && l[0][0] == "#" && l[1].size() == out.size() + 1 && l[1][0] == "#", "header with ", l[0].size() - 1, " columns, expected ", out.size(), r.out, r.err); for (size_t j = 0; j < out.size(); ++j) { if (!out[j].f.empty()) CHECK(l[0][j+1] == out[j].f || (out[j].n2 && vif::to_lower(l[0][j+1]) == vif::to_lower(out[j].f)), "column ", j, " is named ", l[0][j+1], " expected ", out[j].f); CHECK(l[1][j+1] == "[" + out[j].type + "]", "column ", j, " has type ", l[1][j+1]); } for (size_t i = 0; i < ids.size(); ++i) { CHECK(l[i+3].size() == out.size(), "row ", i, " has ", l[i+3].size(), " values, expected ", out.size()); for (size_t j = 0; j < out.size(); ++j) CHECK(tok(out[j], ids[i], l[i+3][j]), "row ", i, " column ", out[j].f, " is ", l[i+3][j], " expected ", out[j].s[ids[i]], " ", out[j].v[ids[i]]); } if (out.size() > 1) t.nontrivial();
}
static L sep(L r1, L d1, L r2, L d2) { L s1 = sinl((d1 - d2)*D2R/2), s2 = sinl((r1 - r2)*D2R/2); return 2*asinl(std::min(L(1), sqrtl(s1*s1 + cosl(d1*D2R)*cosl(d2*D2R)*s2*s2)))/D2R*3600; }
static double rd(const Col& c, size_t i) { unsigned char b[8]; size_t w = c.type == 'J' || c.type == 'E' ? 4 : 8; for (size_t k = 0; k < w; ++k) b[w - 1 - k] = (unsigned char)c.bytes[i*w + k]; if (c.type == 'D') { double v; memcpy(&v, b, 8); return v; } if (c.type == 'K') { int64_t v; memcpy(&v, b, 8); return double(v); } if (c.type == 'J') { int32_t v; memcpy(&v, b, 4); return double(v); } float v; memcpy(&v, b, 4); return double(v); }
SUB("match", 3) {
    bool self = t.chance(1, 3), brute = t.coin(), mirror = t.coin(); size_t nth = 1 + t.draw(3); V<double> ra[2], de[2]; double r0 = double(t.range(0, 359)), d0 = double(t.range(-60, 60)), w = std::pow(10.0, -double(t.draw(4))); for (int c = 0; c < (self ? 1 : 2); ++c) { size_t n = nth + 1 + t.draw(14); for (size_t i = 0; i < n; ++i) { ra[c].push_back(r0 + w*(2*t.unit() - 1)); de[c].push_back(d0 + w*(2*t.unit() - 1)); } } Str f[2] = {fresh("c"), fresh("c")}, o = fresh("m"), pre = t.chance(1, 4) ? "pos." : "", nr = t.chance(1, 4) ? "alpha" : "ra", nd = nr == "ra" ? "dec" : "delta";
    for (int c = 0; c < (self ? 1 : 2); ++c) { vif::vec1d a, d; for (double v : ra[c]) a.push_back(v); for (double v : de[c]) d.push_back(v); vif::fits::write_table(f[c], pre + nr, a, pre + nd, d); } V<Str> args = {"cats=" + (self ? (t.coin() ? f[0] : lst({f[0]})) : lst({f[0], f[1]})), "output=" + o, "nth=" + std::to_string(nth)}; if (!pre.empty()) args.push_back("pos=pos"); if (nr != "ra") { args.push_back("radec1=" + lst({nr, nd})); if (!self) args.push_back("radec2=" + lst({nr, nd})); } if (brute) args.push_back("brute"); if (!mirror) args.push_back("no_mirror"); if (t.chance(1, 4)) args.push_back("thread=" + std::to_string(1 + t.draw(3))); for (size_t i = 2; i < args.size(); ++i) t.note(args[i]); t.note(ra[0].size(), "x", ra[1].size(), self ? " self" : "", " width ", w); auto r = run(qxmatch2::vif_main, args); std::ifstream ex(o); CHECK(ex.good(), "no output. ", r.out, r.err); auto s = snap(o); CHECK(s.size() == 2); std::map<Str, Col> m; for (auto& c : s[1].cols) m[c.name] = c; CHECK(m.count("ID") && m.count("D"), "columns");
    auto cmp = [&](const Col& id, const Col& d, int a, int b, size_t k, bool sf) { size_t n = ra[a].size(); CHECK(id.rep == long(n*k) && d.rep == long(n*k), "size of ", id.name, " is ", id.rep, " expected ", n*k); for (size_t i = 0; i < n; ++i) { V<std::pair<L,size_t>> e; for (size_t j = 0; j < ra[b].size(); ++j) if (!sf || i != j) e.push_back({sep(ra[a][i], de[a][i], ra[b][j], de[b][j]), j}); std::sort(e.begin(), e.end()); for (size_t q = 0; q < k; ++q) { double g = rd(d, q*n + i), gi = rd(id, q*n + i); CHECK(q < e.size(), "harness"); CHECK(std::abs(g - double(e[q].first)) <= 1e-6 + 1e-9*double(e[q].first), "source ", i, " neighbor ", q, " at ", g, " expected ", double(e[q].first)); CHECK(gi >= 0 && gi < double(ra[b].size()), "id ", gi); size_t j = size_t(gi); CHECK((!sf || i != j) && std::abs(double(sep(ra[a][i], de[a][i], ra[b][j], de[b][j])) - g) <= 2e-6 + 1e-9*g, "source ", i, " neighbor ", q, " is ", j, " expected ", e[q].second); } } };
    if (self) cmp(m["ID"], m["D"], 0, 0, nth, true); else { cmp(m["ID"], m["D"], 0, 1, nth, false); if (mirror) { CHECK(m.count("RID") && m.count("RD"), "no mirror"); cmp(m["RID"], m["RD"], 1, 0, 1, false); } } t.nontrivial();
}
SUB("sexagesimal", 2) {
    long ms = long(t.draw(86400000)), md = long(t.draw(324000000)); bool ng = t.coin(); auto fmt = [](long n, bool s) { char b[60]; snprintf(b, sizeof b, "%s%02ld:%02ld:%02ld.%03ld", s ? "-" : "", n/3600000, (n/60000) % 60, (n/1000) % 60, n % 1000); return Str(b); }; Str a = fmt(ms, false), b = fmt(md, ng); L ra = L(ms)/3600000*15, de = L(md)/3600000*(ng ? -1 : 1); t.note(a, " ", b); auto r = run(sex2deg_::vif_main, {a, b}); double x = 0, y = 0; std::istringstream s(r.out); CHECK(r.rc == 0 && bool(s >> x >> y), "sex2deg printed ", r.out, r.err); CHECK(std::abs(x - double(ra)) < 1e-8 && std::abs(y - double(de)) < 1e-8, "sex2deg: ", x, " ", y, " expected ", double(ra), " ", double(de));
    char p[60], q[60]; snprintf(p, sizeof p, "%.12Lf", ra); snprintf(q, sizeof q, "%.12Lf", de); auto u = run(deg2sex_::vif_main, {p, q}); Str ga, gb; std::istringstream v(u.out); CHECK(u.rc == 0 && bool(v >> ga >> gb), "deg2sex printed ", u.out, u.err); auto val = [](const Str& z, L& d) { long h, m; double c; int n = 0; Str w = z; bool neg = w[0] == '-'; if (neg || w[0] == '+') w = w.substr(1); if (sscanf(w.c_str(), "%ld:%ld:%lf%n", &h, &m, &c, &n) != 3 || size_t(n) != w.size() || m > 59 || c > 60) return false; d = (L(h) + L(m)/60 + L(c)/3600)*(neg ? -1 : 1); return true; }; L da, dd; CHECK(val(ga, da) && val(gb, dd), "deg2sex printed ", u.out); L er = fabsl(da*15 - ra); er = std::min(er, fabsl(er - 360)); CHECK(er*3600 <= 0.16L && fabsl(dd - de)*3600 <= 0.011L, "deg2sex: ", u.out, " expected ", a, " ", b); auto bad = run(sex2deg_::vif_main, {"12:x:3", b}); CHECK(bad.rc != 0, "sex2deg accepted 12:x:3"); bad = run(deg2sex_::vif_main, {"abc", "1"}); CHECK(bad.rc != 0, "deg2sex accepted abc"); t.nontrivial();
}
SUB("find", 2) { // findsrc lists the nearest sources
    size_t n = 1 + t.draw(20), k = t.chance(1, 4) ? 10 : 1 + t.draw(n); bool def = k == 10 && n >= 10 && t.coin(); if (k > n) k = n; double r0 = double(t.range(1, 358)), d0 = double(t.range(-60, 60)), w = std::pow(10.0, -double(t.draw(4))); vif::vec1d ra, de, mag; for (size_t i = 0; i < n; ++i) { ra.push_back(r0 + w*(2*t.unit() - 1)); de.push_back(d0 + w*(2*t.unit() - 1)); mag.push_back(double(t.range(-1000, 1000))/8); } int nm = int(t.draw(3)); Str f = fresh("c"), a = nm == 0 ? "ra" : nm == 1 ? "pos.ra" : "alpha", b = nm == 0 ? "dec" : nm == 1 ? "pos.dec" : "delta"; vif::fits::write_table(f, a, ra, b, de, "mag", mag); V<Str> args = {f}; L tr, td; bool ids = t.chance(1, 3), several = false; V<size_t> want; if (ids) { several = t.coin(); if (several) { size_t m = 2 + t.draw(3); V<Str> l; for (size_t i = 0; i < m; ++i) { want.push_back(t.draw(n)); l.push_back(std::to_string(want.back())); } args.push_back("id"); args.push_back(lst(l)); tr = td = 0; } else { size_t i = t.draw(n); args.push_back("id"); args.push_back(std::to_string(i)); tr = ra[i]; td = de[i]; } }
    else if (t.coin()) { tr = L(r0 + w*(2*t.unit() - 1)); td = L(d0 + w*(2*t.unit() - 1)); args.push_back(dig(double(tr))); args.push_back(dig(double(td))); } else { long ms = lroundl(L(r0)/15*3600*1000), md = lroundl(fabsl(L(d0))*3600*1000); bool ng = d0 < 0; char s[60]; snprintf(s, sizeof s, "%02ld:%02ld:%02ld.%03ld", ms/3600000, (ms/60000) % 60, (ms/1000) % 60, ms % 1000); args.push_back(s); snprintf(s, sizeof s, "%s%02ld:%02ld:%02ld.%03ld", ng ? "-" : "", md/3600000, (md/60000) % 60, (md/1000) % 60, md % 1000); args.push_back(s); tr = L(ms)/3600000*15; td = L(md)/3600000*(ng ? -1 : 1); }
    if (nm == 2) { args.push_back("ra=alpha"); args.push_back("dec=delta"); } if (!def) args.push_back("nsrc=" + std::to_string(k)); bool show = t.coin(); if (show) args.push_back("show=[mag]"); for (size_t i = 1; i < args.size(); ++i) t.note(args[i]); t.note(n, " sources"); auto r = run(findsrc::vif_main, args); V<std::pair<L,size_t>> e; if (several) for (size_t i : want) e.push_back({0, i}); else { for (size_t i = 0; i < n; ++i) e.push_back({sep(tr, td, ra[i], de[i]), i}); std::sort(e.begin(), e.end()); e.resize(k); } std::istringstream s(r.out); Str l; size_t c = 0; while (std::getline(s, l)) { size_t i; double d; unsigned long id; int m = 0; if (sscanf(l.c_str(), "%zu: %lf\", id=%lu%n", &i, &d, &id, &m) != 3) continue; CHECK(c < e.size() && i == c, "line ", l); CHECK(std::abs(d - double(e[c].first)) <= 1e-4 + 2e-5*double(e[c].first), "source ", c, " at ", d, " expected ", double(e[c].first)); CHECK(id < n && (id == e[c].second || (!several && std::abs(double(sep(tr, td, ra[id], de[id]) - e[c].first)) < 1e-5)), "source ", c, " is ", id, " expected ", e[c].second); if (show) { double g = 0; CHECK(sscanf(l.c_str() + m, ", mag=%lf", &g) == 1 && std::abs(g - mag[id]) <= 2e-5*std::abs(mag[id]) + 1e-9, "shown ", l, " expected ", mag[id]); } ++c; } CHECK(c == e.size(), c, " sources listed, expected ", e.size(), ": ", r.out, r.err); t.nontrivial();
}
