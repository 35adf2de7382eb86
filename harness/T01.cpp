// T01: ASCII tables are written exactly as documented and read back exactly.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <vif/io/ascii.hpp>
using namespace vif;
using vp::Tape; using Str = std::string; using VS = std::vector<Str>; using Grid = std::vector<VS>;
template<class F> static bool errs(F&& f) { try { f(); } catch (vp::Exited&) { return true; } catch (ascii::exception&) { return true; } return false; }
static Str path() { return vp::scratch() + "/t.dat"; }
static Str slurp(const Str& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void spit(const Str& f, const Str& s) { std::ofstream o(f); o << s; }
static Str num(double d) { std::ostringstream o; o << d; return o.str(); }
static Str sci(double d) { std::ostringstream o; o << std::scientific << d; return o.str(); }
static Str padl(const Str& s, size_t w) { return s.size() >= w ? s : Str(w - s.size(), ' ') + s; }
static Str render(const Grid& g, size_t c, const ascii::output_format& o) {
    std::vector<size_t> w(c, o.min_width); if (o.auto_width) { for (auto& r : g) for (size_t j = 0; j < c; ++j) w[j] = std::max(w[j], r[j].size()); if (!o.header.empty()) for (size_t j = 0; j < c; ++j) w[j] = std::max(w[j], o.header[j].size() + (j == 0 ? o.header_chars.size() : 0)); }
    Str s; if (!o.header.empty()) { s += o.header_chars; for (size_t j = 0; j < c; ++j) { if (j) s += o.delim; size_t ww = w[j]; if (j == 0) ww = ww >= o.header_chars.size() ? ww - o.header_chars.size() : ww; s += padl(o.header[j], ww); } s += "\n"; }
    for (auto& r : g) { for (size_t j = 0; j < c; ++j) { if (j) s += o.delim; s += padl(r[j], w[j]); } s += "\n"; } return s;
}
static double nice(Tape& t) { return t.chance(1, 5) ? double(t.range(-9, 9))*std::pow(10.0, double(t.range(-12, 12))) : double(t.range(-4000, 4000))/8.0; }
SUB("write", 5) {
    size_t n = t.size(0, t.chance(1, 10) ? 60 : 6), m = t.size(0, 4); std::vector<int> ci = vp::ints<int>(t, n, -1000, 100000); std::vector<double> cd(n); for (auto& x : cd) x = nice(t); std::vector<Str> cs(n); for (auto& x : cs) x = vp::gen_str(t, "abcXYZ._-0", 1, 8); std::vector<double> v2(n*m), w2(n*m); for (auto& x : v2) x = nice(t); for (auto& x : w2) x = nice(t);
    vec<1,int> i = vp::mk<int>(ci); vec1d d = vp::mk<double>(cd); vec1s s = vp::mk<Str>(cs); vec2d v(n, m), w(n, m); v.data = v2; w.data = w2;
    ascii::output_format o; switch (t.draw(4)) { case 0: o = ascii::output_format::standard(); break; case 1: o = ascii::output_format::csv(); break; default: o.auto_width = t.coin(); o.min_width = t.coin() ? t.draw(9) : 0; o.delim = t.pick({Str(" "), Str(","), Str(" | "), Str(";;"), Str("\t")}); o.header_chars = t.pick({Str("# "), Str("#"), Str("% "), Str("//// ")}); }
    size_t style = t.draw(8); Grid g(n); size_t c = 0; bool ft = t.chance(1, 3) && style != 4 && style != 5 && style != 6 && !(style == 3 && m == 0); VS names;
    for (size_t r = 0; r < n; ++r) { VS& q = g[r]; auto I = [&] { q.push_back(std::to_string(ci[r])); }; auto D = [&] { q.push_back(num(cd[r])); }; auto S = [&] { q.push_back(cs[r]); };
        switch (style) { case 0: I(); D(); S(); break; case 1: D(); break; case 2: S(); I(); break; case 3: I(); for (size_t k = 0; k < m; ++k) q.push_back(num(v2[r*m+k])); S(); break; case 4: I(); for (size_t k = 0; k < m; ++k) { q.push_back(num(v2[r*m+k])); q.push_back(num(w2[r*m+k])); } break; case 5: for (size_t k = 0; k < m; ++k) q.push_back(num(w2[r*m+k])); I(); break; case 6: q.push_back(sci(cd[r])); I(); break; default: I(); q.push_back(num(cd[n-1-r])); } }
    switch (style) { case 0: c = 3; names = {"i", "d", "s"}; break; case 1: c = 1; names = {"d"}; break; case 2: c = 2; names = {"s", "i"}; break; case 3: c = 2 + m; names = {"i"}; for (size_t k = 0; k < m; ++k) names.push_back("v_" + std::to_string(k + 1)); names.push_back("s"); break; case 4: c = 1 + 2*m; break; case 5: c = m + 1; break; case 6: c = 2; break; default: c = 2; names = {"i", "reverse(d)"}; }
    if (ft) o.header = vp::mk<Str>(names); else if (t.coin()) { VS h(c); for (auto& x : h) x = vp::gen_str(t, "hdrNAME_", 1, 7); o.header = vp::mk<Str>(h); if (t.chance(1, 10)) { o.header.push_back("extra"); CHECK(errs([&] { switch (style) { case 0: ascii::write_table(path(), o, i, d, s); break; case 1: ascii::write_table(path(), o, d); break; default: ascii::write_table(path(), o, i, d, s, s, s, s, s, s, s, s, s, s, s, s, s); } }), "wrong header size accepted"); return; } }
    if (!ft && t.chance(1, 12)) { // wrong number of rows
        vec1d e = d; size_t how = t.draw(3); if (how == 0) e.push_back(1.0); else if (how == 1 && n > 0) e = d[indgen<size_t>(n - 1)]; else { e = vec1d(); if (n == 0) e.push_back(2.0); } o.header.clear(); t.note("n=", n, " other=", e.size()); t.label("mismatch"); t.nontrivial(); if (n + 1 == 1 && e.size() == 0) return; CHECK(errs([&] { if (t.coin()) ascii::write_table(path(), o, e, s); else if (t.coin()) ascii::write_table(path(), o, i, e, s); else ascii::write_table(path(), o, i, s, e); }), "columns of different sizes accepted"); return; }
    bool def = !ft && o.header.empty() && t.chance(1, 4); if (def) o = ascii::output_format::standard(); ascii::output_format oo = o; if (ft && t.coin()) { oo.header.clear(); if (t.coin()) oo.header = {"a", "b"}; } Str want = render(g, c, o); t.note("style ", style, " n=", n, " m=", m, " header ", vp::show(vp::tov(o.header)), " ftable ", ft); spit(path(), "old content\nthat must go\n");
    switch (style) {
    case 0: if (ft) ascii::write_table(path(), oo, ftable(i, d, s)); else if (def) ascii::write_table(path(), i, d, s); else ascii::write_table(path(), o, i, d, s); break;
    case 1: if (ft) ascii::write_table(path(), oo, ftable(d)); else if (def) ascii::write_table(path(), d); else ascii::write_table(path(), o, d); break;
    case 2: if (ft) ascii::write_table(path(), oo, ftable(s, i)); else ascii::write_table(path(), o, s, i); break;
    case 3: if (ft) ascii::write_table(path(), oo, ftable(i, v, s)); else if (t.coin()) ascii::write_table(path(), o, i, ascii::columns(m, v), s); else ascii::write_table(path(), o, i, v, s); break;
    case 4: ascii::write_table(path(), o, i, ascii::columns(m, v, w)); break;
    case 5: ascii::write_table(path(), o, ascii::columns(m, w), i); break;
    case 6: ascii::write_table(path(), o, format::scientific(d), i); break;
    default: if (ft) ascii::write_table(path(), oo, ftable(i, reverse(d))); else ascii::write_table(path(), o, i, d[reverse(indgen<size_t>(n))]); break; }
    Str got = slurp(path()); CHECK(got == want, "file contains ", got, " instead of ", want); if (n > 1) t.nontrivial();
    // read it back
    if (style == 0 || style == 4) { ascii::input_format f; f.skip_pattern = o.header_chars.substr(0, 1); bool sp = o.delim.find_first_not_of(" \t") == Str::npos; f.delim = sp ? Str(" \t") : (o.delim == " | " ? Str(" |") : o.delim == ";;" ? Str(" ;") : Str(" ,")); if (n == 0 && false) return;
        vec<1,int> i2; vec1d d2; vec1s s2; vec2d a, b; if (style == 0) { ascii::read_table(path(), f, i2, d2, s2); vp::expect1(i2, ci, "int column"); std::vector<double> e; for (double x : cd) e.push_back(std::stod(num(x))); vp::expect1(d2, e, "double column"); vp::expect1(s2, cs, "string column"); }
        else { ascii::read_table(path(), f, i2, ascii::columns(m, a, b)); vp::expect1(i2, ci, "int column"); std::vector<double> ea, eb; for (double x : v2) ea.push_back(std::stod(num(x))); for (double x : w2) eb.push_back(std::stod(num(x))); vp::expect(a, {{n, m}}, ea, "2d a"); vp::expect(b, {{n, m}}, eb, "2d b"); } t.label("read back"); }
}
SUB("read", 6) {
    size_t n = t.size(0, t.chance(1, 10) ? 40 : 6), m = t.size(1, 3), style = t.draw(9), extra = t.draw(3); bool single = t.coin(); Str del = single ? t.pick({Str(","), Str(";"), Str("::"), Str(", "), Str("\t")}) : Str();
    // column types: i int, d double, s string, x not read
    Str types; size_t need; switch (style) { case 0: types = "ids"; break; case 1: types = "xdxi"; break; case 2: types = "xxs"; break; case 3: types = "i"; for (size_t k = 0; k < m; ++k) types += "di"; break; case 4: types = "i"; for (size_t k = 0; k < m; ++k) types += "dx"; break; case 5: types = Str(m, 'x') + "d"; break; case 6: types = Str(m, 's'); break; case 7: types = "si"; n = std::min<size_t>(n, t.chance(1, 8) ? 2 : 1); break; default: types = "sd" + Str(m, 'd') + "i"; } need = types.size(); types += Str(extra, 'x');
    Grid g(n, VS(types.size())); for (auto& r : g) for (size_t j = 0; j < r.size(); ++j) { switch (types[j]) { case 'i': r[j] = std::to_string(t.range(-2000, 2000)); break; case 'd': r[j] = num(nice(t)); break; default: r[j] = vp::gen_str(t, single ? "abc .#x5\"" : "abc.#x5,\"", single && !(j == 0 && false) ? 0 : 1, 5); if (!single) {} } }
    bool fail = false; Str why; size_t skip_first = t.chance(1, 4) ? 1 + t.draw(2) : 0; bool autosk = t.chance(4, 5); Str pat = t.pick({Str("#"), Str("//"), Str("%%")});
    if (types.size() == 1) for (auto& r : g) if (r[0].empty()) r[0] = "q";
    // keep lines from looking like comments or blanks
    for (auto& r : g) if (types[0] == 's' || types[0] == 'x') { if (r[0].empty() && t.coin() && single && del.find_first_of(" \t") == Str::npos) continue; if (r[0].find_first_of("#/% \t") != Str::npos || r[0].empty()) r[0] = "q" + r[0]; }
    if (n > 0 && t.chance(1, 6)) { size_t r = t.draw(n), j = t.draw(need); if (types[j] == 'i') { g[r][j] = t.pick({Str("12x"), Str("zz"), Str("99999999999"), Str("1.5")}); fail = true; why = "malformed int"; } else if (types[j] == 'd') { g[r][j] = t.pick({Str("1.2.3"), Str("abc"), Str("1e5x")}); fail = true; why = "malformed double"; } }
    if (n > 0 && !fail && t.chance(1, 6)) { size_t r = t.draw(n); size_t keep = t.draw(types.size()) ; if (keep >= 1) { g[r].resize(keep); if (keep == 1 && g[r][0].empty()) g[r][0] = "q"; if (keep < need) { fail = true; why = "too few columns"; } } }
    Str txt; Str nl = t.chance(1, 4) ? "\r\n" : "\n"; for (size_t k = 0; k < skip_first; ++k) txt += t.pick({Str("header"), Str("x,y"), Str("1 2 3")}) + nl; size_t rows = 0;
    auto junk = [&] { while (t.chance(1, 5)) { switch (t.draw(3)) { case 0: txt += nl; break; case 1: if (!autosk) break; txt += Str(t.draw(3), ' ') + pat + " some, comment 5 5" + nl; break; default: txt += t.pick({Str("  "), Str("\t"), Str(" \t ")}) + nl; } } };
    for (size_t r = 0; r < n; ++r) { junk(); if (!single && t.coin()) txt += Str(t.draw(4), ' '); for (size_t j = 0; j < g[r].size(); ++j) { if (j) { if (single) txt += del; else { size_t c = 1 + t.draw(3); for (size_t k = 0; k < c; ++k) txt += t.chance(1, 3) ? '\t' : ' '; } } txt += g[r][j]; } if (!single && t.chance(1, 4)) txt += t.pick({Str(" "), Str("\t "), Str("  ")}); ++rows; if (r + 1 < n || t.chance(3, 4)) txt += nl; }
    if (n == 0 || txt.empty() || txt.back() == '\n') junk();
    if (skip_first && n == 0) { if (t.chance(1, 3)) { skip_first += 1 + t.draw(3); t.label("skip more than there is"); } }
    spit(path(), txt); t.note("style ", style, " m=", m, " single ", single, " delim ", vp::show(del), " skip_first ", skip_first, " pattern ", pat, " auto ", autosk, " file ", vp::show(txt), " fail: ", why);
    ascii::input_format f; f.auto_skip = autosk; f.skip_pattern = pat; f.skip_first = skip_first; if (single) { f.delim = del; f.delim_single = true; } bool def = !single && autosk && pat == "#" && !skip_first; if (single && del == "," && pat == "#" && autosk && !skip_first && t.coin()) f = ascii::input_format::csv();
    vec<1,int> i = {7, 7, 7, 7, 7, 7, 7}, i2; vec1d d = {9.0}; vec1s s = {"z"}; vec2d v, w = vec2d(2, 2); vec<2,int> vi(1, 3); vec2s vs; int si = -5; Str ss = "scalar";
    if (style == 7 && n > 1) { fail = true; }
    bool e = errs([&] { switch (style) {
        case 0: if (def) ascii::read_table(path(), i, d, s); else ascii::read_table(path(), f, i, d, s); break;
        case 1: ascii::read_table(path(), f, _, d, _, i); break;
        case 2: if (t.coin()) ascii::read_table(path(), f, ascii::columns(2, _), s); else ascii::read_table(path(), f, _, _, s); break;
        case 3: ascii::read_table(path(), f, i, ascii::columns(m, v, vi)); break;
        case 4: ascii::read_table(path(), f, i, ascii::columns(m, v, _)); break;
        case 5: ascii::read_table(path(), f, ascii::columns(m, _), d); break;
        case 6: ascii::read_table(path(), f, ascii::columns(m, vs)); break;
        case 7: ascii::read_table(path(), f, ss, si); break;
        default: if (def) ascii::read_table(path(), s, d, ascii::columns(m, w), i); else ascii::read_table(path(), f, s, d, ascii::columns(m, w), i); } });
    CHECK(e == fail, e ? "valid table refused" : "invalid table accepted: ", why); if (n > 1 && need > 1) t.nontrivial(); if (e) { t.label("error"); return; }
    auto colI = [&](size_t j) { std::vector<int> r; for (auto& q : g) r.push_back(std::stoi(q[j])); return r; }; auto colD = [&](size_t j) { std::vector<double> r; for (auto& q : g) r.push_back(std::stod(q[j])); return r; }; auto colS = [&](size_t j) { VS r; for (auto& q : g) r.push_back(q[j]); return r; };
    auto matD = [&](size_t j0, size_t step) { std::vector<double> r; for (auto& q : g) for (size_t k = 0; k < m; ++k) r.push_back(std::stod(q[j0 + k*step])); return r; };
    switch (style) {
    case 0: vp::expect1(i, colI(0), "int"); vp::expect1(d, colD(1), "double"); vp::expect1(s, colS(2), "string"); break;
    case 1: vp::expect1(d, colD(1), "double"); vp::expect1(i, colI(3), "int"); break;
    case 2: vp::expect1(s, colS(2), "string"); break;
    case 3: { vp::expect1(i, colI(0), "int"); vp::expect(v, {{n, m}}, matD(1, 2), "2d"); std::vector<int> r; for (auto& q : g) for (size_t k = 0; k < m; ++k) r.push_back(std::stoi(q[2 + 2*k])); vp::expect(vi, {{n, m}}, r, "2d int"); break; }
    case 4: vp::expect1(i, colI(0), "int"); vp::expect(v, {{n, m}}, matD(1, 2), "2d"); break;
    case 5: vp::expect1(d, colD(m), "double"); break;
    case 6: { VS r; for (auto& q : g) for (size_t k = 0; k < m; ++k) r.push_back(q[k]); vp::expect(vs, {{n, m}}, r, "2d string"); break; }
    case 7: if (n == 1) { CHECK(ss == g[0][0] && si == std::stoi(g[0][1]), "scalars ", ss, " ", si); } else CHECK(ss == "scalar" && si == -5, "scalars changed by an empty table"); break;
    default: vp::expect1(s, colS(0), "string"); vp::expect1(d, colD(1), "double"); vp::expect(w, {{n, m}}, matD(2, 1), "2d"); vp::expect1(i, colI(2 + m), "int"); }
}
SUB("missing", 1) { vec1d d = {1.0}; Str p = vp::scratch() + "/no" + std::to_string(t.draw(100)); CHECK(errs([&] { ascii::read_table(p, d); }), "missing file accepted"); CHECK(errs([&] { ascii::write_table(vp::scratch() + "/nodir/x", d); }), "unwritable file accepted"); }
