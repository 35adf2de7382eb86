// X13: DS9 region files and the masks made from them
#include "wcs_h.hpp"
#include <vif/utility/string.hpp>
#include <vif/math/convex_hull.hpp>
#include <vif/astro/image.hpp>
#include <vif/astro/wcs.hpp>
#include <vif/astro/ds9.hpp>
#include <fstream>
using namespace vif; using namespace wh; using vp::Tape; using vp::errors; using Str = std::string; namespace ds9 = vif::astro::ds9; using R = ds9::region; template<class T> using V = std::vector<T>;
static W gen(Tape& t) { W w; w.ra0 = double(t.range(20, 340)); w.de0 = double(t.range(-60, 60)); w.nx = 3 + t.draw(20); w.ny = 3 + t.draw(20); w.px = double(t.range(0, 20)); w.py = double(t.range(0, 20)); L s = L(double(1 + t.draw(20))/36000); wh::matrix(w, s, s, t.coin() ? L(0) : L(t.range(-179, 179))); build(w); return w; }
static Str g12(double v) { char b[40]; snprintf(b, sizeof b, "%.12g", v); return b; }
static Str pad(Tape& t) { return t.chance(1, 4) ? Str(1 + t.draw(2), ' ') : Str(); }
static Str put(const Str& s) { Str f = vp::scratch() + "/r.reg"; std::ofstream(f) << s; return f; }
struct Mute { std::ostringstream o; std::streambuf *b, *e; Mute() { b = std::cout.rdbuf(o.rdbuf()); e = std::cerr.rdbuf(o.rdbuf()); } ~Mute() { std::cout.rdbuf(b); std::cerr.rdbuf(e); } };
static double coord(Tape& t, double s) { return t.coin() ? double(t.range(-5, 30)) : s*(2*t.unit() - 1) + s/2; }
static void same(const R& a, const R& b, double tol, const char* w) { CHECK(a.type == b.type && a.physical == b.physical && a.params.size() == b.params.size(), w, ": ", a.type, " ", int(a.physical), " expected ", b.type, " ", int(b.physical)); for (size_t i = 0; i < a.params.size(); ++i) CHECK(std::fabs(a.params[i] - b.params[i]) <= tol*(1 + std::fabs(b.params[i])), w, ": parameter ", int(i), " of ", a.type, " is ", a.params[i], " expected ", b.params[i]); }
SUB("read", 4) { // a text with regions, options, comments and lines that cannot be used
    Str txt, col = "green"; bool phys = false; V<R> want; size_t n = t.draw(7), warn = 0; if (t.chance(2, 3)) txt += "# Region file format: DS9 version 4.1\n"; if (t.chance(1, 2)) { col = t.pick({Str("red"), Str("blue"), Str("#ff0")}); txt += "global " + Str(t.coin() ? "dash=0 " : "") + "color=" + col + Str(t.coin() ? " width=1" : "") + "\n"; } if (t.coin()) { phys = true; txt += pad(t) + "physical" + pad(t) + "\n"; } else if (t.coin()) txt += "fk5\n";
    for (size_t i = 0; i < n; ++i) { R r; r.physical = phys; r.color = col; bool box = t.coin(); r.type = box ? "box" : "circle"; double x = phys ? coord(t, 30) : 360*t.unit(), y = phys ? coord(t, 30) : 180*t.unit() - 90, a = t.unit()*20, b = t.unit()*20, c = double(t.range(-180, 180)); Str sx = g12(x), sy = g12(y), q = phys ? "" : "\""; bool ok = true;
        if (!phys && t.chance(1, 3)) { int h = int(t.draw(24)), m = int(t.draw(60)), s = int(t.draw(6000)), d = int(t.range(-89, 89)), dm = int(t.draw(60)), ds = int(t.draw(6000)); char u[40]; snprintf(u, 40, "%02d:%02d:%05.2f", h, m, s/100.0); sx = u; snprintf(u, 40, "%s%02d:%02d:%05.2f", d < 0 ? "-" : "", std::abs(d), dm, ds/100.0); sy = u; x = 15*(h + m/60.0 + s/360000.0); y = (d < 0 ? -1 : 1)*(std::abs(d) + dm/60.0 + ds/360000.0); }
        Str sa = g12(a) + q, sb = g12(b) + q, sc = g12(c); V<Str> ar = box ? V<Str>{sx, sy, sa, sb, sc} : V<Str>{sx, sy, sa};
        if (t.chance(1, 5)) { ok = false; switch (t.draw(6)) { case 0: ar.pop_back(); break; case 1: ar.push_back("1"); break; case 2: ar[t.draw(ar.size())] = "x"; break; case 3: r.type = "ellipse"; break; case 4: if (phys) ar[0] = "10:20:30"; else ar[0] = "10:20"; break; default: if (phys) ar[2] += "\""; else ar[2] = g12(a); } }
        txt += pad(t) + r.type + pad(t) + "(" + pad(t); for (size_t k = 0; k < ar.size(); ++k) txt += (k ? "," + pad(t) : Str()) + ar[k] + pad(t); txt += ")"; if (t.chance(1, 2)) { txt += " #"; if (t.coin()) { r.color = t.pick({Str("cyan"), Str("red"), Str("white")}); txt += " color=" + r.color; } if (t.coin()) { r.text = vp::gen_str(t, "ab1_", 1, 5); txt += " text=" + r.text; } if (t.coin()) txt += " width=2"; } txt += "\n";
        if (ok) { if (phys) { x -= 1; y -= 1; } r.params = box ? vec1d{x, y, a, b, c} : vec1d{x, y, a}; want.push_back(r); } else ++warn; if (t.chance(1, 6)) txt += t.pick({Str("\n"), Str("# circle(1,2,3)\n"), Str("   \n"), Str("  # box\n")}); }
    t.note(txt); vec<1,R> got; bool pre = t.chance(1, 4); if (pre) { R z; z.type = "box"; got.push_back(z); } Str f = put(txt), out; { Mute m; ds9::read_regions(f, got); out = m.o.str(); } CHECK(got.size() == want.size() + pre, int(got.size()), " regions instead of ", int(want.size() + pre)); for (size_t i = 0; i < want.size(); ++i) { auto& g = got[i + pre]; same(g, want[i], 1e-9, "read"); CHECK(g.color == want[i].color, "color ", g.color, " expected ", want[i].color); CHECK(g.text == want[i].text, "text ", g.text, " expected ", want[i].text); } CHECK(warn == 0 ? out.empty() : out.find("warning") != Str::npos, "warnings: ", out, " for ", int(warn), " bad lines"); CHECK(errors([&] { ds9::read_regions(f + "none", got); }), "missing file accepted"); if (!phys && !want.empty()) { vec<1,R> z; CHECK(errors([&] { Mute m; ds9::read_regions_physical(f, z); }), "sky regions accepted as pixels"); } if (phys) { vec<1,R> z; { Mute m; ds9::read_regions_physical(f, z); } CHECK(z.size() == want.size(), "physical regions"); for (size_t i = 0; i < want.size(); ++i) same(z[i], want[i], 1e-9, "read_regions_physical"); } if (want.size() > 1) t.nontrivial();
}
static V<R> regions(Tape& t, const W& w, int kind) { // 0 pixels, 1 sky, 2 mixed
    V<R> r(1 + t.draw(4)); for (auto& x : r) { x.type = t.coin() ? "box" : "circle"; x.physical = kind == 0 || (kind == 2 && t.coin()); L p = coord(t, double(w.nx)), q = coord(t, double(w.ny)), s = x.physical ? 1 : w.scale()*3600, a, d; if (!x.physical) { p2s(w, p + 1, q + 1, a, d); p = a; q = d; } x.params = {double(p), double(q), double(s)*(0.1 + 10*t.unit())}; if (x.type == "box") { x.params.push_back(double(s)*(0.1 + 10*t.unit())); x.params.push_back(double(t.range(-180, 180))); } } return r;
}
static R convert(const W& w, R r, bool phys) { if (r.physical == phys) return r; L a, b, s = w.scale()*3600; if (phys) { s2p(w, r.params[0], r.params[1], a, b); a -= 1; b -= 1; s = 1/s; } else p2s(w, r.params[0] + 1, r.params[1] + 1, a, b); r.params[0] = double(a); r.params[1] = double(b); r.params[2] *= double(s); if (r.type == "box") r.params[3] *= double(s); r.physical = phys; return r; }
SUB("convert", 3) {
    W g = gen(t); astro::wcs w(g.hdr); for (auto& r : regions(t, g, 2)) { t.note(r.type, " ", r.params, " ", int(r.physical)); R s = ds9::physical_to_wcs(w, r), p = ds9::wcs_to_physical(w, r); same(s, convert(g, r, false), 1e-6, "on the sky"); same(p, convert(g, r, true), 1e-5, "in pixels"); same(ds9::wcs_to_physical(w, s), p, 1e-5, "back to pixels"); CHECK(s.color == r.color && s.text == r.text); t.nontrivial(); }
}
SUB("write", 4) { // regions that are written are read back
    W g = gen(t); astro::wcs w(g.hdr); int k = int(t.draw(3)); V<R> v = regions(t, g, k == 2 ? 0 : 2); vec<1,R> q, z; for (auto& r : v) q.push_back(r); for (auto& r : v) t.note(r.type, " ", r.params, " ", int(r.physical)); Str f = vp::scratch() + "/w.reg"; t.note(k); Mute m; if (k == 0) ds9::write_regions_wcs(f, q, w); else if (k == 1) ds9::write_regions_physical(f, q, w); else ds9::write_regions_physical(f, q); ds9::read_regions(f, z); CHECK(z.size() == v.size(), int(z.size()), " regions read back instead of ", int(v.size())); for (size_t i = 0; i < v.size(); ++i) same(z[i], convert(g, v[i], k != 0), 1e-5, k == 0 ? "written on the sky" : "written in pixels"); vec<1,R> y; ds9::read_regions_physical(f, w, y); CHECK(y.size() == v.size()); for (size_t i = 0; i < v.size(); ++i) same(y[i], convert(g, v[i], true), 2e-4, "read in pixels"); if (k == 2) { vec<1,R> o; for (auto& r : regions(t, g, 1)) o.push_back(r); CHECK(errors([&] { ds9::write_regions_physical(f, o); }), "sky regions written in pixels without WCS"); } if (v.size() > 1) t.nontrivial();
}
SUB("mask", 4) {
    W g = gen(t); astro::wcs w(g.hdr); vec2b m(g.ny, g.nx), m0; for (size_t i = 0; i < m.size(); ++i) m[i] = t.chance(1, 8); m0 = m; V<R> v = regions(t, g, 0); V<int> want(m.size()); for (size_t i = 0; i < m.size(); ++i) want[i] = m0[i]; for (auto& r : v) { t.note(r.type, " ", r.params); for (size_t y = 0; y < g.ny; ++y) for (size_t x = 0; x < g.nx; ++x) { int& o = want[y*g.nx + x]; L dx = L(x) - r.params[0], dy = L(y) - r.params[1]; int in; if (r.type == "box") { L c = cosl(r.params[4]*D2R), s = sinl(r.params[4]*D2R), a = dx*c + dy*s, b = dy*c - dx*s; L e = std::max(fabsl(a) - L(r.params[2])/2, fabsl(b) - L(r.params[3])/2); in = e < -1e-6L ? 1 : e > 1e-6L ? 0 : 2; } else { int k = 0; bool edge = false; for (int u = -1; u <= 1; u += 2) for (int s = -1; s <= 1; s += 2) { L d = hypotl(dx + 0.5L*u, dy + 0.5L*s) - r.params[2]; if (fabsl(d) < 1e-6L) edge = true; k += d <= 0; } in = edge ? 2 : k >= 3; } if (in == 1) o = 1; else if (in == 2 && o == 0) o = 2; } }
    vec2b a = m, b = m, c = m; for (auto& r : v) ds9::mask_region(r, a); vec<1,R> q; for (auto& r : v) q.push_back(r); ds9::mask_regions(q, b); CHECK(a.data == b.data && a.dims == m.dims, "one by one"); for (size_t i = 0; i < m.size(); ++i) if (want[i] != 2) CHECK(int(a[i]) == want[i], "pixel ", int(i/g.nx), ",", int(i%g.nx), want[i] ? " is not masked" : " is masked"); vec2b z; CHECK(errors([&] { ds9::mask_region(v[0], z); }), "empty mask accepted"); R s = v[0]; s.physical = false; CHECK(errors([&] { ds9::mask_region(s, c); }), "sky region accepted"); { Mute u; R e = v[0]; e.type = "ellipse"; ds9::mask_region(e, c); CHECK(c.data == m.data, "unknown region"); }
    Str txt = "physical\n"; for (auto& r : v) { R e = r; txt += e.type + "(" + g12(e.params[0] + 1) + "," + g12(e.params[1] + 1); for (size_t i = 2; i < e.params.size(); ++i) txt += "," + g12(e.params[i]); txt += ")\n"; } Str f = put(txt); c = m; ds9::mask_regions(f, c); vec2b d = m; ds9::mask_regions(f, w, d); for (size_t i = 0; i < m.size(); ++i) if (want[i] != 2) CHECK(int(c[i]) == want[i] && int(d[i]) == want[i], "mask from a file"); size_t n = 0; for (size_t i = 0; i < m.size(); ++i) n += a[i] != m[i]; if (n) t.nontrivial();
}
