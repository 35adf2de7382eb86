// Y02: the command line tools that work on images (imgtool, qconvol, qmask, qregrid, radec2pix)
#include "tools_h.hpp"
#include "wcs_h.hpp"
#include <vif/astro/image.hpp>
#include <vif/astro/wcs.hpp>
namespace imgtool { using vif::astro::rotate;
#include <../tools/imgtool/imgtool.cpp>
}
namespace qconvol {
#include <../tools/qconvol/qconvol.cpp>
}
namespace qmask {
#include <../tools/qmask/qmask.cpp>
}
namespace qregrid {
#include <../tools/qregrid/qregrid.cpp>
}
namespace radec2pix {
#include <../tools/radec2pix/radec2pix.cpp>
}
using namespace tl; using wh::L; using wh::W; using vif::vec2d;
static int counter = 0;
static Str fresh(const char* n) { return vp::scratch() + "/" + n + std::to_string(counter++) + ".fits"; }
// an image of ny rows and nx columns; the first pixel of FITS is (0,0)
struct Im { long nx = 0, ny = 0; V<double> v; double at(long y, long x) const { return y < 0 || x < 0 || y >= ny || x >= nx ? 0.0 : v[size_t(y*nx + x)]; } double top() const { double m = 0; for (double a : v) m += std::abs(a); return m; } };
static Str str(const Im& a) { std::ostringstream o; o << a.ny << "x" << a.nx; for (size_t i = 0; i < a.v.size() && i < 40; ++i) o << (i ? "," : ":") << a.v[i]; return o.str(); }
static Im pix(Tape& t, long nx, long ny) { Im a; a.nx = nx; a.ny = ny; bool sparse = t.coin(); for (long i = 0; i < nx*ny; ++i) a.v.push_back(sparse && t.chance(2, 3) ? 0.0 : double(t.range(-50, 50))/4); return a; }
static void save(const Str& f, const Im& a, const W* w, int type = DOUBLE_IMG) {
    fitsfile* p = nullptr; int st = 0; fits_create_file(&p, ("!" + f).c_str(), &st); long d[2] = {a.nx, a.ny}, o[2] = {1, 1}; fits_create_img(p, type, 2, d, &st); V<double> c = a.v; if (!c.empty()) fits_write_pix(p, TDOUBLE, o, LONGLONG(c.size()), c.data(), &st);
    int k = 42; fits_write_key(p, TINT, "USERKEY", &k, "kept", &st); if (w) { auto s = [&](const char* n, const char* v) { fits_write_key(p, TSTRING, n, (void*)v, nullptr, &st); }; auto d1 = [&](const char* n, double v) { fits_write_key(p, TDOUBLE, n, &v, nullptr, &st); }; s("CTYPE1", "RA---TAN"); s("CTYPE2", "DEC--TAN"); s("CUNIT1", "deg"); s("CUNIT2", "deg"); d1("CRVAL1", double(w->ra0)); d1("CRVAL2", double(w->de0)); d1("CRPIX1", double(w->px)); d1("CRPIX2", double(w->py)); d1("CD1_1", double(w->cd[0][0])); d1("CD1_2", double(w->cd[0][1])); d1("CD2_1", double(w->cd[1][0])); d1("CD2_2", double(w->cd[1][1])); }
    fits_close_file(p, &st); ck(st, "write");
}
static Im load(const Str& f, const char* what, const Res& r) { int st = 0; fitsfile* p = nullptr; fits_open_diskfile(&p, f.c_str(), READONLY, &st); if (st) vp::fail(what, ": no output file. ", r.out, r.err); fits_close_file(p, &st); auto s = snap(f); Im a; CHECK(s[0].dim.size() == 2, what, ": the output is not a 2D image"); a.nx = s[0].dim[0]; a.ny = s[0].dim[1]; a.v = s[0].pix; return a; }
static void same(const Im& want, const Im& got, double tol, const char* what) { CHECK(want.nx == got.nx && want.ny == got.ny, what, ": ", str(got), " expected ", str(want)); for (size_t i = 0; i < want.v.size(); ++i) { bool ok = std::isnan(want.v[i]) ? std::isnan(got.v[i]) : std::abs(want.v[i] - got.v[i]) <= tol; CHECK(ok, what, ": pixel ", long(i)/want.nx, ",", long(i) % want.nx, " is ", got.v[i], " expected ", want.v[i]); } }
static void kept(const Str& in, const Str& out, const char* what) { auto a = snap(in), b = snap(out); for (auto& k : a[0].keys) if (k.first != "BSCALE" && k.first != "BZERO") { Str x = k.second, y = key(b[0], k.first); bool ok = x == y; if (!ok && !y.empty() && x[0] != '\'') ok = std::abs(strtod(x.c_str(), nullptr) - strtod(y.c_str(), nullptr)) <= 1e-12*std::abs(strtod(x.c_str(), nullptr)); CHECK(ok, what, ": keyword ", k.first, " is ", y, " expected ", x); } }
static Im conv(const Im& a, const Im& k, long cy, long cx) { Im r = a; for (long y = 0; y < a.ny; ++y) for (long x = 0; x < a.nx; ++x) { double s = 0; for (long i = 0; i < k.ny; ++i) for (long j = 0; j < k.nx; ++j) s += a.at(y - (i - cy), x - (j - cx))*k.at(i, j); r.v[size_t(y*a.nx + x)] = s; } return r; }
static W wcs(Tape& t, long nx, long ny, bool rot = true) { W w; w.ra0 = double(t.range(20, 340)) + double(t.draw(64))/64; w.de0 = double(t.range(-60, 60)) + double(t.draw(64))/64; w.nx = size_t(nx); w.ny = size_t(ny); w.px = double(t.range(-4, 40))/2; w.py = double(t.range(-4, 40))/2; L s = L(double(1 + t.draw(40))/36000); wh::matrix(w, s, s, !rot || t.coin() ? L(0) : L(t.range(-179, 179))); return w; }
static long size(Tape& t, long lo, long hi) { return lo + long(t.draw(uint64_t(hi - lo + 1))); }
static int type(Tape& t) { return t.coin() ? DOUBLE_IMG : FLOAT_IMG; }
static Str outfile(Tape& t, bool sub) { if (sub && t.chance(1, 4)) { Str d = vp::scratch() + "/d" + std::to_string(counter++); return d + "/o.fits"; } return fresh("o"); }
SUB("multiply", 2) {
    Im a = pix(t, size(t, 1, 6), size(t, 1, 6)); Str f = fresh("i"), o = outfile(t, true); save(f, a, nullptr, type(t)); double v = double(t.range(-4000, 4000))/64; if (t.chance(1, 4)) v = std::pow(10.0, double(t.range(-12, 12)));
    t.note(str(a), " x ", v); auto r = run(imgtool::vif_main, {Str(t.coin() ? "multiply" : "MULTIPLY"), f, dig(v), o}); Im b = load(o, "multiply", r), w = a; for (auto& x : w.v) x *= v; same(w, b, 0, "multiply"); Im c = load(f, "input", r); same(a, c, 0, "the input of multiply"); if (v != 0) t.nontrivial();
    Str o2 = fresh("n"); auto r2 = run(imgtool::vif_main, {"multiply", f, "abc", o2}); CHECK(!std::ifstream(o2).good() && !(r2.out + r2.err).empty(), "multiply by a word was accepted");
}
SUB("convolve", 3) {
    Im a = pix(t, size(t, 1, 8), size(t, 1, 8)), k = pix(t, 1 + 2*size(t, 0, 3), 1 + 2*size(t, 0, 3)); bool norm = t.coin(); double tot = 0; for (double x : k.v) tot += x; if (norm && std::abs(tot) < 0.2) throw vp::Discard(); Str f = fresh("i"), g = fresh("k"), o = outfile(t, true); save(f, a, nullptr, type(t)); save(g, k, nullptr, type(t)); t.note(str(a), " * ", str(k), norm ? " normalized" : ""); V<Str> args = {"convolve", f, g, o}; if (norm) args.push_back(t.coin() ? "normalize" : "normalize=1"); auto r = run(imgtool::vif_main, args); Im q = k; if (norm) for (auto& x : q.v) x /= tot; same(conv(a, q, k.ny/2, k.nx/2), load(o, "convolve", r), 1e-10*(1 + a.top()*q.top()), "convolve"); if (a.top() > 0 && k.v.size() > 1) t.nontrivial();
}
SUB("rotate", 3) {
    Im a = pix(t, size(t, 1, 8), size(t, 1, 8)); double ang = t.coin() ? 90.0*double(t.range(-4, 4)) : double(t.range(-36000, 36000))/100; Str f = fresh("i"), o = outfile(t, true); save(f, a, nullptr, type(t)); t.note(str(a), " by ", ang); auto r = run(imgtool::vif_main, {"rotate", f, dig(ang), o}); Im b = load(o, "rotate", r); CHECK(b.nx == a.nx && b.ny == a.ny, "rotate: dimensions"); double c = std::cos(ang*M_PI/180), s = std::sin(ang*M_PI/180); long in = 0;
    for (long y = 0; y < a.ny; ++y) for (long x = 0; x < a.nx; ++x) { double dx = double(x - a.nx/2), dy = double(y - a.ny/2), sx = c*dx + s*dy + double(a.nx/2), sy = c*dy - s*dx + double(a.ny/2), g = b.at(y, x); auto margin = [](double p, long n) { return std::min(p, double(n - 1) - p); }; double m = std::min(margin(sx, a.nx), margin(sy, a.ny)); if (m < -1e-6) { CHECK(std::isnan(g), "rotate: pixel ", y, ",", x, " is ", g, " but comes from outside"); continue; } if (m < 1e-6) { if (std::isnan(g)) continue; } double fx = std::floor(sx), fy = std::floor(sy), u = sx - fx, v = sy - fy; long ix = long(fx), iy = long(fy); double w = (1 - v)*((1 - u)*a.at(iy, ix) + u*a.at(iy, ix + 1)) + v*((1 - u)*a.at(iy + 1, ix) + u*a.at(iy + 1, ix + 1)); if (ix < 0 || iy < 0) continue; CHECK(std::abs(g - w) <= 1e-9*(1 + a.top()), "rotate: pixel ", y, ",", x, " is ", g, " expected ", w); ++in; }
    if (in > 3 && ang != 0) t.nontrivial();
}
SUB("gaussian", 3) {
    Im a = pix(t, size(t, 1, 12), size(t, 1, 12)); bool as = t.coin(); W w = wcs(t, a.nx, a.ny); Str f = fresh("i"), o = fresh("o"); save(f, a, as || t.coin() ? &w : nullptr, type(t)); double rad = double(10 + t.draw(300))/100; bool def = t.chance(1, 10) && !as; if (def) rad = 1; V<Str> args = {f, "out=" + o}; if (!def) args.push_back("radius=" + dig(as ? rad*double(w.scale())*3600 : rad)); if (as) args.push_back("arcsec"); if (t.coin()) std::reverse(args.begin() + 1, args.end()); t.note(str(a), " radius ", rad, as ? " arcsec" : ""); auto r = run(qconvol::vif_main, args); Im b = load(o, "qconvol", r); kept(f, o, "qconvol");
    double s = rad/std::sqrt(2*std::log(2.0)); long h = 15; Im k; k.nx = k.ny = 2*h + 1; auto g = [&](long i) { double e = s*std::sqrt(2.0); return 0.5*(std::erf((double(i) + 0.5)/e) - std::erf((double(i) - 0.5)/e)); }; for (long i = -h; i <= h; ++i) for (long j = -h; j <= h; ++j) k.v.push_back(g(i)*g(j)); double big = 0; for (double x : a.v) big = std::max(big, std::abs(x)); same(conv(a, k, h, h), b, 2e-4*(big + 1e-9), "qconvol"); if (a.top() > 0) t.nontrivial();
}
SUB("kernel", 3) {
    Im a = pix(t, size(t, 1, 8), size(t, 1, 8)), k = pix(t, size(t, 1, 9), size(t, 1, 9)); long py = long(t.draw(uint64_t(k.ny))), px = long(t.draw(uint64_t(k.nx))), h = std::min(std::min(py, k.ny - 1 - py), std::min(px, k.nx - 1 - px)); bool trim = t.coin(); long hs = trim ? long(t.draw(uint64_t(h + 1))) : h; for (long y = 0; y < k.ny; ++y) for (long x = 0; x < k.nx; ++x) { double& v = k.v[size_t(y*k.nx + x)]; if (std::max(std::abs(y - py), std::abs(x - px)) > hs) { if (trim) v = 0; } else if (y == py || x == px) { if (v == 0) v = 1; } } k.v[size_t(py*k.nx + px)] = 20;
    Str f = fresh("i"), g = fresh("k"), o = fresh("o"); W w = wcs(t, a.nx, a.ny); save(f, a, t.coin() ? &w : nullptr, type(t)); save(g, k, nullptr, type(t)); t.note(str(a), " * ", str(k), " peak ", py, ",", px, " half size ", hs); auto r = run(qconvol::vif_main, {f, "kernel=" + g, "out=" + o}); Im q = k; for (long y = 0; y < k.ny; ++y) for (long x = 0; x < k.nx; ++x) if (std::max(std::abs(y - py), std::abs(x - px)) > h) q.v[size_t(y*k.nx + x)] = 0; same(conv(a, q, py, px), load(o, "qconvol", r), 1e-10*(1 + a.top()*q.top()), "qconvol"); kept(f, o, "qconvol"); if (a.top() > 0 && (py != k.ny/2 || px != k.nx/2)) t.nontrivial();
}
static Str sexa(double h, bool sign, long& tot, long frac) { (void)h; Str s; long n = tot; char b[40]; snprintf(b, sizeof b, "%s%02ld:%02ld:%02ld.%03ld", sign ? "-" : "", n/3600, (n/60) % 60, n % 60, frac); return b; }
SUB("mask", 4) {
    long nx = size(t, 2, 16), ny = size(t, 2, 16); Im a = pix(t, nx, ny); W w = wcs(t, nx, ny); bool phys = t.coin(); Str f = fresh("i"), o = fresh("m"), g = f + ".reg"; save(f, a, !phys || t.coin() ? &w : nullptr, type(t)); std::ofstream s(g); s << "# Region file format: DS9 version 4.1\n"; if (t.coin()) s << "global color=green dashlist=8 3 width=1\n"; s << (phys ? "physical" : "fk5") << "\n"; size_t n = t.chance(1, 20) ? 0 : 1 + t.draw(4); Im m; m.nx = nx; m.ny = ny; m.v.assign(size_t(nx*ny), 0); bool any = false, part = false; Str note;
    V<char> loose(m.v.size(), 0);
    for (size_t i = 0; i < n; ++i) { L x = L(t.range(-20, 10*nx + 20))/10, y = L(t.range(-20, 10*ny + 20))/10, r = L(double(1 + t.draw(60)))/10; char b[200]; if (phys) { if (t.coin()) { x = roundl(x); y = roundl(y); } snprintf(b, sizeof b, "%.12Lg,%.12Lg,%.12Lg", x, y, r); } else { L ra, de; wh::p2s(w, x, y, ra, de); if (t.coin()) { long ms = lroundl(ra/15*3600*1000), md = lroundl(fabsl(de)*3600*1000), ts = ms/1000, td = md/1000; ra = L(ms)/1000/3600*15; bool ng = de < 0; de = L(md)/1000/3600*(ng ? -1 : 1); Str q = sexa(0, false, ts, ms % 1000) + (t.coin() ? "," : ", ") + sexa(0, ng, td, md % 1000); snprintf(b, sizeof b, "%s,%.12Lg\"", q.c_str(), r*w.scale()*3600); } else snprintf(b, sizeof b, "%.12Lg,%.12Lg,%.12Lg\"", ra, de, r*w.scale()*3600); wh::s2p(w, ra, de, x, y); }
        s << "circle(" << b << ")" << (t.chance(1, 4) ? " # color=red" : "") << "\n"; note += Str(" circle(") + b + ")"; if (t.chance(1, 5)) s << "box(1,2,3,4,0)\n"; if (t.chance(1, 5)) s << "\n# a comment (1,2,3)\n";
        bool off = x - 1 + r < 0.01L || y - 1 + r < 0.01L; for (long iy = 0; iy < ny; ++iy) for (long ix = 0; ix < nx; ++ix) { double c = 0; for (L dy : {-0.5L, 0.5L}) for (L dx : {-0.5L, 0.5L}) { L d = hypotl(L(ix + 1) + dx - x, L(iy + 1) + dy - y); if (d <= r) c += 0.25; if (fabsl(d - r) < 2e-3L) loose[size_t(iy*nx + ix)] = 1; } if (c > 0 && off) loose[size_t(iy*nx + ix)] = 1; m.v[size_t(iy*nx + ix)] += c; } }
    s.close(); for (double& v : m.v) { v = std::min(v, 1.0); if (v > 0) any = true; if (v < 1) part = true; } t.note(ny, "x", nx, note, phys ? " physical" : ""); V<Str> args = {f, g}; if (t.coin()) args.push_back(o); else o = f.substr(0, f.size() - 5) + "_msk.fits"; auto r = run(qmask::vif_main, args); Im b = load(o, "qmask", r); for (size_t i = 0; i < m.v.size() && i < b.v.size(); ++i) if (loose[i]) m.v[i] = b.v[i]; same(m, b, 1e-12, "qmask"); kept(f, o, "qmask"); if (any && part) t.nontrivial();
}
SUB("radec", 2) {
    W w = wcs(t, size(t, 2, 16), size(t, 2, 16)); Im a = pix(t, long(w.nx), long(w.ny)); Str f = fresh("i"); save(f, a, &w); size_t n = 1 + t.draw(4); V<Str> args = {f}; V<L> e; for (size_t i = 0; i < n; ++i) { L x = L(t.range(-500, 500))/8, y = L(t.range(-500, 500))/8, ra, de; wh::p2s(w, x, y, ra, de); if (t.coin()) { long ms = lroundl(ra/15*3600*1000), md = lroundl(fabsl(de)*3600*1000), ts = ms/1000, td = md/1000; bool ng = de < 0; ra = L(ms)/1000/3600*15; de = L(md)/1000/3600*(ng ? -1 : 1); args.push_back(sexa(0, false, ts, ms % 1000)); args.push_back(sexa(0, ng, td, md % 1000)); } else { char b[50]; snprintf(b, sizeof b, "%.14Lg", ra); args.push_back(b); snprintf(b, sizeof b, "%.14Lg", de); args.push_back(b); } wh::s2p(w, ra, de, x, y); e.push_back(x); e.push_back(y); }
    if (t.chance(1, 10)) { args.push_back("12.5"); auto r = run(radec2pix::vif_main, args); CHECK(r.rc != 0, "an odd number of coordinates was accepted"); return; } for (auto& s : args) t.note(s); auto r = run(radec2pix::vif_main, args); CHECK(r.rc == 0, "radec2pix: ", r.out, r.err); std::istringstream s(r.out); for (size_t i = 0; i < e.size(); ++i) { double v; CHECK(bool(s >> v), "radec2pix printed ", r.out); CHECK(std::abs(v - double(e[i])) <= 1e-3 + 2e-5*std::abs(double(e[i])), "radec2pix: coordinate ", i, " is ", v, " expected ", double(e[i])); } Str x; CHECK(!(s >> x), "radec2pix printed too much: ", r.out); t.nontrivial();
}
// the grid is checked against the projection, the pixels against the library
SUB("regrid", 3) {
    long nx = size(t, 2, 12), ny = size(t, 2, 12); Im a = pix(t, nx, ny); W w = wcs(t, nx, ny, t.coin()); Str f = fresh("i"), g = fresh("t"), o = outfile(t, true), we; save(f, a, &w, type(t)); V<Str> args = {f, o}; Str mt = t.pick({Str(""), Str("drizzle"), Str("nearest"), Str("linear"), Str("cubic")}); if (!mt.empty()) args.push_back("method=" + mt); bool fast = t.chance(1, 4), cons = t.coin(); double pf = 1; if (t.chance(1, 3)) { pf = double(20 + t.draw(80))/100; args.push_back("pixfrac=" + dig(pf)); } if (fast) args.push_back("fast"); if (cons) args.push_back("conserve_flux"); bool driz = mt.empty() || mt == "drizzle"; if (driz && t.coin()) { we = fresh("w"); args.push_back("weight=" + we); }
    double sc = double(w.scale())*3600, rt = std::pow(2.0, double(t.range(-20, 20))/10); int how = int(t.draw(3)); W d; if (how == 0) args.push_back("aspix=" + dig(sc*rt)); else if (how == 1) args.push_back("ratio=" + dig(1/rt)); else { d = w; d.nx = 1 + t.draw(12); d.ny = 1 + t.draw(12); d.px += double(t.range(-8, 8))/4; d.py += double(t.range(-8, 8))/4; L s = w.scale()*L(rt); wh::matrix(d, s, s, t.coin() ? L(0) : L(t.range(-179, 179))); save(g, pix(t, long(d.nx), long(d.ny)), &d); args.push_back("template=" + g); } for (size_t i = 2; i < args.size(); ++i) t.note(args[i]); t.note(ny, "x", nx); auto r = run(qregrid::vif_main, args); Im b = load(o, "qregrid", r);
    if (how < 2) { auto ok = [&](long n, long m) { double e = double(n)/rt; return double(m) >= std::ceil(e - 1e-6) - 1e-9 && (double(m) <= std::max(1.0, std::ceil(e + 1e-6))) && m >= 1; }; CHECK(ok(nx, b.nx) && ok(ny, b.ny), "qregrid: output of ", b.ny, "x", b.nx, " for a pixel ", rt, " times larger"); d.nx = size_t(b.nx); d.ny = size_t(b.ny); wh::p2s(w, L(nx/2 + 1), L(ny/2 + 1), d.ra0, d.de0); d.px = b.nx/2 + 1; d.py = b.ny/2 + 1; wh::matrix(d, L(sc*rt)/3600, L(sc*rt)/3600, 0); } else CHECK(b.nx == long(d.nx) && b.ny == long(d.ny), "qregrid: not the size of the template");
    vif::astro::wcs wd(vif::fits::read_header(o)), ws(vif::fits::read_header(f)); for (int i = 0; i < 3; ++i) { L x = L(1 + t.draw(d.nx)), y = L(1 + t.draw(d.ny)), ra, de, u, v; wh::p2s(d, x, y, ra, de); double gr, gd; vif::astro::xy2ad(wd, double(x), double(y), gr, gd); wh::s2p(d, L(gr), L(gd), u, v); CHECK(fabsl(u - x) < 0.02L && fabsl(v - y) < 0.02L, "qregrid: pixel ", double(x), ",", double(y), " of the output is at ", gr, ",", gd, " expected ", double(ra), ",", double(de)); }
    vec2d img = vif::replicate(0.0, size_t(ny), size_t(nx)), wei, res; for (size_t i = 0; i < a.v.size(); ++i) img[i] = a.v[i]; if (driz) { vif::astro::regrid_drizzle_params p; p.pixfrac = pf; if (fast) p.dest_pixfrac = p.linearize = true; res = vif::astro::regrid_drizzle(img, ws, wd, wei, p); } else { vif::astro::regrid_interpolate_params p; p.conserve_flux = cons; p.linearize = fast; p.method = mt == "nearest" ? vif::astro::interpolation_method::nearest : mt == "linear" ? vif::astro::interpolation_method::linear : vif::astro::interpolation_method::cubic; res = vif::astro::regrid_interpolate(img, ws, wd, p); }
    Im e = b; CHECK(res.dims[0] == size_t(b.ny) && res.dims[1] == size_t(b.nx), "dims"); for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = res[i]; same(e, b, 1e-9*(1 + a.top()), "qregrid"); if (!we.empty()) { Im q = load(we, "qregrid weight", r); for (size_t i = 0; i < e.v.size(); ++i) e.v[i] = wei[i]; same(e, q, 1e-9*(1 + a.top()), "qregrid weight"); } if (nx != ny) t.nontrivial();
}
