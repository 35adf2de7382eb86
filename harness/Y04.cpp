// Y04: stacking and subtracting the sources of a catalog from the command line (qstack2, subsrc, point source models)
#include "wcs_h.hpp"
#include <vif/astro/image.hpp>
#include <vif/astro/wcs.hpp>
#include <vif/astro/qstack.hpp>
#include "tools_h.hpp"
namespace qstack2 {
#include <../tools/qstack2/qstack2.cpp>
}
namespace subsrc {
#include <../tools/subsrc/subsrc.cpp>
}
namespace psffit {
#include <../tools/psffit/psffit.cpp>
}
using namespace tl; using wh::L; using wh::W;
static int counter = 0;
static Str fresh(const char* n, const char* e = ".fits") { return vp::scratch() + "/" + n + std::to_string(counter++) + e; }
static Str lst(const V<Str>& v) { Str r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r + "]"; }
static void save(const Str& f, V<long> d, V<double> v, const W* w, int type) {
    fitsfile* p = nullptr; int st = 0; fits_create_file(&p, ("!" + f).c_str(), &st); long o[3] = {1, 1, 1}; fits_create_img(p, type, int(d.size()), d.data(), &st); if (!v.empty()) fits_write_pix(p, TDOUBLE, o, LONGLONG(v.size()), v.data(), &st); int k = 42; fits_write_key(p, TINT, "USERKEY", &k, "kept", &st);
    if (w) { auto s = [&](const char* n, const char* x) { fits_write_key(p, TSTRING, n, (void*)x, nullptr, &st); }; auto d1 = [&](const char* n, double x) { fits_write_key(p, TDOUBLE, n, &x, nullptr, &st); }; s("CTYPE1", "RA---TAN"); s("CTYPE2", "DEC--TAN"); s("CUNIT1", "deg"); s("CUNIT2", "deg"); d1("CRVAL1", double(w->ra0)); d1("CRVAL2", double(w->de0)); d1("CRPIX1", double(w->px)); d1("CRPIX2", double(w->py)); d1("CD1_1", double(w->cd[0][0])); d1("CD1_2", double(w->cd[0][1])); d1("CD2_1", double(w->cd[1][0])); d1("CD2_2", double(w->cd[1][1])); } fits_close_file(p, &st); ck(st, "write");
}
static Hdu load(const Str& f, const char* what, const Res& r) { int st = 0; fitsfile* p = nullptr; fits_open_diskfile(&p, f.c_str(), READONLY, &st); if (st) vp::fail(what, ": no output file. ", r.out, r.err); fits_close_file(p, &st); return snap(f)[0]; }
static W wcs(Tape& t) { W w; w.ra0 = double(t.range(20, 340)) + double(t.draw(64))/64; w.de0 = double(t.range(-60, 60)) + double(t.draw(64))/64; w.px = double(t.range(-4, 40))/2; w.py = double(t.range(-4, 40))/2; L s = L(double(1 + t.draw(40))/36000); wh::matrix(w, s, s, t.coin() ? L(0) : L(t.range(-179, 179))); return w; }
// combine the cutouts of a cube, as asked on the command line
static void result(Tape& t, const V<V<double>>& cube, const V<V<double>>& wei, size_t npx, long side, V<Str>& args, const Str& o, bool canw, const V<char>& loose) {
    bool median = t.coin() && !canw, tc = t.chance(1, 4), bs = !tc && t.chance(1, 4) && cube.size() >= 2; size_t nb = 1 + t.draw(6), sb = 1 + t.draw(4); if (median) args.push_back("median"); else if (t.coin()) args.push_back("mean"); if (tc) args.push_back("cube"); if (bs) { args.push_back("bstrap"); args.push_back("nbstrap=" + std::to_string(nb)); if (t.coin()) args.push_back("sbstrap=" + std::to_string(sb)); args.push_back("seed=" + std::to_string(t.draw(1000))); } for (auto& a : args) if (a.find("img") && a.find("cat") && a.find("out")) t.note(a);
    auto r = run(qstack2::vif_main, args); Hdu h = load(o, "qstack2", r); if (tc) { CHECK(h.dim.size() == 3 && h.dim[0] == side && h.dim[1] == long(npx)/side && h.dim[2] == long(cube.size()), "cube of ", show(h), " expected ", cube.size(), " cutouts. ", r.out, r.err); for (size_t i = 0; i < cube.size(); ++i) for (size_t k = 0; k < npx; ++k) { double a = h.pix[i*npx + k], b = cube[i][k]; if (loose[k]) continue; CHECK((std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1e-4 + 1e-5*std::abs(b), "source ", i, " pixel ", k, " is ", a, " expected ", b); } return; }
    CHECK(h.dim.size() == 2 && h.dim[0] == side && h.dim[1] == long(npx)/side, "stack of ", show(h)); for (size_t k = 0; k < npx; ++k) { if (loose[k]) continue; V<double> v; double a = 0, b = 0; bool nan = false; for (size_t i = 0; i < cube.size(); ++i) if (std::isfinite(cube[i][k])) { v.push_back(cube[i][k]); double w = wei.empty() ? 1 : wei[i][k]; a += w*cube[i][k]; b += w; } else nan = true; if (nan) continue; if (median) { std::sort(v.begin(), v.end()); double lo = v[(v.size() - 1)/2], hi = v[v.size()/2]; CHECK(h.pix[k] >= lo - 1e-4 - 1e-5*std::abs(lo) && h.pix[k] <= hi + 1e-4 + 1e-5*std::abs(hi), "median of pixel ", k, " is ", h.pix[k], " expected ", lo, " to ", hi, " over ", v.size()); continue; } double e = a/b; CHECK(std::abs(h.pix[k] - e) <= 1e-4 + 1e-5*std::abs(e), "mean of pixel ", k, " is ", h.pix[k], " expected ", e, " over ", v.size()); }
    if (bs) { Hdu q = load(o.substr(0, o.size() - 5) + "_bs.fits", "bootstrap", r); CHECK(q.dim.size() == 3 && q.dim[2] == long(nb) && q.dim[0] == side, "bootstrap of ", show(q), " expected ", nb); for (size_t k = 0; k < npx; ++k) { if (loose[k]) continue; double lo = INFINITY, hi = -INFINITY; for (auto& c : cube) { if (!std::isfinite(c[k])) { lo = NAN; break; } lo = std::min(lo, c[k]); hi = std::max(hi, c[k]); } if (std::isnan(lo)) continue; for (size_t i = 0; i < nb; ++i) CHECK(q.pix[i*npx + k] >= lo - 1e-3 && q.pix[i*npx + k] <= hi + 1e-3, "bootstrap ", i, " of pixel ", k, " is ", q.pix[i*npx + k], " out of ", lo, " to ", hi); } }
}
SUB("catalog", 4) {
    long nx = 4 + long(t.draw(12)), ny = 4 + long(t.draw(12)), hs = long(t.draw(4)); W w = wcs(t); V<double> v, wt; bool nan = t.chance(1, 4); for (long i = 0; i < nx*ny; ++i) { v.push_back(nan && t.chance(1, 40) ? double(NAN) : double(t.range(-200, 200))/4); wt.push_back(double(1 + t.draw(16))/4); } Str f = fresh("i"), g = fresh("w"), o = fresh("o"), cf; int ty = t.coin() ? DOUBLE_IMG : FLOAT_IMG; save(f, {nx, ny}, v, &w, ty); bool sub = t.chance(1, 3), keep = t.chance(1, 3) && !sub, bywht = t.coin(), weighted = !sub && t.chance(1, 3); size_t n = 1 + t.draw(10); V<double> ra, de, ox, oy; V<long> cx, cy; L fx = 0, fy = 0; if (sub) { fx = L(t.range(-45, 45))/100; fy = L(t.range(-45, 45))/100; }
    for (size_t i = 0; i < n; ++i) { long x = long(t.draw(uint64_t(nx + 4))) - 1, y = long(t.draw(uint64_t(ny + 4))) - 1; L ex = sub ? fx : L(t.range(-4, 4))/10, ey = sub ? fy : L(t.range(-4, 4))/10, a, d; wh::p2s(w, L(x) + ex, L(y) + ey, a, d); bool bad = t.chance(1, 20); ra.push_back(bad ? double(NAN) : double(a)); de.push_back(double(d)); cx.push_back(x); cy.push_back(y); } size_t i0 = 0, i1 = n - 1; V<Str> args; if (t.chance(1, 3)) { i0 = t.draw(n); i1 = i0 + t.draw(n - i0); args.push_back("ids=" + lst({i0 == 0 && t.coin() ? "*" : std::to_string(i0), i1 == n - 1 && t.coin() ? "*" : std::to_string(i1)})); }
    Str pos = t.chance(1, 4) ? "orig" : ""; bool asc = t.chance(1, 4) && pos.empty(); for (double a : ra) if (std::isnan(a)) asc = false; vif::vec1d va, vd; for (double a : ra) va.push_back(a); for (double a : de) vd.push_back(a); if (asc) { cf = fresh("c", ".cat"); std::ofstream s(cf); for (size_t i = 0; i < n; ++i) s << dig(ra[i]) << "  " << dig(de[i]) << "\n"; } else { cf = fresh("c"); Str p = pos.empty() ? "" : pos + "."; vif::fits::write_table(cf, p + "ra", va, p + "dec", vd); } if (!pos.empty()) args.push_back("pos=" + pos);
    args.push_back("cat=" + cf); args.push_back("img=" + f); args.push_back("out=" + o); args.push_back("hsize=" + std::to_string(hs)); if (keep) args.push_back("keepnan"); if (sub) args.push_back("subpixel"); if (weighted) { V<double> q = wt; if (!bywht) for (auto& x : q) x = 1/std::sqrt(x); save(g, {nx, ny}, q, &w, ty); args.push_back((bywht ? "wht=" : "err=") + g); }
    size_t side = size_t(2*hs + 1), npx = side*side; V<V<double>> cube, wc; V<char> loose(npx, 0); for (size_t i = i0; i <= i1; ++i) { if (std::isnan(ra[i])) continue; V<double> c, q; bool bad = false, any = false; for (long y = cy[i] - hs; y <= cy[i] + hs; ++y) for (long x = cx[i] - hs; x <= cx[i] + hs; ++x) { bool in = x >= 1 && y >= 1 && x <= nx && y <= ny; any = any || in; double a = in ? v[size_t((y - 1)*nx + x - 1)] : double(NAN); if (!std::isfinite(a)) bad = true; if (weighted && !in) any = false, bad = true; c.push_back(a); q.push_back(in ? wt[size_t((y - 1)*nx + x - 1)] : 1); } bool full = cx[i] - hs >= 1 && cy[i] - hs >= 1 && cx[i] + hs <= nx && cy[i] + hs <= ny; if (weighted && !full) continue; if (!weighted && !any) continue; if (bad && !keep) continue; cube.push_back(c); wc.push_back(q); }
    if (cube.empty()) throw vp::Discard();
    if (sub) { for (size_t k = 0; k < npx; ++k) { double y = double(long(k)/long(side)) + double(fy), x = double(long(k) % long(side)) + double(fx); if (y < 1e-6 || x < 1e-6 || y > double(side) - 1 - 1e-6 || x > double(side) - 1 - 1e-6) loose[k] = 1; } for (auto& c : cube) { V<double> d = c; for (size_t k = 0; k < npx; ++k) if (!loose[k]) { double y = double(k/side) + double(fy), x = double(k % side) + double(fx); size_t iy = size_t(y), ix = size_t(x); double u = y - double(iy), s = x - double(ix); d[k] = (1 - u)*((1 - s)*c[iy*side + ix] + s*c[iy*side + ix + 1]) + u*((1 - s)*c[(iy + 1)*side + ix] + s*c[(iy + 1)*side + ix + 1]); } c = d; } }
    t.note(ny, "x", nx, " ", cube.size(), " of ", n, " sources", sub ? " offset " : "", double(fx), ",", double(fy)); result(t, cube, weighted ? wc : V<V<double>>(), npx, long(side), args, o, weighted, loose); if (cube.size() > 1) t.nontrivial();
}
SUB("cubes", 2) {
    long nx = 1 + long(t.draw(4)), ny = 1 + long(t.draw(4)); size_t nf = 1 + t.draw(3), npx = size_t(nx*ny); V<V<double>> cube, wc; V<Str> f, g; bool weighted = t.coin(), bywht = t.coin(); for (size_t i = 0; i < nf; ++i) { long n = 1 + long(t.draw(4)); V<double> all, wall; for (long k = 0; k < n; ++k) { V<double> v, w; for (size_t j = 0; j < npx; ++j) { v.push_back(double(t.range(-200, 200))/4); w.push_back(double(1 + t.draw(16))/4); wall.push_back(bywht ? w.back() : 1/std::sqrt(w.back())); } all.insert(all.end(), v.begin(), v.end()); cube.push_back(v); wc.push_back(w); } f.push_back(fresh("i")); g.push_back(fresh("w")); save(f.back(), {nx, ny, n}, all, nullptr, FLOAT_IMG); save(g.back(), {nx, ny, n}, wall, nullptr, FLOAT_IMG); }
    Str o = fresh("o"); V<Str> args = {"img=" + lst(f), "out=" + o}; if (weighted) args.push_back((bywht ? "wht=" : "err=") + lst(g)); size_t n = cube.size(); if (t.coin()) { size_t a = t.draw(n), b = a + t.draw(n - a); args.push_back("ids=" + lst({a == 0 && t.coin() ? "*" : std::to_string(a), b == n - 1 && t.coin() ? "*" : std::to_string(b)})); cube = V<V<double>>(cube.begin() + long(a), cube.begin() + long(b) + 1); wc = V<V<double>>(wc.begin() + long(a), wc.begin() + long(b) + 1); } t.note(nf, " files of ", ny, "x", nx, ", ", cube.size(), " of ", n); result(t, cube, weighted ? wc : V<V<double>>(), npx, nx, args, o, weighted, V<char>(npx, 0)); if (cube.size() > 1) t.nontrivial();
}
static Str model(Tape& t, double& amp, double& wd, double& rp, double& rf, double& rw) { amp = double(1 + t.draw(40))/8; wd = double(4 + t.draw(40))/8; rp = rf = 0; rw = 1; if (t.coin()) return "gaussian," + dig(amp) + "," + (t.coin() ? " " : "") + dig(wd); rp = double(8 + t.draw(30))/8; rf = double(t.draw(8))/16; rw = double(2 + t.draw(10))/8; return "gaussring," + dig(amp) + "," + dig(wd) + "," + dig(rp) + "," + dig(rf) + "," + dig(rw); }
static double at(double r2, double amp, double wd, double rp, double rf, double rw) { double d = std::sqrt(r2) - rp; return amp*(std::exp(-r2/(2*wd*wd)) + rf*std::exp(-d*d/(2*rw*rw))); }
SUB("psf", 2) {
    size_t a = 1 + t.draw(10), b = 1 + t.draw(10); double x0 = double(t.range(-20, 120))/10, y0 = double(t.range(-20, 120))/10; vif::vec2d p; if (t.coin()) { double amp, wd, rp, rf, rw; Str m = model(t, amp, wd, rp, rf, rw); t.note(m, " at ", x0, ",", y0); bool ok = vif::astro::make_psf({{a, b}}, x0, y0, m, p); CHECK(ok && p.dims[0] == a && p.dims[1] == b, "model refused"); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) { double e = at((double(i) - x0)*(double(i) - x0) + (double(j) - y0)*(double(j) - y0), amp, wd, rp, rf, rw); CHECK(std::abs(p(i,j) - e) <= 1e-12 + 1e-10*e, "pixel ", i, ",", j, " is ", p(i,j), " expected ", e); } Mute q; vif::vec2d z; CHECK(!vif::astro::make_psf({{a, b}}, x0, y0, "gaussian,1", z) && !vif::astro::make_psf({{a, b}}, x0, y0, "other,1,1", z), "bad model accepted"); t.nontrivial(); return; }
    // a model image, zero out of its support around the peak
    long n1 = 1 + long(t.draw(7)), n2 = 1 + long(t.draw(7)), py = long(t.draw(uint64_t(n1))), px = long(t.draw(uint64_t(n2))), h = std::min(std::min(py, n1 - 1 - py), std::min(px, n2 - 1 - px)); V<double> v; for (long i = 0; i < n1; ++i) for (long j = 0; j < n2; ++j) v.push_back(i == py && j == px ? 50.0 : double(1 + t.draw(40))); Str f = fresh("p"); save(f, {n2, n1}, v, nullptr, DOUBLE_IMG); if (std::abs(std::abs(x0 - std::floor(x0)) - 0.5) < 1e-6) x0 += 0.1; if (std::abs(std::abs(y0 - std::floor(y0)) - 0.5) < 1e-6) y0 += 0.1; t.note(n1, "x", n2, " peak ", py, ",", px, " at ", x0, ",", y0, " of ", a, "x", b); bool ok = vif::astro::make_psf({{a, b}}, x0, y0, "file," + f, p); CHECK(ok && p.dims[0] == a && p.dims[1] == b, "model refused"); double ix = std::round(x0), iy = std::round(y0);
    for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) { double sy = double(i) - x0 + double(h), sx = double(j) - y0 + double(h), e = 0; bool box = std::abs(double(i) - ix) <= double(h) + 0.1 && std::abs(double(j) - iy) <= double(h) + 0.1; double m = std::min(std::min(sy, 2*double(h) - sy), std::min(sx, 2*double(h) - sx)); if (std::abs(m) < 1e-6 && h > 0) continue; if (h == 0 && std::abs(sx) < 1e-6 && std::abs(sy) < 1e-6) continue; if (box && m > 0) { long ky = long(sy), kx = long(sx); double u = sy - double(ky), s = sx - double(kx); auto q = [&](long y, long x) { return v[size_t((y + py - h)*n2 + x + px - h)]; }; e = (1 - u)*((1 - s)*q(ky, kx) + s*q(ky, kx + 1)) + u*((1 - s)*q(ky + 1, kx) + s*q(ky + 1, kx + 1)); } CHECK(std::abs(p(i,j) - e) <= 1e-9, "pixel ", i, ",", j, " is ", p(i,j), " expected ", e); } if (h > 0) t.nontrivial();
}
SUB("subtract", 3) {
    long nx = 2 + long(t.draw(12)), ny = 2 + long(t.draw(12)); W w = wcs(t); V<double> v; for (long i = 0; i < nx*ny; ++i) v.push_back(double(t.range(-200, 200))/4); Str f = fresh("i"), o = fresh("o"); save(f, {nx, ny}, v, &w, t.coin() ? DOUBLE_IMG : FLOAT_IMG); double amp, wd, rp, rf, rw; Str m = model(t, amp, wd, rp, rf, rw); size_t n = 1 + t.draw(6); vif::vec1d ra, de; vif::vec1f fl; vif::vec1u id; V<L> sx, sy; for (size_t i = 0; i < n; ++i) { L x = L(t.range(-10, 10*nx + 10))/10, y = L(t.range(-10, 10*ny + 10))/10, a, d; wh::p2s(w, x, y, a, d); ra.push_back(double(a)); de.push_back(double(d)); fl.push_back(t.chance(1, 8) ? float(NAN) : t.chance(1, 8) ? -1.0f : float(1 + t.draw(200))/8); id.push_back(10 + 3*i); sx.push_back(x); sy.push_back(y); }
    bool asc = t.chance(1, 4), hasid = t.coin(); if (asc) for (size_t i = 0; i < n; ++i) fl[i] = std::isnan(fl[i]) ? 1.0f : std::abs(fl[i]); Str c = fresh("c", asc ? ".cat" : ".fits"); V<Str> args = {f, c, "psf=" + (m.find(' ') == Str::npos ? m : m), "out=" + o}; if (t.chance(1, 8)) { args.pop_back(); o = f.substr(0, f.size() - 5) + "_res.fits"; } double fc = 1; if (t.coin()) { fc = double(1 + t.draw(40))/8; args.push_back("fconv=" + dig(fc)); } V<char> use(n, 1); size_t nb = 1, ib = 0; vif::vec2f f2; vif::vec1s bands; if (asc) { std::ofstream s(c); for (size_t i = 0; i < n; ++i) s << dig(ra[i]) << " " << dig(de[i]) << " " << fl[i] << "\n"; } else { for (size_t i = 0; i < n; ++i) use[i] = std::isfinite(fl[i]) && fl[i] > 0; int sel = int(t.draw(3)); if (sel) { V<Str> l; for (size_t i = 0; i < n; ++i) { bool q = t.coin(); if (q) l.push_back(std::to_string(hasid ? id[i] : i)); if (sel == 1 ? !q : q) use[i] = 0; } if (l.empty()) { if (sel == 1) for (size_t i = 0; i < n; ++i) use[i] = std::isfinite(fl[i]) && fl[i] > 0; } else args.push_back((sel == 1 ? "include=" : "exclude=") + lst(l)); }
        bool many = t.coin(); if (many) { nb = 2 + t.draw(2); ib = t.draw(nb); f2.resize(n, nb); for (size_t i = 0; i < n; ++i) for (size_t b = 0; b < nb; ++b) f2(i,b) = b == ib ? fl[i] : 77.0f; for (size_t b = 0; b < nb; ++b) bands.push_back("b" + std::to_string(b)); args.push_back("bands=^b" + std::to_string(ib) + "$"); } Str p = t.chance(1, 4) ? "pos." : ""; vif::fits::write_table(c, p + "ra", ra, p + "dec", de); if (many) vif::fits::update_table(c, "flux", f2, "bands", bands); else vif::fits::update_table(c, "flux", fl); if (hasid) vif::fits::update_table(c, "id", id); }
    for (auto& a : args) if (a != f && a != c && a.find("out=")) t.note(a); t.note(ny, "x", nx, " ", n, " sources"); auto r = run(subsrc::vif_main, args); Hdu h = load(o, "subsrc", r); CHECK(h.dim.size() == 2 && h.dim[0] == nx && h.dim[1] == ny, "residual of ", show(h)); CHECK(key(h, "USERKEY") == "42", "keyword lost"); size_t cnt = 0; for (char u : use) cnt += size_t(u); for (long y = 0; y < ny; ++y) for (long x = 0; x < nx; ++x) { double e = v[size_t(y*nx + x)], big = std::abs(e); for (size_t i = 0; i < n; ++i) if (use[i]) { double dx = double(L(x + 1) - sx[i]), dy = double(L(y + 1) - sy[i]), s = at(dx*dx + dy*dy, amp, wd, rp, rf, rw)*double(fl[i])/fc; e -= s; big += std::abs(s); } double gv = h.pix[size_t(y*nx + x)]; CHECK(std::abs(gv - e) <= 1e-4*(1 + big), "pixel ", y, ",", x, " is ", gv, " expected ", e); } if (cnt > 0) t.nontrivial();
}
SUB("fit", 2) { // psffit: least squares amplitude of a model at a pixel, with or without a background
    long nx = 3 + long(t.draw(9)), ny = 3 + long(t.draw(9)), cx = long(t.draw(uint64_t(ny))), cy = long(t.draw(uint64_t(nx))); double amp, wd, rp, rf, rw; Str m = model(t, amp, wd, rp, rf, rw); bool nobg = t.coin(), haserr = t.coin(); double fl = double(t.range(-80, 80))/8, bg = double(t.range(-80, 80))/8, fc = t.coin() ? 1.0 : double(1 + t.draw(32))/8, rad = t.chance(1, 3) ? double(16 + t.draw(40))/8 : 0, frac = rad == 0 && t.chance(1, 3) ? double(16 + t.draw(15))/32 : 1; V<double> v, e, p; for (long y = 0; y < ny; ++y) for (long x = 0; x < nx; ++x) { p.push_back(at(double((y - cx)*(y - cx) + (x - cy)*(x - cy)), amp, wd, rp, rf, rw)); double q = bg + fl*p.back() + double(t.range(-8, 8))/16; if (t.chance(1, 40)) q = NAN; v.push_back(q); e.push_back(haserr ? double(2 + t.draw(14))/8 : 1); }
    double top = *std::max_element(p.begin(), p.end()); long double s0 = 0, s1 = 0, s2 = 0, f0 = 0, f1 = 0; size_t n = 0; for (long y = 0; y < ny; ++y) for (long x = 0; x < nx; ++x) { size_t k = size_t(y*nx + x); if (!std::isfinite(v[k])) continue; double r2 = double((y - cx)*(y - cx) + (x - cy)*(x - cy)); if (frac != 1) { double lim = (1 - frac)*top; if (std::abs(p[k] - lim) < 1e-6*top) throw vp::Discard(); if (p[k] <= lim) continue; } else if (rad != 0 && !(r2 < rad*rad)) continue; ++n; long double w = 1/(e[k]*e[k]); s0 += w; s1 += w*p[k]; s2 += w*p[k]*p[k]; f0 += w*v[k]; f1 += w*p[k]*v[k]; } long double det = s0*s2 - s1*s1; if (n < 3 || det <= 1e-4L*s0*s2 || s2 < 1e-8) throw vp::Discard(); double wf, we, wb = 0, wbe = 0; if (nobg) { wf = double(f1/s2); we = double(1/sqrtl(s2)); } else { wf = double((s0*f1 - s1*f0)/det); we = double(sqrtl(s0/det)); wb = double((s2*f0 - s1*f1)/det); wbe = double(sqrtl(s2/det)); }
    Str f = fresh("i"), g = fresh("e"), r1 = fresh("r"); save(f, {nx, ny}, v, nullptr, DOUBLE_IMG); save(g, {nx, ny}, e, nullptr, DOUBLE_IMG); V<Str> args = {f, std::to_string(cx), std::to_string(cy), "psf=" + m, "residual=" + r1, "save"}; if (haserr) args.push_back("error=" + g); if (nobg) args.push_back("nobg"); if (fc != 1) args.push_back("fconv=" + dig(fc)); if (rad != 0) args.push_back("radius=" + dig(rad)); if (frac != 1) args.push_back("psf_frac=" + dig(frac)); if (t.coin()) args.push_back("silent"); for (size_t i = 1; i < args.size(); ++i) if (args[i][0] != 'r' && args[i].find("error")) t.note(args[i]); t.note(ny, "x", nx); auto r = run(psffit::vif_main, args); double gf = NAN, ge = NAN, gb = NAN, gbe = NAN; Str o = f.substr(0, f.size() - 5) + "_flx.fits"; vif::fits::read_table(o, "flux", gf, "flux_err", ge); auto ok = [](double a, double b, double s) { return std::abs(a - b) <= 1e-6*(std::abs(b) + s); }; double sc = std::abs(wf) + we; CHECK(ok(gf, fc*wf, fc*sc) && ok(ge, fc*we, 0), "flux ", gf, " +/- ", ge, " expected ", fc*wf, " +/- ", fc*we); if (!nobg) { vif::fits::read_table(o, "bg", gb, "bg_err", gbe); CHECK(ok(gb, fc*wb, fc*(std::abs(wb) + wbe)) && ok(gbe, fc*wbe, 0), "background ", gb, " +/- ", gbe, " expected ", fc*wb, " +/- ", fc*wbe); }
    Hdu h = load(r1, "residual", r); CHECK(h.dim.size() == 2 && h.dim[0] == nx && h.dim[1] == ny, "residual of ", show(h)); for (size_t k = 0; k < v.size(); ++k) { double x = v[k] - wf*p[k]; CHECK(std::isnan(x) ? std::isnan(h.pix[k]) : std::abs(x - h.pix[k]) <= 1e-5*(1 + std::abs(v[k]) + sc*p[k]), "residual of pixel ", k, " is ", h.pix[k], " expected ", x); } t.nontrivial();
}
