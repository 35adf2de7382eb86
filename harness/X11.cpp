// X11: cutouts and stacks.
#include "wcs_h.hpp"
#include <vif/astro/qstack.hpp>
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors; using wh::W; typedef long double L; typedef long long LL;
template<class T> using V = std::vector<T>;
struct Img { W w; vec2d im; std::string name; double at(LL y, LL x) const { return y < 0 || x < 0 || y >= LL(im.dims[0]) || x >= LL(im.dims[1]) ? dnan : im(size_t(y), size_t(x)); } bool in(LL y, LL x) const { return !(y < 0 || x < 0 || y >= LL(im.dims[0]) || x >= LL(im.dims[1])); } };
static Img gen(Tape& t, const W* like, int k) { Img g; if (like) g.w = *like; else { L sc = L(0.1*double(t.range(1, 10)))/3600; g.w.ra0 = double(1 + 350*t.unit()); g.w.de0 = double(-60 + 120*t.unit()); wh::matrix(g.w, sc, sc, t.coin() ? 0 : L(double(360*t.unit()))); } g.w.nx = size_t(t.range(3, 12)); g.w.ny = size_t(t.range(3, 12)); g.w.px = L(t.range(-2, 12)); g.w.py = L(t.range(-2, 12)); wh::build(g.w); g.im.resize(g.w.ny, g.w.nx); for (size_t i = 0; i < g.im.size(); ++i) g.im[i] = 1000*double(k+1) + double(i); if (t.chance(1, 3)) for (auto& x : g.im) if (t.chance(1, 10)) x = t.coin() ? dnan : dinf; g.name = "i" + std::to_string(k) + ".fits"; std::string f = vp::scratch() + "/" + g.name; file::remove(f); fits::write(f, g.im, g.w.hdr); t.note(g.name, " ", int(g.w.nx), "x", int(g.w.ny), " crpix ", double(g.w.px), ",", double(g.w.py), " ", double(g.w.ra0), ",", double(g.w.de0)); return g; }
// a position well inside of a pixel of the first image (and hence of all the others)
struct Src { double ra, dec; double fx, fy; V<LL> x, y; };
static Src src(Tape& t, const V<Img>& g) { Src s; auto& w = g[0].w; s.fx = 0.8*t.unit() - 0.4; s.fy = 0.8*t.unit() - 0.4; LL mg = t.chance(1, 3) ? 6 : 0; LL x = t.range(-mg, LL(w.nx) - 1 + mg), y = t.range(-mg, LL(w.ny) - 1 + mg); L ra, de; wh::p2s(w, L(x) + 1 + s.fx, L(y) + 1 + s.fy, ra, de); s.ra = double(ra); s.dec = double(de); for (auto& q : g) { L px, py; wh::s2p(q.w, s.ra, s.dec, px, py); s.x.push_back(LL(floorl(px - 0.5L))); s.y.push_back(LL(floorl(py - 0.5L))); } t.note("source at pixel ", int(x), "+", s.fx, ",", int(y), "+", s.fy); return s; }
static bool fin(double x) { return std::isfinite(x); }
static V<Img> images(Tape& t, std::string& file) { V<Img> g; g.push_back(gen(t, nullptr, 0)); bool sect = t.chance(1, 3); size_t n = sect ? t.draw(3) : 0; for (size_t i = 0; i < n; ++i) { W w = g[0].w; g.push_back(gen(t, &w, int(i) + 1)); } file = vp::scratch() + "/" + g[0].name; if (sect) { file = vp::scratch() + "/s.sectfits"; std::ofstream o(file); for (auto& q : g) o << q.name << "\n"; } return g; }
SUB("cutout", 5) {
    std::string file; V<Img> g = images(t, file); double as = double(g[0].w.scale()*3600); cutout_extractor ce; ce.setup_image(file); CHECK(vp::near(ce.aspix, as, 1e-4), "pixel size"); size_t n = 1 + t.draw(3); fits::header hdr; for (size_t k = 0; k < n; ++k) { Src s = src(t, g); LL hs = t.range(1, 4); double size = as*(2*double(hs) - 0.1 - 1.8*t.unit()); if (t.chance(1, 6)) { hs = 1; size = 0.5*as; } bool gh = t.coin(), hasdef = t.coin(); double def = hasdef ? -5.0 : dnan; t.note("size ", int(hs), gh ? " header" : ""); vec2d c(2, 2); if (t.coin()) hdr = ""; bool r = gh ? (hasdef ? ce.get_cutout(c, hdr, s.ra, s.dec, size, def) : ce.get_cutout(c, hdr, s.ra, s.dec, size)) : (hasdef ? ce.get_cutout(c, s.ra, s.dec, size, def) : ce.get_cutout(c, s.ra, s.dec, size)); size_t m = size_t(2*hs + 1); CHECK(c.dims[0] == m && c.dims[1] == m, "size of the cutout is ", c.dims[0], "x", c.dims[1], " expected ", m); bool any = false; size_t first = 0; V<double> w(m*m, def); for (size_t i = 0; i < g.size(); ++i) { bool cov = false; for (LL y = -hs; y <= hs; ++y) for (LL x = -hs; x <= hs; ++x) if (g[i].in(s.y[i] + y, s.x[i] + x)) cov = true; if (!cov) continue; for (LL y = -hs; y <= hs; ++y) for (LL x = -hs; x <= hs; ++x) { auto& o = w[size_t(y + hs)*m + size_t(x + hs)]; double v = g[i].in(s.y[i] + y, s.x[i] + x) ? g[i].at(s.y[i] + y, s.x[i] + x) : def; if (!any || !fin(o)) o = v; } if (!any) first = i; any = true; } CHECK(r == any, "covered: ", r, " expected ", any); for (size_t i = 0; i < m*m; ++i) CHECK(vp::same(c[i], w[i]) || (!fin(c[i]) && !fin(w[i])), "pixel ", i, " of the cutout is ", c[i], " expected ", w[i]);
        if (gh) { size_t n1 = 0, n2 = 0; double c1, c2, v1, v2; CHECK(fits::getkey(hdr, "NAXIS1", n1) && fits::getkey(hdr, "NAXIS2", n2) && n1 == m && n2 == m, "dimensions in the header: ", n1, ",", n2, " expected ", m); CHECK(fits::getkey(hdr, "CRPIX1", c1) && fits::getkey(hdr, "CRPIX2", c2) && fits::getkey(hdr, "CRVAL1", v1) && fits::getkey(hdr, "CRVAL2", v2), "keywords"); CHECK(vp::near(v1, s.ra, 1e-13) && vp::near(v2, s.dec, 1e-13), "position in the header"); if (any) { L px, py; wh::s2p(g[first].w, s.ra, s.dec, px, py); CHECK(vp::near(c1, double(px) - 1 - double(s.x[first]) + double(hs) + 1, 1e-6, 1e-5) && vp::near(c2, double(py) - 1 - double(s.y[first]) + double(hs) + 1, 1e-6, 1e-5), "position of the source in the header: ", c1, ",", c2); } astro::wcs q(hdr); CHECK(q.is_valid(), "header of the cutout"); } if (any) t.nontrivial(); }
}
SUB("distortion", 1) {
    std::string file; V<Img> g; g.push_back(gen(t, nullptr, 0)); file = vp::scratch() + "/" + g[0].name; double as = double(g[0].w.scale()*3600); std::string df = vp::scratch() + "/dist.fits"; file::remove(df); Img d = gen(t, &g[0].w, 1); vec2d dr(d.im.dims), dd(d.im.dims); for (size_t i = 0; i < dr.size(); ++i) { dr[i] = double(g[0].w.scale())*double(t.range(-3, 3)); dd[i] = double(g[0].w.scale())*double(t.range(-3, 3)); } { fits::output_image o(df); o.write(d.im); o.write_header(d.w.hdr); o.reach_hdu(1); o.write(dr); o.reach_hdu(2); o.write(dd); } cutout_extractor ce; ce.setup_image(file); ce.setup_distortion(df); V<Img> both{g[0], d}; Src s = src(t, both); double ra = s.ra, de = s.dec; if (d.in(s.y[1], s.x[1])) { ra -= dr(size_t(s.y[1]), size_t(s.x[1])); de -= dd(size_t(s.y[1]), size_t(s.x[1])); t.nontrivial(); } L px, py; wh::s2p(g[0].w, ra, de, px, py); L ax = px - floorl(px), ay = py - floorl(py); if (fabsl(ax - 0.5L) < 1e-3L || fabsl(ay - 0.5L) < 1e-3L) throw vp::Discard(); LL xc = LL(floorl(px - 0.5L)), yc = LL(floorl(py - 0.5L)), hs = 2; vec2d c; bool r = ce.get_cutout(c, s.ra, s.dec, 3.5*as); bool any = false; for (LL y = -hs; y <= hs; ++y) for (LL x = -hs; x <= hs; ++x) if (g[0].in(yc + y, xc + x)) any = true; CHECK(r == any, "covered"); CHECK(c.dims[0] == 5 && c.dims[1] == 5); for (LL y = -hs; y <= hs; ++y) for (LL x = -hs; x <= hs; ++x) { double e = g[0].at(yc + y, xc + x), v = c(size_t(y + hs), size_t(x + hs)); CHECK(v == e || (!fin(v) && !fin(e)), "pixel ", y, ",", x, " of the cutout is ", v, " expected ", e); }
}
SUB("stack", 5) {
    std::string file; V<Img> g = images(t, file); size_t n = t.draw(6); V<Src> s; vec1d ra, dec; for (size_t i = 0; i < n; ++i) { s.push_back(src(t, g)); ra.push_back(s[i].ra); dec.push_back(s[i].dec); } LL hs = t.range(0, 3); qstack_params p; p.keep_nan = t.coin(); p.save_offsets = t.coin(); p.save_section = t.coin(); t.note("hsize ", int(hs), p.keep_nan ? " nan" : ""); vec3d cube; vec1u ids; qstack_output o; size_t rep = t.chance(1, 4) ? 2 : 1; V<size_t> wid; V<V<double>> wc; V<double> wdx, wdy; V<size_t> ws; size_t m = size_t(2*hs + 1);
    for (size_t k = 0; k < rep; ++k) { o = qstack(ra, dec, file, uint_t(hs), cube, ids, p); wdx.clear(); wdy.clear(); ws.clear(); std::map<size_t, size_t> pos; for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < n; ++j) { bool cov = false, bad = false; V<double> c; for (LL y = -hs; y <= hs; ++y) for (LL x = -hs; x <= hs; ++x) { if (g[i].in(s[j].y[i] + y, s[j].x[i] + x)) cov = true; double v = g[i].at(s[j].y[i] + y, s[j].x[i] + x); if (!fin(v)) bad = true; c.push_back(v); } if (!cov || (bad && !p.keep_nan)) continue; if (!pos.count(j)) { pos[j] = wc.size(); wid.push_back(j); wc.push_back(c); L px, py; wh::s2p(g[i].w, s[j].ra, s[j].dec, px, py); wdx.push_back(double(px - 1 - L(s[j].x[i]))); wdy.push_back(double(py - 1 - L(s[j].y[i]))); ws.push_back(i); } else { auto& q = wc[pos[j]]; for (size_t z = 0; z < q.size(); ++z) if (!fin(q[z])) q[z] = c[z]; } } }
    CHECK(ids.size() == wid.size(), "number of stacked sources is ", ids.size(), " expected ", wid.size()); CHECK(cube.dims[0] == wid.size() && (wid.empty() || (cube.dims[1] == m && cube.dims[2] == m)), "dimensions of the cube"); for (size_t k = 0; k < wid.size(); ++k) { CHECK(ids[k] == wid[k], "source ", k); for (size_t i = 0; i < m*m; ++i) { double v = cube[k*m*m + i]; CHECK(v == wc[k][i] || (!fin(v) && !fin(wc[k][i])), "pixel ", i, " of source ", k, " is ", v, " expected ", wc[k][i]); } } if (p.save_offsets) { CHECK(o.dx.size() == wdx.size() && o.dy.size() == wdy.size(), "number of offsets"); for (size_t i = 0; i < wdx.size(); ++i) CHECK(vp::near(o.dx[i], wdx[i], 1e-6, 1e-5) && vp::near(o.dy[i], wdy[i], 1e-6, 1e-5), "offset"); } else CHECK(o.dx.empty() && o.dy.empty()); if (p.save_section) { CHECK(o.sect.size() == ws.size(), "sections"); for (size_t i = 0; i < ws.size(); ++i) CHECK(o.sect[i] == ws[i], "section"); } else CHECK(o.sect.empty()); if (wid.size() > 1) t.nontrivial();
}
SUB("weighted stack", 4) {
    V<Img> g{gen(t, nullptr, 0)}; Img wi = g[0]; for (size_t i = 0; i < wi.im.size(); ++i) wi.im[i] = 5000 + double(i); if (t.chance(1, 4)) wi.im[t.draw(wi.im.size())] = dnan; std::string ff = vp::scratch() + "/i0.fits", wf = vp::scratch() + "/w.fits"; file::remove(wf); fits::write(wf, wi.im, wi.w.hdr); bool sect = t.chance(1, 4); if (sect) { std::ofstream a(vp::scratch() + "/f.sectfits"), b(vp::scratch() + "/w.sectfits"); a << "i0.fits\n"; b << "w.fits\n"; ff = vp::scratch() + "/f.sectfits"; wf = vp::scratch() + "/w.sectfits"; } size_t n = t.draw(6); V<Src> s; vec1d ra, dec; for (size_t i = 0; i < n; ++i) { s.push_back(src(t, g)); ra.push_back(s[i].ra); dec.push_back(s[i].dec); } LL hs = t.range(0, 3); qstack_params p; p.keep_nan = sect ? true : t.coin(); p.save_offsets = t.coin(); p.save_section = t.coin(); t.note("hsize ", int(hs), p.keep_nan ? " nan" : "", sect ? " sections" : ""); vec3d cube, wcube; vec1u ids; qstack_output o = qstack(ra, dec, ff, wf, uint_t(hs), cube, wcube, ids, p); size_t m = size_t(2*hs + 1); V<size_t> wid; for (size_t j = 0; j < n; ++j) { bool full = true, cov = false, bad = false; for (LL y = -hs; y <= hs; ++y) for (LL x = -hs; x <= hs; ++x) { LL a = s[j].y[0] + y, b = s[j].x[0] + x; if (!g[0].in(a, b)) full = false; else cov = true; if (!fin(g[0].at(a, b)) || !fin(wi.at(a, b))) bad = true; } if (sect ? cov : (full && (p.keep_nan || !bad))) wid.push_back(j); }
    CHECK(ids.size() == wid.size(), "number of stacked sources is ", ids.size(), " expected ", wid.size()); for (size_t k = 0; k < wid.size(); ++k) { CHECK(ids[k] == wid[k], "source ", k); size_t i = 0; for (LL y = -hs; y <= hs; ++y) for (LL x = -hs; x <= hs; ++x, ++i) { LL a = s[wid[k]].y[0] + y, b = s[wid[k]].x[0] + x; double v = cube[k*m*m + i], u = wcube[k*m*m + i], ev = g[0].at(a, b), eu = wi.at(a, b); CHECK(v == ev || (!fin(v) && !fin(ev)), "pixel ", i, " of source ", k, " is ", v, " expected ", ev); CHECK(u == eu || (!fin(u) && !fin(eu)), "weight ", i, " of source ", k, " is ", u, " expected ", eu); } } if (p.save_offsets) { CHECK(o.dx.size() == wid.size() && o.dy.size() == wid.size(), "number of offsets ", o.dx.size(), " expected ", wid.size()); for (size_t i = 0; i < wid.size(); ++i) CHECK(vp::near(o.dx[i], s[wid[i]].fx, 1e-6, 1e-5) && vp::near(o.dy[i], s[wid[i]].fy, 1e-6, 1e-5), "offset"); } if (p.save_section) CHECK(o.sect.size() == wid.size(), "number of sections"); if (wid.size() > 1) t.nontrivial();
}
SUB("combine", 3) {
    size_t n = 1 + t.draw(7), a = 1 + t.draw(4), b = 1 + t.draw(4); vec3d c(n, a, b), w(n, a, b); for (auto& x : c) x = double(t.range(-9, 9)); for (auto& x : w) x = double(t.range(1, 9)); t.note(vp::tov(c)); vec2d m = qstack_mean(c), wm = qstack_mean(c, w), md = qstack_median(c); CHECK(m.dims[0] == a && m.dims[1] == b && wm.dims == m.dims && md.dims == m.dims); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) { double s = 0, sw = 0, s1 = 0; V<double> v; for (size_t k = 0; k < n; ++k) { s1 += c(k, i, j); s += c(k, i, j)*w(k, i, j); sw += w(k, i, j); v.push_back(c(k, i, j)); } CHECK(vp::near(m(i, j), s1/double(n), 1e-10, 1e-12) && vp::near(wm(i, j), s/sw, 1e-10, 1e-12), "mean"); std::sort(v.begin(), v.end()); CHECK(md(i, j) >= v[(n-1)/2] && md(i, j) <= v[n/2], "median ", md(i, j)); }
    auto seed = make_seed(t.draw(1000)); size_t nb = t.draw(5), ns = 1 + t.draw(6), calls = 0; std::set<V<double>> known; for (size_t k = 0; k < n; ++k) { V<double> v; for (size_t i = 0; i < a*b; ++i) { v.push_back(c[k*a*b + i]); v.push_back(w[k*a*b + i]); } known.insert(v); } auto chk = [&](const vec3d& x, const vec3d& y) { ++calls; CHECK(x.dims[0] == ns && x.dims[1] == a && x.dims[2] == b && y.dims == x.dims, "size of the bootstrap"); for (size_t k = 0; k < ns; ++k) { V<double> v; for (size_t i = 0; i < a*b; ++i) { v.push_back(x[k*a*b + i]); v.push_back(y[k*a*b + i]); } CHECK(known.count(v), "bootstrap with an unknown source"); } }; qstack_bootstrap(c, w, nb, ns, seed, chk); CHECK(calls == nb, "number of bootstraps"); calls = 0; qstack_bootstrap(nb, ns, seed, chk, c, w); CHECK(calls == nb, "number of bootstraps"); vec3d b1 = qstack_mean_bootstrap(c, nb, ns, seed), b2 = qstack_mean_bootstrap(c, w, nb, ns, seed), b3 = qstack_median_bootstrap(c, nb, ns, seed); CHECK(b1.dims[0] == nb && b2.dims[0] == nb && b3.dims[0] == nb, "number of bootstraps"); double lo = min(c), hi = max(c); for (auto* q : {&b1, &b2, &b3}) for (auto x : *q) CHECK(x >= lo - 1e-9 && x <= hi + 1e-9, "bootstrap value ", x, " out of range"); if (n == 1) for (size_t i = 0; i < b1.size(); ++i) CHECK(vp::near(b1[i], c[i % (a*b)], 1e-10, 1e-12) && vp::near(b2[i], c[i % (a*b)], 1e-10, 1e-12) && vp::near(b3[i], c[i % (a*b)], 1e-10, 1e-12), "bootstrap of one source"); if (n > 2) t.nontrivial();
}
