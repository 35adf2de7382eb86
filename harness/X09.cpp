// X09: world coordinates.
#include "astro_h.hpp"
#include "fits_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>; typedef long double L; static const L D2R = acosl(-1.0L)/180;
struct W { size_t n = 2, ra = 0, dec = 1, oth = 99; L crval[3] = {0, 0, 0}, crpix[3] = {0, 0, 0}, cdelt[3] = {1, 1, 1}, cd[2][2]; size_t dims[3] = {0, 0, 0}; std::string otype, ounit; L si = 1; fits::header hdr; };
static std::string card(const std::string& k, const std::string& v) { std::string s = k; s.resize(8, ' '); s += "= "; if (v[0] == '\'') s += v; else s += std::string(v.size() < 20 ? 20 - v.size() : 0, ' ') + v; s.resize(80, ' '); return s; }
static std::string num(L v) { char b[64]; snprintf(b, sizeof b, "%.17g", double(v)); std::string s = b; if (s.find_first_of(".eEn") == s.npos) s += ".0"; for (auto& c : s) if (c == 'e') c = 'E'; return s; }
static L rd(L v) { return L(double(v)); }
// axes are numbered as in FITS, starting at 0
static W gen(Tape& t) {
    W w; w.n = t.chance(1, 3) ? 3 : 2; V<size_t> ax{0, 1, 2}; ax.resize(w.n); for (size_t i = w.n; i > 1; --i) std::swap(ax[i-1], ax[t.draw(i)]); if (t.coin()) { w.ra = 0; w.dec = 1; if (w.n == 3) w.oth = 2; } else { w.ra = ax[0]; w.dec = ax[1]; if (w.n == 3) w.oth = ax[2]; }
    L sc = rd(t.coin() ? 0.06/3600*double(t.range(1, 100)) : std::pow(10.0, -5 + 4*t.unit())); w.crval[w.ra] = rd(t.chance(1, 6) ? 0 : 360*t.unit()); w.crval[w.dec] = rd(t.chance(1, 6) ? 0 : -85 + 170*t.unit()); for (size_t i = 0; i < w.n; ++i) { w.crpix[i] = t.coin() ? L(t.range(-20, 120)) : rd(100*t.unit()); w.dims[i] = size_t(t.range(1, 60)); } w.cdelt[w.ra] = t.chance(1, 5) ? sc : -sc; w.cdelt[w.dec] = t.chance(1, 6) ? -sc : sc; if (t.chance(1, 5)) w.cdelt[w.dec] = rd(w.cdelt[w.dec]*(0.5 + t.unit())); int mode = int(t.draw(3)); L ang = mode ? rd(-180 + 360*t.unit()) : 0, c = cosl(ang*D2R), s = sinl(ang*D2R);
    // rows: intermediate ra, dec; columns: pixel axes of ra, dec
    std::string h = card("SIMPLE", "T") + card("BITPIX", "-64") + card("NAXIS", std::to_string(w.n)); for (size_t i = 0; i < w.n; ++i) h += card("NAXIS" + std::to_string(i+1), std::to_string(w.dims[i])); auto key = [&](const std::string& k, size_t i) { return k + std::to_string(i+1); }; 
    h += card(key("CTYPE", w.ra), "'RA---TAN'") + card(key("CTYPE", w.dec), "'DEC--TAN'"); for (size_t i : {w.ra, w.dec}) { h += card(key("CRVAL", i), num(w.crval[i])) + card(key("CRPIX", i), num(w.crpix[i])); int u = int(t.draw(3)); if (u) h += card(key("CUNIT", i), u == 1 ? "'deg     '" : "'degree  '"); }
    L pc[2][2] = {{rd(c), rd(-s)}, {rd(s), rd(c)}}; if (mode == 0) { pc[0][0] = pc[1][1] = 1; pc[0][1] = pc[1][0] = 0; } if (mode == 2) { for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) w.cd[i][j] = rd((i ? w.cdelt[w.dec] : w.cdelt[w.ra])*pc[i][j]); size_t id[2] = {w.ra, w.dec}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) h += card("CD" + std::to_string(id[i]+1) + "_" + std::to_string(id[j]+1), num(w.cd[i][j])); } else { size_t id[2] = {w.ra, w.dec}; for (int i = 0; i < 2; ++i) { h += card(key("CDELT", id[i]), num(w.cdelt[id[i]])); for (int j = 0; j < 2; ++j) { w.cd[i][j] = w.cdelt[id[i]]*pc[i][j]; if (mode == 1) h += card("PC" + std::to_string(id[i]+1) + "_" + std::to_string(id[j]+1), num(pc[i][j])); } } }
    if (w.n == 3) { static const struct { const char* ty; const char* un; L si; } o[] = {{"WAVE", "m", 1}, {"WAVE", "um", 1e-6L}, {"WAVE", "micron", 1e-6L}, {"WAVE", "microns", 1e-6L}, {"WAVE", "nm", 1e-9L}, {"WAVE", "Angstrom", 1e-10L}, {"WAVE", "", 1}, {"FREQ", "Hz", 1}, {"FREQ", "GHz", 1e9L}, {"FREQ", "MHz", 1e6L}, {"FREQ", "", 1}}; auto& q = o[t.draw(sizeof o/sizeof *o)]; w.otype = q.ty; w.ounit = q.un; w.si = q.si; w.crval[2 == w.oth ? 2 : w.oth] = rd(1 + 10*t.unit()); w.cdelt[w.oth] = rd(0.001 + t.unit()); size_t i = w.oth; h += card(key("CTYPE", i), "'" + w.otype + "    '") + card(key("CRVAL", i), num(w.crval[i])) + card(key("CRPIX", i), num(w.crpix[i])); h += mode == 2 ? card("CD" + std::to_string(i+1) + "_" + std::to_string(i+1), num(w.cdelt[i])) : card(key("CDELT", i), num(w.cdelt[i])); if (!w.ounit.empty()) h += card(key("CUNIT", i), "'" + w.ounit + "'"); }
    std::string e = "END"; e.resize(80, ' '); w.hdr = h + e; V<std::string> k; for (size_t i = 0; i < w.hdr.size(); i += 80) { std::string l = w.hdr.substr(i, 80); while (!l.empty() && l.back() == ' ') l.pop_back(); k.push_back(l); } t.note(k); return w;
}
static void p2s(const W& w, L x, L y, L& ra, L& dec) { size_t lo = std::min(w.ra, w.dec); L pr = (w.ra == lo ? x : y) - w.crpix[w.ra], pd = (w.dec == lo ? x : y) - w.crpix[w.dec]; L xi = (w.cd[0][0]*pr + w.cd[0][1]*pd)*D2R, et = (w.cd[1][0]*pr + w.cd[1][1]*pd)*D2R, c = cosl(w.crval[w.dec]*D2R), s = sinl(w.crval[w.dec]*D2R); ra = w.crval[w.ra] + atan2l(xi, c - et*s)/D2R; dec = atan2l(s + et*c, sqrtl(xi*xi + (c - et*s)*(c - et*s)))/D2R; }
static void s2p(const W& w, L ra, L dec, L& x, L& y) { L c = cosl(w.crval[w.dec]*D2R), s = sinl(w.crval[w.dec]*D2R), a = (ra - w.crval[w.ra])*D2R, cd = cosl(dec*D2R), sd = sinl(dec*D2R), den = s*sd + c*cd*cosl(a), xi = cd*sinl(a)/den/D2R, et = (c*sd - s*cd*cosl(a))/den/D2R, det = w.cd[0][0]*w.cd[1][1] - w.cd[0][1]*w.cd[1][0]; L pr = (w.cd[1][1]*xi - w.cd[0][1]*et)/det + w.crpix[w.ra], pd = (w.cd[0][0]*et - w.cd[1][0]*xi)/det + w.crpix[w.dec]; size_t lo = std::min(w.ra, w.dec); x = w.ra == lo ? pr : pd; y = w.ra == lo ? pd : pr; }
static bool eqra(double a, L b, L dec) { L d = fmodl(fabsl(a - b), 360); return std::min(d, 360 - d)*cosl(dec*D2R) < 1e-9; }
static L pscale(const W& w) { return sqrtl(fabsl(w.cd[0][0]*w.cd[1][1] - w.cd[0][1]*w.cd[1][0])); }
SUB("sky", 5) {
    W g = gen(t); astro::wcs w = t.coin() ? astro::wcs(g.hdr) : extast(g.hdr); if (t.chance(1, 3)) { astro::wcs q = std::move(w); CHECK(!w.is_valid(), "moved"); if (t.coin()) { astro::wcs z(gen(t).hdr); z = std::move(q); w = std::move(z); } else w = std::move(q); } CHECK(w.is_valid(), "valid header refused"); CHECK(w.axis_count() == g.n); CHECK(w.find_axis("RA") == g.n-1-g.ra && w.find_axis("dec") == g.n-1-g.dec && w.find_axis("STOKES") == npos, "find_axis"); CHECK(w.ra_axis == g.n-1-g.ra && w.dec_axis == g.n-1-g.dec && w.x_axis == g.n-1-std::min(g.ra, g.dec) && w.y_axis == g.n-1-std::max(g.ra, g.dec), "axes"); for (size_t i = 0; i < g.n; ++i) CHECK(w.dims[g.n-1-i] == g.dims[i], "dimensions"); 
    size_t k = t.draw(5); vec1d x, y; for (size_t i = 0; i < k; ++i) { x.push_back(double(g.crpix[0]) + 60*(2*t.unit() - 1)); y.push_back(double(g.crpix[1]) + 60*(2*t.unit() - 1)); } t.note(x, y); vec1d ra, dec, bx, by; if (t.coin()) { ra = {1, 2, 3}; bx = {1, 2}; } xy2ad(w, x, y, ra, dec); CHECK(ra.size() == k && dec.size() == k, "number of positions"); ad2xy(w, ra, dec, bx, by); CHECK(bx.size() == k && by.size() == k, "number of positions"); double tp = double(1e-9L/pscale(g)) + 1e-6; for (size_t i = 0; i < k; ++i) { L r, d, px, py; p2s(g, x[i], y[i], r, d); CHECK(eqra(ra[i], r, d) && fabsl(dec[i] - d) < 1e-9L, "position of pixel ", x[i], ",", y[i], " is ", ra[i], ",", dec[i], " expected ", double(r), ",", double(d)); s2p(g, ra[i], dec[i], px, py); CHECK(std::fabs(bx[i] - double(px)) < tp && std::fabs(by[i] - double(py)) < tp, "pixel of ", ra[i], ",", dec[i], " is ", bx[i], ",", by[i], " expected ", double(px), ",", double(py)); CHECK(std::fabs(bx[i] - x[i]) < tp && std::fabs(by[i] - y[i]) < tp, "round trip"); double sr, sd, sx, sy; xy2ad(w, x[i], y[i], sr, sd); ad2xy(w, ra[i], dec[i], sx, sy); CHECK(sr == ra[i] && sd == dec[i] && sx == bx[i] && sy == by[i], "one by one"); t.nontrivial(); }
    if (k == 4) { vec2d x2 = reform(x, 2, 2), y2 = reform(y, 2, 2), r2, d2; xy2ad(w, x2, y2, r2, d2); CHECK(r2.dims == x2.dims && r2.data == ra.data && d2.data == dec.data, "two dimensions"); } vec1d z = {1.0}; vec1d z2 = {1.0, 2.0}; CHECK(errors([&] { xy2ad(w, z, z2, ra, dec); }) && errors([&] { ad2xy(w, z, z2, ra, dec); }), "mismatched sizes");
}
SUB("integers", 1) {
    W g = gen(t); astro::wcs w(g.hdr); int x = int(t.range(-50, 150)); double y = double(g.crpix[1]) + 50*t.unit(), ra, dec; t.note(x, " ", y); xy2ad(w, x, y, ra, dec); L r, d; p2s(g, x, y, r, d); CHECK(eqra(ra, r, d) && fabsl(dec - d) < 1e-9L, "position of pixel ", x, ",", y, " is ", ra, ",", dec, " expected ", double(r), ",", double(d)); xy2ad(w, y, x, ra, dec); p2s(g, y, x, r, d); CHECK(eqra(ra, r, d) && fabsl(dec - d) < 1e-9L, "position of pixel ", y, ",", x, " is ", ra, ",", dec, " expected ", double(r), ",", double(d)); int ia = int(g.crval[g.ra]); double px, py; L ex, ey; ad2xy(w, ia, double(g.crval[g.dec]), px, py); s2p(g, ia, g.crval[g.dec], ex, ey); CHECK(vp::near(px, double(ex), 1e-9, double(1e-9L/pscale(g)) + 1e-6) && vp::near(py, double(ey), 1e-9, double(1e-9L/pscale(g)) + 1e-6), "pixel of integer RA is ", px, ",", py, " expected ", double(ex), ",", double(ey)); t.nontrivial();
}
SUB("geometry", 3) {
    W g = gen(t); astro::wcs w(g.hdr); L x0, y0, x1, y1; s2p(g, g.crval[g.ra], g.crval[g.dec], x0, y0); s2p(g, g.crval[g.ra], g.crval[g.dec] + 1/3600.0L, x1, y1); L d = sqrtl((x1-x0)*(x1-x0) + (y1-y0)*(y1-y0)), an = -atan2l(x1-x0, y1-y0)/D2R; double as = 0, a = 0; CHECK(get_pixel_size(w, as), "no pixel size"); CHECK(vp::near(as, double(1/d), 1e-5), "pixel size ", as, " expected ", double(1/d)); CHECK(get_image_rotation(w, a), "no rotation"); double da = std::fabs(a - double(an)); da = std::min(da, 360 - da); CHECK(da < 1e-3, "rotation ", a, " expected ", double(an)); if (std::fabs(a) > 1) t.nontrivial();
    std::string e = "END"; e.resize(80, ' '); fits::header nh = card("SIMPLE", "T") + card("BITPIX", "8") + card("NAXIS", "0") + e; astro::wcs z(nh); if (z.is_valid()) t.label("valid without WCS"); else { as = a = -1; CHECK(!get_pixel_size(z, as) && !get_image_rotation(z, a), "geometry without WCS"); vec1d q = {1.0}, r; CHECK(errors([&] { ad2xy(z, q, q, r, r); }) && errors([&] { xy2ad(z, q, q, r, r); }) && errors([&] { x2w(z, 0, q, r); }) && errors([&] { w2x(z, 0, q, r); }), "invalid WCS used"); }
}
static L conv(axis_unit u) { switch (u) { case axis_unit::wave_cm: return 1e2L; case axis_unit::wave_mm: return 1e3L; case axis_unit::wave_um: return 1e6L; case axis_unit::wave_nm: return 1e9L; case axis_unit::wave_Angstrom: return 1e10L; case axis_unit::freq_kHz: return 1e-3L; case axis_unit::freq_MHz: return 1e-6L; case axis_unit::freq_GHz: return 1e-9L; case axis_unit::freq_THz: return 1e-12L; default: return 1; } }
SUB("axis", 4) {
    W g = gen(t); if (g.n != 3 || g.ounit.empty()) throw vp::Discard(); astro::wcs w(g.hdr); CHECK(w.is_valid()); size_t ax = 2 - g.oth; bool wave = g.otype == "WAVE"; static const axis_unit uw[] = {axis_unit::wcslib_default, axis_unit::wave_m, axis_unit::wave_cm, axis_unit::wave_mm, axis_unit::wave_um, axis_unit::wave_nm, axis_unit::wave_Angstrom}, uf[] = {axis_unit::wcslib_default, axis_unit::freq_Hz, axis_unit::freq_kHz, axis_unit::freq_MHz, axis_unit::freq_GHz, axis_unit::freq_THz}; axis_unit u = wave ? uw[t.draw(7)] : uf[t.draw(6)]; vec1d x, o, b; for (size_t i = t.draw(4); i > 0; --i) x.push_back(double(g.crpix[g.oth]) + 100*t.unit()); { vec1d q = {1.0}; axis_unit bad = wave ? axis_unit::freq_GHz : axis_unit::wave_um; CHECK(errors([&] { x2w(w, ax, q, o, bad); }) && errors([&] { w2x(w, ax, q, o, bad); }) && errors([&] { build_axis(w, ax, bad); }), "wrong unit accepted"); }
    t.note(x); if (!x.empty()) { x2w(w, ax, x, o, u); w2x(w, ax, o, b, u); CHECK(o.size() == x.size() && b.size() == x.size()); for (size_t i = 0; i < x.size(); ++i) { double e = double((g.crval[g.oth] + g.cdelt[g.oth]*(x[i] - g.crpix[g.oth]))*g.si*conv(u)); CHECK(vp::near(o[i], e, 1e-9), "value at ", x[i], " is ", o[i], " expected ", e); CHECK(vp::near(b[i], x[i], 1e-7, 1e-5), "round trip ", b[i], " expected ", x[i]); double so, sx; x2w(w, ax, x[i], so, u); w2x(w, ax, o[i], sx, u); CHECK(so == o[i] && vp::near(sx, b[i], 1e-12), "one by one"); } }
    vec1d f = build_axis(w, ax, u); CHECK(f.size() == g.dims[g.oth], "size of the axis"); for (size_t i = 0; i < f.size(); ++i) { double e = double((g.crval[g.oth] + g.cdelt[g.oth]*(L(i + 1) - g.crpix[g.oth]))*g.si*conv(u)); double sc = std::fabs(double((g.crval[g.oth] + fabsl(g.cdelt[g.oth])*100)*g.si*conv(u))); CHECK(std::fabs(f[i] - e) < 1e-10*sc, "value ", i, " of the axis is ", f[i], " expected ", e); } vec1d q = {1.0}; CHECK(errors([&] { x2w(w, 3, q, o, u); }) && errors([&] { w2x(w, 3, q, o, u); }) && errors([&] { build_axis(w, 3, u); }), "axis that does not exist"); t.nontrivial();
}
SUB("make", 4) {
    double sc = 0.01*double(t.range(1, 1000)), ra = 0.001*double(t.range(0, 359999)), de = 0.001*double(t.range(-85000, 85000)), px = 0.5*double(t.range(-20, 200)), py = 0.5*double(t.range(-20, 200)); size_t nx = size_t(t.range(1, 100)), ny = size_t(t.range(1, 100)); fits::header h; bool ok; auto S = [&](double v) { char b[40]; snprintf(b, sizeof b, "%.10g", v); return std::string(b); }; if (t.coin()) { make_wcs_header_params p; p.pixel_scale = sc; p.sky_ref_ra = ra; p.sky_ref_dec = de; p.pixel_ref_x = px; p.pixel_ref_y = py; p.dims_x = nx; p.dims_y = ny; ok = make_wcs_header(p, h); } else { vec1s s = {"pixel_scale:" + S(sc), "sky_ref:" + S(ra) + "," + S(de), "pixel_ref:" + S(px) + "," + S(py), "dims:" + std::to_string(nx) + "," + std::to_string(ny)}; if (t.coin()) s = reverse(s); if (t.coin()) s[0] = " " + to_upper(s[0]); t.note(s); ok = make_wcs_header(s, h); fits::header bh; vec1s bs = s; size_t k = t.draw(4); switch (t.draw(4)) { case 0: bs[k] = replace(bs[k], ":", " "); break; case 1: bs[k] = "x" + trim(bs[k]); break; case 2: bs[k] += "y"; break; default: bs[k] += ",1"; } CHECK(!make_wcs_header(bs, bh), "ill formed parameter accepted: ", bs[k]); } CHECK(ok, "make_wcs_header failed"); t.note(sc, " ", ra, " ", de, " ", px, " ", py);
    W g; g.crval[0] = ra; g.crval[1] = de; g.crpix[0] = px; g.crpix[1] = py; L s = L(sc)/3600; g.cd[0][0] = -s; g.cd[1][1] = s; g.cd[0][1] = g.cd[1][0] = 0; astro::wcs w(h); CHECK(w.is_valid() && w.axis_count() == 2 && w.dims[1] == nx && w.dims[0] == ny, "dimensions of the header"); for (int i = 0; i < 3; ++i) { double x = px + 100*t.unit() - 50, y = py + 100*t.unit() - 50, r, d; L er, ed; xy2ad(w, x, y, r, d); p2s(g, x, y, er, ed); CHECK(eqra(r, er, ed) && fabsl(d - ed) < 1e-9L, "position of pixel ", x, ",", y, " is ", r, ",", d, " expected ", double(er), ",", double(ed)); } fits::header f = filter_wcs(h); CHECK(f.size() % 80 == 0 && f.size() >= 80 && f.substr(f.size() - 80, 3) == "END", "filtered header"); std::set<std::string> ks; for (size_t i = 0; i < f.size(); i += 80) CHECK(ks.insert(f.substr(i, 8)).second, "keyword '", f.substr(i, 8), "' twice in the filtered header"); for (const char* k : {"CTYPE1", "CTYPE2", "CRVAL1", "CRVAL2", "CRPIX1", "CRPIX2", "CDELT1", "CDELT2"}) { std::string a, b; CHECK(fits::getkey(h, k, a) && fits::getkey(f, k, b) && a == b, "keyword ", k, " lost"); } t.nontrivial();
}
SUB("filter", 1) {
    W g = gen(t); if (g.n != 2) throw vp::Discard(); fits::header h = g.hdr.substr(0, g.hdr.size() - 80); int n = 0; if (t.coin()) h += card("RADECSYS", "'FK5     '"); if (t.coin()) h += card("EQUINOX", "2000.0"); if (t.coin()) h += card("EXPTIME", "12.0"), n = 1; if (t.coin()) h += card("OBJECT", "'x'"); std::string e = "END"; e.resize(80, ' '); h += e; fits::header f = filter_wcs(h); V<std::string> a, b; for (size_t i = 0; i < h.size(); i += 80) { std::string k = h.substr(i, 8); for (const char* q : {"SIMPLE", "BITPIX", "NAXIS", "EXPTIME", "OBJECT"}) if (k.compare(0, strlen(q), q) == 0) k.clear(); if (!k.empty()) { bool third = k.compare(0, 2, "CD") == 0 && k.find('3') != k.npos; third = third || (k.compare(0, 2, "PC") == 0 && k.find('3') != k.npos); if (!third) a.push_back(h.substr(i, 80)); } } for (size_t i = 0; i < f.size(); i += 80) b.push_back(f.substr(i, 80)); CHECK(a == b, "filtered header has ", b.size(), " cards, expected ", a.size()); (void)n; t.nontrivial();
}
SUB("files", 1) {
    W g = gen(t); if (g.n != 2) throw vp::Discard(); std::string f = vp::scratch() + "/w.fits"; vec2d im(g.dims[1], g.dims[0]); fits::write(f, im, g.hdr); double as = 0, as0 = 0, a = 0, a0 = 0; astro::wcs w(g.hdr); CHECK(get_pixel_size(w, as0) && get_image_rotation(w, a0)); CHECK(get_pixel_size(f, as) && get_image_rotation(f, a), "geometry of a file"); CHECK(vp::near(as, as0, 1e-7) && std::min(std::fabs(a - a0), 360 - std::fabs(a - a0)) < 1e-5, "geometry of a file: ", as, " ", a, " expected ", as0, " ", a0); std::string s = vp::scratch() + "/l.sectfits"; { std::ofstream o(s); o << "w.fits\n"; } as = a = 0; CHECK(get_pixel_size(s, as) && vp::near(as, as0, 1e-7) && get_image_rotation(s, a), "geometry of a sectfits file"); t.nontrivial();
}
SUB("build", 1) {
    astro::wcs w(2); double sc = 1e-4*double(t.range(1, 100)), ra = 360*t.unit(), de = -80 + 160*t.unit(); w.w->crval[0] = ra; w.w->crval[1] = de; w.w->crpix[0] = w.w->crpix[1] = 5; w.w->cdelt[0] = -sc; w.w->cdelt[1] = sc; strcpy(w.w->ctype[0], "RA---TAN"); strcpy(w.w->ctype[1], "DEC--TAN"); w.flag_dirty(); w.update(); W g; g.crval[0] = ra; g.crval[1] = de; g.crpix[0] = g.crpix[1] = 5; g.cd[0][0] = -sc; g.cd[1][1] = sc; g.cd[0][1] = g.cd[1][0] = 0; astro::wcs q(2); if (t.coin()) { q = std::move(w); } else q = astro::wcs(std::move(w)); double x = 20*t.unit(), y = 20*t.unit(), r, d; L er, ed; xy2ad(q, x, y, r, d); p2s(g, x, y, er, ed); CHECK(eqra(r, er, ed) && fabsl(d - ed) < 1e-9L, "manual WCS"); t.nontrivial();
}
