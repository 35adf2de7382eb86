// X04: spectra through filters, filter definitions, luminosities.
#include "astro_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors; using vp::scratch;
template<class T> using V = std::vector<T>;
static V<double> grid(Tape& t, size_t n, double lo, double w) { V<double> r; double x = lo; for (size_t i = 0; i < n; ++i) { r.push_back(x); x += 0.25*double(t.range(1, int(4*w))); } return r; }
static V<double> vals(Tape& t, size_t n) { V<double> r(n); for (auto& x : r) x = t.coin() ? double(t.range(0, 10)) : 100*t.unit() - 10; return r; }
static double lin(const V<double>& x, const V<double>& y, double p) { if (x.size() == 1) return y[0]; size_t i = 0; while (i + 2 < x.size() && x[i+1] <= p) ++i; return y[i] + (y[i+1] - y[i])*(p - x[i])/(x[i+1] - x[i]); }
// trapezoidal integral of the product over the union of the two grids, within the filter
static double flux(const V<double>& fl, const V<double>& fr, const V<double>& l, const V<double>& s) { if (fl.front() < l.front() || fl.back() > l.back()) return dnan; V<double> g = fl; for (double x : l) if (x > fl.front() && x < fl.back()) g.push_back(x); std::sort(g.begin(), g.end()); double r = 0; for (size_t i = 0; i + 1 < g.size(); ++i) r += 0.5*(g[i+1] - g[i])*(lin(fl, fr, g[i])*lin(l, s, g[i]) + lin(fl, fr, g[i+1])*lin(l, s, g[i+1])); return r; }
static double mag(const V<double>& fl, const V<double>& fr, const V<double>& s) { double a = 0, b = 0; for (double x : fr) a = std::max(a, std::fabs(x)); for (double x : s) b = std::max(b, std::fabs(x)); return a*b*(fl.back() - fl.front()) + 1e-300; }
SUB("sed2flux", 6) {
    size_t nf = t.size(2, 7), ns = t.size(2, 9); V<double> fl = grid(t, nf, double(t.range(1, 8)), 2), fr = vals(t, nf), l = grid(t, ns, double(t.range(1, 6)), 3), s = vals(t, ns); switch (t.draw(5)) { case 0: l.front() = std::min(l.front(), fl.front()); break; case 1: if (fl.back() > l[ns-2]) l.back() = fl.back(); break; case 2: if (l.back() > fl[nf-2]) fl.back() = l.back(); break; case 3: if (fl.front() < l[1]) l.front() = fl.front(); break; default: if (l[1] > fl.front()) l.front() = std::min(l.front(), fl.front()); if (l[ns-2] < fl.back()) l.back() = std::max(l.back(), fl.back()); } t.note(fl, fr, l, s); filter_t f; f.lam = vp::mk<double>(fl); f.res = vp::mk<double>(fr); f.rlam = 1; vec1d vl = vp::mk<double>(l), vs = vp::mk<double>(s); double w = flux(fl, fr, l, s), r = sed2flux(f, vl, vs), e = 1e-12*mag(fl, fr, s); CHECK(vp::near(r, w, 1e-11, e), "flux ", r, " expected ", w); CHECK(vp::same(sed2flux(f.lam, f.res, vl, vs), r), "arrays");
    vec2d l2(2, ns), s2(2, ns); for (size_t i = 0; i < ns; ++i) { l2(0,i) = l[i]; l2(1,i) = l[i]; s2(0,i) = s[i]; s2(1,i) = 2*s[i]; } vec1d r2 = sed2flux(f, l2, s2); CHECK(r2.size() == 2 && vp::same(r2[0], r) && vp::near(r2[1], 2*r, 1e-11, 2*e), "several spectra"); vec1d bad(ns + 1); CHECK(errors([&] { sed2flux(f, vl, bad); }) && errors([&] { sed2flux(f, vec1d{}, vec1d{}); }) && errors([&] { sed2flux(vec1d{}, vec1d{}, vl, vs); }), "incompatible dimensions"); if (std::isfinite(w)) t.nontrivial();
}
SUB("unit", 1) { // a flat spectrum is measured as it is with a filter of unit area
    size_t nf = t.size(2, 6); V<double> fl = grid(t, nf, double(t.range(2, 8)), 2), fr(nf); for (auto& x : fr) x = 0.1 + t.unit(); filter_t f; f.lam = vp::mk<double>(fl); f.res = vp::mk<double>(fr); f.res /= integrate(f.lam, f.res); double c = double(t.range(-5, 5)); size_t ns = t.size(2, 6); V<double> l = grid(t, ns, 1, 3); l.back() = std::max(l.back(), fl.back() + 1); t.note(fl, fr, l, c); vec1d s = replicate(c, ns); CHECK(vp::near(sed2flux(f, vec1d(vp::mk<double>(l)), s), c, 1e-10, 1e-12), "constant spectrum"); t.nontrivial(); }
SUB("luminosity", 3) {
    size_t ns = t.size(2, 9); V<double> l = grid(t, ns, double(t.range(1, 6)), 3), s = vals(t, ns); double a = 0.25*double(t.range(2, 60)), b = a + 0.25*double(t.range(0, 40)); if (t.chance(1, 4)) a = l.front(); if (t.chance(1, 4)) b = l.back(); if (b < a) std::swap(a, b); t.note(l, s, a, " ", b); double r = sed_luminosity(vec1d(vp::mk<double>(l)), vec1d(vp::mk<double>(s)), a, b); if (a < l.front() || b > l.back()) { CHECK(std::isnan(r), "not covered, luminosity ", r); return; } V<double> q(ns), g{a, b}; for (size_t i = 0; i < ns; ++i) { q[i] = s[i]/l[i]; if (l[i] > a && l[i] < b) g.push_back(l[i]); } std::sort(g.begin(), g.end()); double w = 0; for (size_t i = 0; i + 1 < g.size(); ++i) w += 0.5*(g[i+1] - g[i])*(lin(l, q, g[i]) + lin(l, q, g[i+1])); CHECK(vp::near(r, w, 1e-10, 1e-10), "luminosity ", r, " expected ", w); if (b > a) t.nontrivial();
}
SUB("lir", 1) { size_t n = t.size(2, 30); vec1d l = rgen_log(1.0 + 6*t.unit(), 1000.0*(1 + t.unit()), n), s(n); for (auto& x : s) x = 10*t.unit(); CHECK(vp::same(lir_8_1000(l, s), sed_luminosity(l, s, 8.0, 1000.0)), "LIR"); CHECK(std::isfinite(lir_8_1000(l, s))); t.nontrivial(); }
SUB("convert", 2) {
    size_t ns = t.size(3, 9); V<double> l = grid(t, ns, 1, 3), s(ns); for (auto& x : s) x = 1 + 10*t.unit(); double z = 0.25*double(t.range(0, 3)), d = 1 + 100*t.unit(); auto fil = [&](double lo, double hi) { filter_t f; double a = lo + (hi - lo)*(0.1 + 0.3*t.unit()), b = lo + (hi - lo)*(0.6 + 0.3*t.unit()); f.lam = {a, 0.5*(a + b), b}; f.res = {0.0, 1.0 + t.unit(), 0.5}; return f; }; filter_t from = fil(l.front()*(1 + z), l.back()*(1 + z)), to = fil(l.front(), l.back()); t.note(l, s, z, d); vec1d vl = vp::mk<double>(l), vs = vp::mk<double>(s); double r = sed_convert(from, to, z, d, vl, vs); V<double> ol(ns), os(ns); for (size_t i = 0; i < ns; ++i) { ol[i] = l[i]*(1 + z); os[i] = lsun2uJy(z, d, l[i], s[i]); } double w = flux(vp::tov(to.lam), vp::tov(to.res), l, s)/flux(vp::tov(from.lam), vp::tov(from.res), ol, os); CHECK(vp::near(r, w, 1e-9), "conversion factor ", r, " expected ", w); t.nontrivial();
}
static std::string word(Tape& t) { return vp::gen_str(t, "abcXYZ019_-", 1, 6); }
SUBR("filters", 2, 1) {
    std::string dir = scratch(); size_t n = t.size(1, 5); std::map<std::string, filter_t> m; std::ofstream db(dir + "/f.dat"); db << "# comment=ignored\n\n"; size_t k = 0; for (size_t i = 0; i < n; ++i) { std::string nm = word(t); if (m.count(nm)) continue; filter_t f; size_t nf = t.size(2, 5); V<double> fl = grid(t, nf, double(t.range(1, 8)), 2), fr(nf); for (auto& x : fr) x = 0.25*double(t.range(1, 20)); f.lam = vp::mk<double>(fl); f.res = vp::mk<double>(fr); std::string fn; if (t.chance(1, 4)) { fn = "f" + std::to_string(k++) + ".fits"; fits::write_table(dir + "/" + fn, "lam", f.lam, "res", f.res); } else { fn = "f" + std::to_string(k++) + ".cat"; std::ofstream o(dir + "/" + fn); o.precision(15); if (t.coin()) o << "# lam res\n"; for (size_t j = 0; j < nf; ++j) o << fl[j] << " " << fr[j] << "\n"; } f.rlam = 0; for (size_t j = 0; j + 1 < nf; ++j) f.rlam += 0.5*(fl[j+1] - fl[j])*(fl[j]*fr[j] + fl[j+1]*fr[j+1]); if (t.chance(1, 4)) db << "#" << nm << "x=none\n"; if (t.chance(1, 4)) db << "a line without equal sign\n"; if (t.chance(1, 4)) db << "  "; db << nm << "=" << fn << (t.chance(1, 4) ? "  \n" : "\n"); m[nm] = f; t.note(nm, " ", fn, " ", fl, fr); } db.close();
    auto d = read_filter_db(dir + "/f.dat"); CHECK(d.size() == m.size(), "number of filters ", d.size()); vec1s names; for (auto& p : m) names.push_back(p.first); filter_bank_t fb; CHECK(get_filters(d, names, fb) && fb.size() == m.size(), "get_filters()"); size_t i = 0; auto same = [&](const filter_t& a, const filter_t& b) { CHECK(a.lam.dims == b.lam.dims && a.res.dims == b.res.dims && a.lam.data == b.lam.data && a.res.data == b.res.data, "content of the filter"); CHECK(vp::near(a.rlam, b.rlam, 1e-10), "central wavelength ", a.rlam, " expected ", b.rlam); }; for (auto& p : m) { filter_t g; CHECK(get_filter(d, p.first, g), "filter ", p.first); same(g, p.second); same(fb[i++], p.second); filter_t h; CHECK(get_filter(d, "x:file:" + d[p.first], h), "filter from file"); same(h, p.second); }
    filter_t g; CHECK(!get_filter(d, "unknown!", g) && !get_filter(d, "a:b:c", g) && !get_filter(d, "a:range:1", g) && !get_filter(d, "a:range:x:2", g) && !get_filter(d, "a:range:1:y", g) && !get_filter(d, "a:file", g), "bad filter accepted"); vec1s nb = names; nb.push_back("unknown!"); filter_bank_t fc; CHECK(!get_filters(d, nb, fc), "unknown filter accepted"); CHECK(read_filter_db(dir + "/nothere").empty(), "missing database");
    double lo = 0.25*double(t.range(1, 20)), hi = lo + 0.25*double(t.range(1, 20)); filter_t r; CHECK(get_filter(d, "r:range:" + to_string(lo) + ":" + to_string(hi), r), "range filter"); CHECK(vp::near(integrate(r.lam, r.res), 1.0, 1e-9) && vp::near(r.rlam, 0.5*(lo + hi), 1e-6), "range filter"); double top = max(r.res); for (size_t j = 0; j < r.lam.size(); ++j) { if (r.lam[j] < lo*0.98 || r.lam[j] > hi*1.02) CHECK(r.res[j] == 0, "out of the range"); if (r.lam[j] >= lo*0.9999 && r.lam[j] <= hi*1.0001) CHECK(r.res[j] == top, "not flat"); } if (m.size() > 1) t.nontrivial();
}
SUBR("map", 1, 1) {
    std::string dir = scratch(); size_t n = t.size(1, 5); std::map<std::string, uint_t> m; { std::ofstream db(dir + "/m.dat"); db << "#c=1\n"; for (size_t i = 0; i < n; ++i) { std::string nm = word(t); if (m.count(nm)) continue; uint_t id = t.draw(1000); m[nm] = id; db << nm << "=" << id << "\n"; if (t.chance(1, 4)) db << nm << "x=notnum\n"; t.note(nm, " ", int(id)); } } auto d = read_filter_map(dir + "/m.dat"); CHECK(d.size() == m.size(), "entries"); vec1s names; vec1u ids; for (auto& p : m) { uint_t id = 5; CHECK(get_filter_id(d, p.first, id) && id == p.second, "id of ", p.first); names.push_back(p.first); } names.push_back("unknown!"); CHECK(!get_filter_id(d, names, ids) && ids.size() == names.size(), "unknown filter"); size_t i = 0; for (auto& p : m) CHECK(ids[i++] == p.second, "ids"); CHECK(ids[i] == npos, "id of unknown filter"); names.resize(m.size()); CHECK(get_filter_id(d, names, ids) && ids.size() == m.size()); if (m.size() > 1) t.nontrivial();
}
