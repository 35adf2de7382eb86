// X03: cosmology and flux unit conversions.
#include "astro_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
typedef long double L;
// integral over t in [0,z] by Simpson's rule in ln(1+t)
template<class F> static double quad(double z, F f) { int n = 2000; L b = log1pl(L(z)), h = b/n, s = 0; for (int i = 0; i <= n; ++i) { L u = expl(h*i), w = (i == 0 || i == n) ? 1 : (i % 2 ? 4 : 2); s += w*f(u)*u; } return double(s*h/3); }
static double m_lum(double z, const cosmo_t& c) { return z <= 0 ? 0 : (1 + z)*(2.99792458e5/c.H0)*quad(z, [&](L u) { return 1/sqrtl(u*u*u*c.wm + c.wL); }); }
static double m_look(double z, const cosmo_t& c) { return z <= 0 ? 0 : (3.09/(c.H0*3.155e-3))*quad(z, [&](L u) { return 1/sqrtl(u*u*u*c.wm + c.wL + u*u*c.wk)/u; }); }
static double m_vol(double z, const cosmo_t& c) { return z <= 0 ? 0 : (4.0/3.0)*dpi*std::pow(m_lum(z, c)/(1 + z), 3); }
static double m_size(double z, const cosmo_t& c) { return z <= 0 ? dinf : (1.0/3.6)*(dpi/180.0)*m_lum(z, c)/((1 + z)*(1 + z)); }
static cosmo_t cosmo(Tape& t) { switch (t.draw(5)) { case 0: return cosmo_std(); case 1: return cosmo_wmap(); case 2: return cosmo_plank(); case 3: { cosmo_t c; c.H0 = 50 + 50*t.unit(); c.wm = 0.1 + 0.8*t.unit(); c.wL = 1 - c.wm; c.wk = 0; return c; } default: { cosmo_t c; c.H0 = 50 + 50*t.unit(); c.wm = 1; c.wL = 0; c.wk = 0; return c; } } }
static double redshift(Tape& t) { switch (t.draw(5)) { case 0: return -double(t.draw(2)); case 1: return std::pow(10.0, -3 + 4*t.unit()); case 2: return 10*t.unit(); case 3: return double(t.range(1, 10)); default: return 0.01*double(t.range(1, 500)); } }
SUB("scalar", 4) {
    cosmo_t c = cosmo(t); double z = redshift(t); t.note(c.H0, " ", c.wm, " ", z); CHECK(vp::near(lumdist(z, c), m_lum(z, c), 1e-4), "luminosity distance ", lumdist(z, c), " expected ", m_lum(z, c)); CHECK(vp::near(lookback_time(z, c), m_look(z, c), 1e-4), "lookback time ", lookback_time(z, c), " expected ", m_look(z, c)); CHECK(vp::near(vuniverse(z, c), m_vol(z, c), 3e-4), "volume ", vuniverse(z, c), " expected ", m_vol(z, c)); CHECK(vp::near(propsize(z, c), m_size(z, c), 1e-4), "proper size ", propsize(z, c), " expected ", m_size(z, c)); cosmo_t k = c; k.wk = 0.1*t.unit(); CHECK(vp::near(lookback_time(z, k), m_look(z, k), 1e-4), "lookback time with curvature"); if (z > 0) t.nontrivial();
}
SUB("names", 1) { V<std::string> l{"std", "wmap", "plank"}; vec1s cl = cosmo_list(); CHECK(cl.size() == 3); for (auto& n : l) { bool f = false; for (auto& q : cl) if (q == n) f = true; CHECK(f, n); cosmo_t c = get_cosmo(n); CHECK(c.wk == 0 && std::fabs(c.wL + c.wm - 1) < 1e-12, "not flat"); cosmo_t w = n == "std" ? cosmo_std() : n == "wmap" ? cosmo_wmap() : cosmo_plank(); CHECK(c.H0 == w.H0 && c.wL == w.wL && c.wm == w.wm, n); } CHECK(cosmo_std().H0 == 70 && cosmo_std().wm == 0.3 && cosmo_wmap().wm == 0.27 && cosmo_plank().H0 == 67.8); if (t.coin()) t.nontrivial(); }
SUB("vector", 4) {
    cosmo_t c = cosmo(t); bool big = t.chance(1, 6); size_t n = big ? 1600 + t.draw(200) : t.size(0, 12); V<double> z(n); double zmax = 0.5 + 9*t.unit(); bool allneg = big && t.chance(1, 8), allone = big && t.chance(1, 8); double one = redshift(t); for (auto& x : z) x = allneg ? -double(t.draw(2)) : allone ? one : big ? (t.chance(1, 50) ? 0.0 : 0.01 + zmax*t.unit()) : redshift(t); if (!big) t.note(z); else t.note(n, " ", allneg, " ", allone, " ", zmax); vec1d v = vp::mk<double>(z); int f = int(t.draw(4)); vec1d r = f == 0 ? lumdist(v, c) : f == 1 ? lookback_time(v, c) : f == 2 ? vuniverse(v, c) : propsize(v, c); CHECK(r.size() == n); size_t step = big ? 37 : 1; for (size_t i = 0; i < n; i += step) { double w = f == 0 ? lumdist(z[i], c) : f == 1 ? lookback_time(z[i], c) : f == 2 ? vuniverse(z[i], c) : propsize(z[i], c); if (big) CHECK(vp::near(r[i], w, 2e-3), "interpolated value ", r[i], " expected ", w, " at z = ", z[i]); else CHECK(vp::same(r[i], w), "value ", r[i], " expected ", w); } if (n > 1) t.nontrivial();
    if (!big && n && n % 2 == 0) { vec2d m(2, n/2); m.data = v.data; vec2d q = lumdist(m, c); vec1d w = lumdist(v, c); CHECK(q.dims == m.dims && q.data == w.data, "2D redshifts"); }
}
static double pos(Tape& t) { return std::pow(10.0, -6 + 12*t.unit()); }
SUB("flux", 4) {
    size_t n = t.size(1, 4); double z = 10*t.unit(), d = pos(t), lam = pos(t), f = pos(t), zp = t.coin() ? 23.9 : 20 + 10*t.unit(), mag = -30 + 60*t.unit(); t.note(z, " ", d, " ", lam, " ", f, " ", zp, " ", mag); double e = 1e-10;
    const double K = 1.0e32*3.839e26/(2.9979e14*4.0*dpi*3.0856e22*3.0856e22); CHECK(vp::near(lsun2uJy(z, d, lam, f), K*(1 + z)*lam*f/(d*d), e), "lsun2uJy ", lsun2uJy(z, d, lam, f)); CHECK(vp::near(uJy2lsun(z, d, lam, f), f*d*d/lam/K, e), "uJy2lsun"); CHECK(vp::near(uJy2lsun(z, d, lam*(1 + z), lsun2uJy(z, d, lam, f)), f, e), "luminosity to flux and back");
    CHECK(vp::near(uJy2mag(f), 23.9 - 2.5*std::log10(f), e, e) && vp::near(uJy2mag(f, zp), zp - 2.5*std::log10(f), e, e), "uJy2mag"); CHECK(vp::near(mag2uJy(mag), std::pow(10.0, (23.9 - mag)/2.5), e) && vp::near(mag2uJy(mag, zp), std::pow(10.0, (zp - mag)/2.5), e), "mag2uJy"); CHECK(vp::near(mag2uJy(uJy2mag(f, zp), zp), f, e) && vp::near(uJy2mag(mag2uJy(mag, zp), zp), mag, e, e), "flux to magnitude and back");
    CHECK(vp::near(lsun2mag(lam, f, zp), uJy2mag(K*lam*f/1e-10, zp), e, 1e-9), "lsun2mag ", lsun2mag(lam, f, zp)); CHECK(vp::near(mag2lsun(lam, lsun2mag(lam, f, zp), zp), f, 1e-9), "luminosity to magnitude and back"); CHECK(vp::near(lsun2mag(lam, mag2lsun(lam, mag, zp), zp), mag, e, 1e-9) && vp::near(lsun2mag(lam, mag2lsun(lam, mag)), mag, e, 1e-9), "magnitude to luminosity and back");
    double cgs = f*1e-29*2.9979e18/(lam*1e4*lam*1e4); CHECK(vp::near(uJy2cgs(lam, f), cgs, e), "uJy2cgs ", uJy2cgs(lam, f), " expected ", cgs); CHECK(vp::near(cgs2uJy(lam*1e4, uJy2cgs(lam, f)), f, e), "to cgs and back");
    V<double> fl(n), la(n), zz(n), dd(n); for (size_t i = 0; i < n; ++i) { fl[i] = pos(t); la[i] = pos(t); zz[i] = 5*t.unit(); dd[i] = pos(t); } vec1d vf = vp::mk<double>(fl), vl = vp::mk<double>(la), vz = vp::mk<double>(zz), vd = vp::mk<double>(dd); vec1d a = lsun2uJy(vz, vd, vl, vf), b = uJy2lsun(vz, vd, vl, vf), g = uJy2mag(vf, zp), h = mag2uJy(g, zp), k = lsun2mag(vl, vf), m = mag2lsun(vl, k), o = uJy2cgs(vl, vf), p = cgs2uJy(vl, vf); CHECK(a.size() == n && b.size() == n && g.size() == n && h.size() == n && k.size() == n && m.size() == n && o.size() == n && p.size() == n); for (size_t i = 0; i < n; ++i) { CHECK(vp::near(a[i], lsun2uJy(zz[i], dd[i], la[i], fl[i]), e) && vp::near(b[i], uJy2lsun(zz[i], dd[i], la[i], fl[i]), e) && vp::near(g[i], uJy2mag(fl[i], zp), e, e) && vp::near(h[i], fl[i], 1e-9) && vp::near(k[i], lsun2mag(la[i], fl[i]), e, e) && vp::near(m[i], fl[i], 1e-8) && vp::near(o[i], uJy2cgs(la[i], fl[i]), e) && vp::near(p[i], cgs2uJy(la[i], fl[i]), e), "vector values"); }
    vec1d s = lsun2uJy(z, d, vl, vf); for (size_t i = 0; i < n; ++i) CHECK(vp::near(s[i], lsun2uJy(z, d, la[i], fl[i]), e), "vector spectrum"); t.nontrivial();
}
