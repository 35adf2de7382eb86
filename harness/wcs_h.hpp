#pragma once
#include "astro_h.hpp"
// a two dimensional gnomonic WCS and an independent projection
namespace wh {
typedef long double L; static const L D2R = acosl(-1.0L)/180;
struct W { L ra0 = 0, de0 = 0, px = 0, py = 0, cd[2][2]; size_t nx = 1, ny = 1, nz = 0; vif::fits::header hdr; L scale() const { return sqrtl(fabsl(cd[0][0]*cd[1][1] - cd[0][1]*cd[1][0])); } };
inline std::string card(const std::string& k, const std::string& v) { std::string s = k; s.resize(8, ' '); s += "= "; if (v[0] == '\'') s += v; else s += std::string(v.size() < 20 ? 20 - v.size() : 0, ' ') + v; s.resize(80, ' '); return s; }
inline std::string num(L v) { char b[64]; snprintf(b, sizeof b, "%.17g", double(v)); std::string s = b; if (s.find_first_of(".eEn") == s.npos) s += ".0"; for (auto& c : s) if (c == 'e') c = 'E'; return s; }
inline void build(W& w) { std::string h = card("SIMPLE", "T") + card("BITPIX", "-64") + card("NAXIS", w.nz ? "3" : "2") + card("NAXIS1", std::to_string(w.nx)) + card("NAXIS2", std::to_string(w.ny)); if (w.nz) h += card("NAXIS3", std::to_string(w.nz)); h += card("CTYPE1", "'RA---TAN'") + card("CTYPE2", "'DEC--TAN'") + card("CRVAL1", num(w.ra0)) + card("CRVAL2", num(w.de0)) + card("CRPIX1", num(w.px)) + card("CRPIX2", num(w.py)) + card("CUNIT1", "'deg'") + card("CUNIT2", "'deg'"); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) h += card("CD" + std::to_string(i+1) + "_" + std::to_string(j+1), num(w.cd[i][j])); if (w.nz) h += card("CTYPE3", "'WAVE'") + card("CUNIT3", "'um'") + card("CRVAL3", "1.0") + card("CRPIX3", "1.0") + card("CD3_3", "0.1"); std::string e = "END"; e.resize(80, ' '); w.hdr = h + e; }
// pixels start at 1, as in FITS
inline void p2s(const W& w, L x, L y, L& ra, L& dec) { L pr = x - w.px, pd = y - w.py, xi = (w.cd[0][0]*pr + w.cd[0][1]*pd)*D2R, et = (w.cd[1][0]*pr + w.cd[1][1]*pd)*D2R, c = cosl(w.de0*D2R), s = sinl(w.de0*D2R); ra = w.ra0 + atan2l(xi, c - et*s)/D2R; dec = atan2l(s + et*c, sqrtl(xi*xi + (c - et*s)*(c - et*s)))/D2R; if (ra < 0) ra += 360; if (ra >= 360) ra -= 360; }
inline void s2p(const W& w, L ra, L dec, L& x, L& y) { L c = cosl(w.de0*D2R), s = sinl(w.de0*D2R), a = (ra - w.ra0)*D2R, cd = cosl(dec*D2R), sd = sinl(dec*D2R), den = s*sd + c*cd*cosl(a), xi = cd*sinl(a)/den/D2R, et = (c*sd - s*cd*cosl(a))/den/D2R, det = w.cd[0][0]*w.cd[1][1] - w.cd[0][1]*w.cd[1][0]; x = (w.cd[1][1]*xi - w.cd[0][1]*et)/det + w.px; y = (w.cd[0][0]*et - w.cd[1][0]*xi)/det + w.py; }
inline void matrix(W& w, L sx, L sy, L angle) { L c = cosl(angle*D2R), s = sinl(angle*D2R); w.cd[0][0] = L(double(-sx*c)); w.cd[0][1] = L(double(sx*s)); w.cd[1][0] = L(double(sy*s)); w.cd[1][1] = L(double(sy*c)); if (angle == 0) w.cd[0][1] = w.cd[1][0] = 0; }
}
