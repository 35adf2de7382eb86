// the command line tools of the repository, compiled into the check
#pragma once
#include "astro_h.hpp"
#include <vif/math/mpfit.hpp>
#include <vif/astro/qxmatch.hpp>
#include <vif/astro/ds9.hpp>
#include <fitsio.h>
#include <fstream>
#define VIF_CORE_MAIN_HPP
namespace tl {
using vp::Tape; using Str = std::string; template<class T> using V = std::vector<T>;
struct Mute { std::ostringstream o, e; std::istringstream i; std::streambuf *a, *b, *c; Mute(const Str& in = "") : i(in) { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); c = std::cin.rdbuf(i.rdbuf()); std::cin.clear(); } ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cin.rdbuf(c); } };
struct Res { int rc; Str out, err; };
template<class F> Res run(F main, V<Str> args, const Str& in = "") { args.insert(args.begin(), "tool"); V<char*> p; for (auto& s : args) p.push_back(&s[0]); p.push_back(nullptr); Res r; Mute m(in); r.rc = main(int(args.size()), p.data()); r.out = m.o.str(); r.err = m.e.str(); return r; }
// what a FITS file holds, read without the library
struct Col { Str name; char type = 0; long rep = 0, w = 0; V<long> dim; Str bytes; bool operator==(const Col& o) const { return name == o.name && type == o.type && rep == o.rep && dim == o.dim && bytes == o.bytes; } };
struct Hdu { bool image = true; V<long> dim; V<double> pix; int bitpix = 0; long rows = 0; V<Col> cols; V<std::pair<Str,Str>> keys; };
inline void ck(int st, const char* w) { if (st) { char b[80]; fits_get_errstatus(st, b); vp::fail("CFITSIO ", w, ": ", b); } }
inline bool structural(const Str& k) { static const std::set<Str> s = {"SIMPLE", "XTENSION", "BITPIX", "NAXIS", "PCOUNT", "GCOUNT", "TFIELDS", "EXTEND", "COMMENT", "HISTORY", "", "END", "CHECKSUM", "DATASUM"}; if (s.count(k)) return true; for (const char* p : {"NAXIS", "TTYPE", "TFORM", "TDIM"}) { size_t n = strlen(p); if (k.compare(0, n, p) == 0 && k.size() > n && k.find_first_not_of("0123456789", n) == Str::npos) return true; } return false; }
inline V<Hdu> snap(const Str& f) {
    V<Hdu> r; fitsfile* p = nullptr; int st = 0, n = 0; fits_open_diskfile(&p, f.c_str(), READONLY, &st); ck(st, "open"); fits_get_num_hdus(p, &n, &st); for (int h = 1; h <= n; ++h) { int ty = 0; fits_movabs_hdu(p, h, &ty, &st); ck(st, "move"); Hdu u; int nk = 0, mk = 0; fits_get_hdrspace(p, &nk, &mk, &st); for (int k = 1; k <= nk; ++k) { char a[90] = {0}, b[90] = {0}, c[90] = {0}; fits_read_keyn(p, k, a, b, c, &st); ck(st, "keyword"); if (!structural(a)) u.keys.push_back({a, b}); }
        if (ty == IMAGE_HDU) { int nx = 0; fits_get_img_dim(p, &nx, &st); u.dim.resize(nx); if (nx) fits_get_img_size(p, nx, u.dim.data(), &st); fits_get_img_type(p, &u.bitpix, &st); long m = nx ? 1 : 0; for (long d : u.dim) m *= d; u.pix.resize(m); if (m) { long one[9] = {1,1,1,1,1,1,1,1,1}; fits_read_pix(p, TDOUBLE, one, m, nullptr, u.pix.data(), nullptr, &st); } ck(st, "image"); }
        else { u.image = false; int nc = 0; long rl = 0; fits_get_num_rows(p, &u.rows, &st); fits_get_num_cols(p, &nc, &st); fits_read_key(p, TLONG, "NAXIS1", &rl, nullptr, &st); ck(st, "table"); Str all(size_t(rl*u.rows), 0); if (!all.empty()) for (long i = 0; i < u.rows; ++i) fits_read_tblbytes(p, i + 1, 1, rl, (unsigned char*)&all[size_t(i*rl)], &st); ck(st, "bytes"); long off = 0; for (int c = 1; c <= nc; ++c) { Col q; int tc; fits_get_coltype(p, c, &tc, &q.rep, &q.w, &st); char nm[90] = {0}, fm[90] = {0}; fits_read_key(p, TSTRING, ("TTYPE" + std::to_string(c)).c_str(), nm, nullptr, &st); fits_read_key(p, TSTRING, ("TFORM" + std::to_string(c)).c_str(), fm, nullptr, &st); ck(st, "column"); q.name = nm; Str ff = fm; q.type = ff[ff.find_first_not_of("0123456789 ")]; int nd = 0; long d[20]; fits_read_tdim(p, c, 20, &nd, d, &st); ck(st, "tdim"); q.dim.assign(d, d + nd); if (tc == TSTRING) q.w = 1; for (long i = 0; i < u.rows; ++i) q.bytes += all.substr(size_t(i*rl + off), size_t(q.rep*q.w)); off += q.rep*q.w; u.cols.push_back(q); } }
        r.push_back(u); } fits_close_file(p, &st); return r;
}
inline Str show(const Hdu& h) { std::ostringstream o; if (h.image) { o << "image"; for (long d : h.dim) o << " " << d; } else { o << "table " << h.rows; for (auto& c : h.cols) { o << " " << c.name << ":" << c.rep << c.type << "("; for (long d : c.dim) o << d << ","; o << ")"; } } for (auto& k : h.keys) o << " " << k.first << "=" << k.second; return o.str(); }
inline Str key(const Hdu& h, const Str& k) { for (auto& x : h.keys) if (x.first == k) return x.second; return ""; }
inline bool has(const Hdu& h, const Str& k) { for (auto& x : h.keys) if (x.first == k) return true; return false; }
inline Str dig(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
}
