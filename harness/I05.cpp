// I05: files exchanged with other programs. The other program is the C library (cfitsio) used directly: it writes images and tables
// of every type, orientation and extension that vif must read, and it reads what vif wrote.
#include "fits_h.hpp"
using namespace fh; using VS = std::vector<Str>; typedef long long LL;
static Str path(int k = 0) { return vp::scratch() + (k ? "/g.fits" : "/f.fits"); }
struct Raw { // raw cfitsio file
    fitsfile* f = nullptr; int s = 0; ~Raw() { if (f) { int q = 0; fits_close_file(f, &q); } }
    void ok(const char* w) { if (s) { char e[80]; fits_get_errstatus(s, e); int q = s; s = 0; fits_clear_errmsg(); throw std::runtime_error(Str("harness: cfitsio ") + w + ": " + e + std::to_string(q)); } }
    void create(Str p) { ::unlink(p.c_str()); fits_create_file(&f, p.c_str(), &s); ok("create"); } void open(Str p) { fits_open_file(&f, p.c_str(), READONLY, &s); ok("open"); } void close() { fits_close_file(f, &s); f = nullptr; ok("close"); }
};
struct IT { int bitpix; bool flt; LL lo, hi; }; // image types; 0..6 signed, 7..10 with an offset
static const IT its[] = {{BYTE_IMG, false, 0, 255}, {SHORT_IMG, false, -32768, 32767}, {LONG_IMG, false, -2147483647LL, 2147483647LL}, {LONGLONG_IMG, false, -(1LL << 52), 1LL << 52}, {FLOAT_IMG, true, -1000000, 1000000}, {DOUBLE_IMG, true, -1000000, 1000000}, {USHORT_IMG, false, 0, 65535}, {ULONG_IMG, false, 0, 4294967295LL}, {SBYTE_IMG, false, -128, 127}};
static double val(Tape& t, const IT& q) { if (t.chance(1, 8)) return double(t.coin() ? q.lo : q.hi); if (q.flt) return double(t.range(-9999, 9999))/8; return double(t.range(std::max<LL>(q.lo, -300), std::min<LL>(q.hi, 300))); }
template<size_t D> static void image_in(Tape& t) {
    const IT& q = its[t.draw(9)]; auto d = gdims<D>(t, D == 1 ? 12 : D == 2 ? 7 : 4, false); size_t n = vp::prod(d); std::vector<double> a(n); for (auto& x : a) x = val(t, q); bool nan = q.flt && t.coin(); if (nan) a[t.draw(n)] = NAN; size_t hdu = t.chance(1, 2) ? 0 : 1 + t.draw(2); bool scale = !q.flt && q.bitpix != USHORT_IMG && q.bitpix != ULONG_IMG && q.bitpix != SBYTE_IMG && t.chance(1, 4); double bs = 1, bz = 0; t.note("image bitpix ", q.bitpix, " dims ", vp::show(d), " hdu ", int(hdu), scale ? " scaled " : " ", vp::show(a));
    { Raw r; r.create(path()); long nx[D]; for (size_t i = 0; i < D; ++i) nx[i] = long(d[D-1-i]); for (size_t h = 0; h < hdu; ++h) { long z = 0; fits_create_img(r.f, SHORT_IMG, 0, &z, &r.s); } fits_create_img(r.f, q.bitpix, int(D), nx, &r.s); r.ok("image"); if (q.bitpix == LONGLONG_IMG) { std::vector<LL> b(a.begin(), a.end()); fits_write_img(r.f, TLONGLONG, 1, LL(n), b.data(), &r.s); } else fits_write_img(r.f, TDOUBLE, 1, LL(n), a.data(), &r.s); r.ok("data"); if (scale) { bs = 0.25*double(1 + t.draw(8)); bz = double(t.range(-20, 20)); fits_update_key(r.f, TDOUBLE, "BSCALE", &bs, nullptr, &r.s); fits_update_key(r.f, TDOUBLE, "BZERO", &bz, nullptr, &r.s); r.ok("scale"); } double kv = 0.5 + double(t.draw(40)); fits_update_key(r.f, TDOUBLE, "QKEY", &kv, nullptr, &r.s); r.close(); }
    vec<D,double> v; fits::header hd; switch (t.draw(hdu == 0 ? 4 : 3)) { case 0: fits::read_hdu(path(), v, hdu); break; case 1: fits::read_hdu(path(), v, hdu, hd); break; case 2: { fits::input_image im(path()); if (hdu) im.reach_hdu(hdu); im.read(v); break; } default: if (t.coin()) fits::read(path(), v, hd); else v = fits::read<D,double>(path()); }
    if (!hd.empty()) { double kv = -1; CHECK(fits::getkey(hd, "QKEY", kv) && kv >= 0.5, "keyword of the header read with the image"); Str h2 = fits::read_header_hdu(path(), hdu), h3 = fits::read_header_sectfits_hdu(path(), 0, hdu); CHECK(h2 == hd && h3 == hd, "header functions differ"); if (hdu == 0) CHECK(fits::read_header(path()) == hd && fits::read_header_sectfits(path(), 0) == hd, "header functions differ"); }
    std::vector<size_t> wd(d.begin(), d.end()); CHECK(vp::dimsv(v) == wd, "dims ", vp::dimsv(v), " expected ", wd); auto at = [&](size_t i) { return scale ? a[i]*bs + bz : a[i]; }; for (size_t i = 0; i < n; ++i) CHECK(okv(v.data[i], at(i)), "pixel ", i, " is ", v.data[i], " expected ", at(i));
    fits::input_image im(path()); if (hdu) im.reach_hdu(hdu); CHECK(im.axis_count() == D && vp::tov(im.image_dims()) == wd, "image_dims"); CHECK(im.hdu_type() == fits::image_hdu, "hdu type"); if (hdu == 0) CHECK(fits::file_axes(path()) == D && vp::tov(fits::file_dimensions(path())) == wd, "file_dimensions");
    vec1u p; size_t k = 0; for (size_t i = 0; i < D; ++i) { p.push_back(t.draw(d[i])); k = k*d[i] + p.back(); } CHECK(okv(im.template read_pixel<double>(p), at(k)), "read_pixel ", vp::tov(p), " expected ", at(k));
    if (!scale && !q.flt && q.bitpix != ULONG_IMG) { vec<D,int_t> w; im.read(w); for (size_t i = 0; i < n; ++i) CHECK(w.data[i] == int_t(a[i]), "integer pixel ", i, " is ", w.data[i], " expected ", a[i]); vec<D,float> f; im.read(f); for (size_t i = 0; i < n; ++i) CHECK(f.data[i] == float(a[i]), "float pixel"); }
    if (q.flt) { vec<D,int_t> w; CHECK(errs([&] { im.read(w); }), "floating point pixels read as integers"); } vec<D+1,double> z; CHECK(errs([&] { im.read(z); }), "wrong number of dimensions accepted"); if (n > 1) t.nontrivial();
}
SUB("image-in", 5) { switch (t.draw(3)) { case 0: image_in<1>(t); break; case 1: image_in<2>(t); break; default: image_in<3>(t); } }
SUB("image-out", 4) { // what another program reads from an image written by vif
    size_t k = t.draw(7); with_type(k, [&](auto tt) { using T = typename decltype(tt)::type; size_t D = 1 + t.draw(3); with_dim(D, [&](auto dd) { const size_t N = decltype(dd)::value; auto d = gdims<N>(t, N == 1 ? 12 : N == 2 ? 7 : 4, false); size_t n = vp::prod(d); auto a = gens<T>(t, n, t.coin()); auto v = mkv<T,N>(d, a); size_t hdu = t.draw(3); t.note("type ", int(k), " dims ", vp::show(d), " hdu ", int(hdu)); fits::header hd; bool wh = t.coin(); if (wh) { fits::setkey(hd, "QKEY", 12.5); fits::setkey(hd, "QTEXT", "'some text'"); } if (hdu == 0 && t.coin()) { if (wh) fits::write(path(), v, hd); else fits::write(path(), v); } else { fits::output_image o(path()); o.reach_hdu(hdu); o.write(v); if (wh) o.write_header(hd); }
        Raw r; r.open(path()); int nh = 0; fits_get_num_hdus(r.f, &nh, &r.s); CHECK(nh == int(hdu) + 1, "number of HDUs ", nh); fits_movabs_hdu(r.f, int(hdu) + 1, nullptr, &r.s); int bp = 0, na = 0; long nx[9]; fits_get_img_param(r.f, 9, &bp, &na, nx, &r.s); r.ok("param"); CHECK(na == int(N), "axes ", na); for (size_t i = 0; i < N; ++i) CHECK(nx[i] == long(d[N-1-i]), "axis ", int(i), " is ", nx[i]); int wb = std::is_same<T,double>::value ? DOUBLE_IMG : std::is_same<T,float>::value ? FLOAT_IMG : std::is_same<T,int_t>::value || std::is_same<T,uint_t>::value ? LONGLONG_IMG : std::is_same<T,short>::value ? SHORT_IMG : BYTE_IMG; CHECK(bp == wb, "BITPIX ", bp, " expected ", wb);
        if (wb == LONGLONG_IMG) { std::vector<LL> b(n); int an; fits_read_img(r.f, TLONGLONG, 1, LL(n), nullptr, b.data(), &an, &r.s); r.ok("read"); for (size_t i = 0; i < n; ++i) CHECK(T(b[i]) == a[i], "pixel ", int(i), " is ", b[i]); } else { std::vector<double> b(n); int an; fits_read_img(r.f, TDOUBLE, 1, LL(n), nullptr, b.data(), &an, &r.s); r.ok("read"); for (size_t i = 0; i < n; ++i) CHECK(eqv(b[i], double(a[i])), "pixel ", int(i), " is ", b[i], " expected ", double(a[i])); }
        if (wh) { double kv = 0; char tx[80]; fits_read_key(r.f, TDOUBLE, "QKEY", &kv, nullptr, &r.s); fits_read_key(r.f, TSTRING, "QTEXT", tx, nullptr, &r.s); r.ok("keys"); CHECK(kv == 12.5 && Str(tx) == "some text", "header keywords"); } if (n > 1) t.nontrivial(); }); });
}
struct TC { Str name, form; int ty; size_t rep; std::vector<double> v; VS s; std::vector<size_t> td; }; // td: TDIM, vif order, without the rows
static Str word(Tape& t, size_t mn, size_t mx) { return vp::gen_str(t, "abcXYZ019_+", mn, mx); }
SUB("table-in", 7) {
    bool ascii = t.chance(1, 4), row = ascii || t.coin(); size_t nrow = row ? 2 + t.draw(7) : 1, nc = 1 + t.draw(5), hdu = 1 + (t.chance(1, 4) ? t.draw(2) : 0); if (ascii && t.chance(1, 8)) nrow = 0; std::vector<TC> cs(nc); static const char* TF = "BIJKEDAL";
    for (size_t c = 0; c < nc; ++c) { TC& q = cs[c]; q.name = "C" + std::to_string(c) + word(t, 0, 3); for (auto& ch : q.name) if (ch == '+') ch = '_'; q.ty = ascii ? int(t.pick({1, 2, 4, 5, 6})) : int(t.draw(8)); q.rep = ascii || t.coin() ? 1 : 2 + t.draw(4); if (!row && q.rep == 1) q.rep = 1 + t.draw(6); size_t w = 1 + t.draw(8); if (!ascii && q.rep > 2 && q.rep % 2 == 0 && t.coin()) q.td = {2, q.rep/2}; else q.td = {q.rep}; size_t n = nrow*q.rep; for (size_t i = 0; i < n; ++i) { switch (q.ty) { case 0: q.v.push_back(double(t.draw(t.coin() ? 2 : 256))); break; case 1: q.v.push_back(double(t.range(-32768, 32767))); break; case 2: q.v.push_back(double(t.range(-2147483647LL, 2147483647LL))); break; case 3: q.v.push_back(double(t.range(-(1LL << 52), 1LL << 52))); break; case 4: case 5: q.v.push_back(double(t.range(-9999, 9999))/8); break; case 7: q.v.push_back(double(t.draw(2))); break; default: q.s.push_back(word(t, 0, w)); } }
        if (ascii) q.form = q.ty == 1 ? "I7" : q.ty == 2 ? "I12" : q.ty == 4 ? "E16.8" : q.ty == 5 ? "D25.17" : "A" + std::to_string(w); else if (q.ty == 6) q.form = std::to_string(q.rep*w) + "A" + (q.rep > 1 ? std::to_string(w) : Str()); else q.form = std::to_string(q.rep) + TF[q.ty]; if (q.ty == 6) { q.v.assign(1, double(w)); } t.note(q.name, " ", q.form, " tdim ", vp::show(q.td), " ", q.ty == 6 ? vp::show(q.s) : vp::show(q.v)); }
    { Raw r; r.create(path()); long z = 0; for (size_t h = 0; h < hdu; ++h) fits_create_img(r.f, SHORT_IMG, 0, &z, &r.s); std::vector<char*> tt, tf; for (auto& q : cs) { tt.push_back(&q.name[0]); tf.push_back(&q.form[0]); } fits_create_tbl(r.f, ascii ? ASCII_TBL : BINARY_TBL, LL(nrow), int(nc), tt.data(), tf.data(), nullptr, nullptr, &r.s); r.ok("table");
      for (size_t c = 0; c < nc; ++c) { TC& q = cs[c]; int id = int(c) + 1; if (q.ty == 6) { size_t w = size_t(q.v[0]); if (!ascii && (q.rep > 1 || t.coin())) { std::vector<long> ax; ax.push_back(long(w)); if (q.rep > 1) for (size_t i = q.td.size(); i-- > 0;) ax.push_back(long(q.td[i])); fits_write_tdim(r.f, id, int(ax.size()), ax.data(), &r.s); } std::vector<char*> p; for (auto& x : q.s) p.push_back(&x[0]); if (!p.empty()) fits_write_col(r.f, TSTRING, id, 1, 1, LL(p.size()), p.data(), &r.s); } else { if (q.td.size() > 1) { std::vector<long> ax(q.td.rbegin(), q.td.rend()); fits_write_tdim(r.f, id, int(ax.size()), ax.data(), &r.s); } if (!q.v.empty()) { if (q.ty == 7) { std::vector<char> b(q.v.begin(), q.v.end()); fits_write_col(r.f, TLOGICAL, id, 1, 1, LL(b.size()), b.data(), &r.s); } else if (q.ty == 3) { std::vector<LL> b(q.v.begin(), q.v.end()); fits_write_col(r.f, TLONGLONG, id, 1, 1, LL(b.size()), b.data(), &r.s); } else fits_write_col(r.f, TDOUBLE, id, 1, 1, LL(q.v.size()), q.v.data(), &r.s); } } r.ok(q.form.c_str()); } r.close(); }
    fits::input_table in(path()); CHECK(in.current_hdu() == hdu, "first table found at ", in.current_hdu()); auto info = fits::read_table_columns(path(), hdu); size_t hid = 0; for (auto& q : cs) hid += q.ty == 7; CHECK(info.size() == nc - hid || info.size() == nc, "number of columns is ", info.size());
    for (auto& q : cs) { std::vector<size_t> wd; if (row && (q.rep > 1)) { wd.push_back(nrow); wd.insert(wd.end(), q.td.begin(), q.td.end()); } else if (row) wd = {nrow}; else if (q.ty == 6 && q.rep == 1) wd = {1}; else wd = q.td; size_t n = 1; for (auto x : wd) n *= x; Str what = "column " + q.name + " (" + q.form + ")";
        for (size_t i = 0; i < info.size(); ++i) { Str u = q.name; for (auto& ch : u) ch = char(std::toupper(ch)); Str g = info[i].name; for (auto& ch : g) ch = char(std::toupper(ch)); if (g == u) { CHECK(vp::tov(info[i].dims) == wd, what, ": dimensions ", vp::tov(info[i].dims), " expected ", wd); bool okt = q.ty == 6 ? info[i].type == fits::column_info::string : q.ty == 4 ? info[i].type == fits::column_info::float_simple || ascii : q.ty == 5 ? info[i].type == fits::column_info::float_double : q.ty == 0 ? info[i].type == fits::column_info::byte || info[i].type == fits::column_info::boolean : q.ty == 7 ? true : info[i].type == fits::column_info::integer; CHECK(okt, what, ": type ", int(info[i].type), " ", info[i].cfitsio_type); if (q.ty == 6) CHECK(info[i].length == size_t(q.v[0]), what, ": string length ", info[i].length); } }
        with_dim(wd.size(), [&](auto dd) { const size_t N = decltype(dd)::value; if (N > 3) return;
            if (q.ty == 6) { vec<N,Str> r; auto s = in.read_column(q.name, r); CHECK(s.is_good(), what, " refused: ", s.reason()); CHECK(vp::dimsv(r) == wd, what, ": dims ", vp::dimsv(r), " expected ", wd); for (size_t i = 0; i < n; ++i) CHECK(r.data[i] == q.s[i], what, ": ", r.data[i], " expected ", q.s[i]); vec<N,double> x; CHECK(!in.read_column(q.name, x).is_good(), what, " read as numbers"); }
            else if (q.ty == 7) { vec<N,bool> r; auto s = in.read_column(q.name, r); CHECK(s.is_good(), what, " refused: ", s.reason()); CHECK(vp::dimsv(r) == wd, what, ": dims ", vp::dimsv(r), " expected ", wd); for (size_t i = 0; i < n; ++i) CHECK(bool(r.data[i]) == (q.v[i] != 0), what, ": ", int(r.data[i]), " expected ", q.v[i]); }
            else { vec<N,double> r; auto s = in.read_column(q.name, r); CHECK(s.is_good(), what, " refused: ", s.reason()); CHECK(vp::dimsv(r) == wd, what, ": dims ", vp::dimsv(r), " expected ", wd); for (size_t i = 0; i < n; ++i) CHECK(ascii ? vp::near(r.data[i], q.v[i], q.ty == 5 ? 1e-14 : q.ty == 4 ? 1e-6 : 0, 0) : r.data[i] == q.v[i], what, ": element ", int(i), " is ", r.data[i], " expected ", q.v[i]);
                vec<N,int_t> k; auto s2 = in.read_column(q.name, k); bool fl = q.ty == 4 || q.ty == 5; CHECK(s2.is_good() == !fl, what, fl ? " floating point read as integers" : " refused as integers"); if (!fl) for (size_t i = 0; i < n; ++i) CHECK(k.data[i] == int_t(q.v[i]), what, ": integer element ", int(i), " is ", k.data[i], " expected ", q.v[i]); vec<N,Str> st; CHECK(!in.read_column(q.name, st).is_good(), what, " read as strings");
                vec<N,short> sh; bool oks = q.ty <= 1 && !ascii; CHECK(in.read_column(q.name, sh).is_good() == oks, what, oks ? " refused as shorts" : " read as shorts"); if (oks) for (size_t i = 0; i < n; ++i) CHECK(sh.data[i] == short(q.v[i]), what, ": short element"); if (q.ty == 4 || q.ty == 5) { vec<N,float> f; bool okf = q.ty == 4; bool g = in.read_column(q.name, f).is_good(); CHECK(ascii || g == okf, what, ": as float"); CHECK(in.read_column(fits::narrow, q.name, f).is_good(), what, ": narrow refused"); for (size_t i = 0; i < n; ++i) CHECK(f.data[i] == float(r.data[i]), what, ": float element"); }
                if (N > 1) { vec1d fl1; CHECK(in.read_column(fits::flatten, q.name, fl1).is_good() && fl1.size() == n && fl1.data == r.data, what, ": flatten"); } vec<N+1,double> pr; CHECK(in.read_column(fits::dim_promote | fits::narrow, q.name, pr).is_good() && pr.dims[0] == 1 && pr.data == r.data, what, ": dim_promote"); }
            if (n > 1) t.nontrivial(); }); }
}
SUB("table-out", 5) { // what another program reads from a table written by vif
    bool row = t.coin(); size_t nrow = row ? 2 + t.draw(5) : 1, nc = 1 + t.draw(4), hdu = 1 + (t.chance(1, 4) ? t.draw(2) : 0); struct C { Str n; int k; std::vector<size_t> d; std::vector<double> v; VS s; }; std::vector<C> cs(nc);
    { fits::output_table o(path()); if (hdu > 1) o.reach_hdu(hdu); if (row) o.set_format(fits::table_format::row_oriented); for (size_t c = 0; c < nc; ++c) { C& q = cs[c]; q.n = "c" + std::to_string(c) + word(t, 0, 2); for (auto& ch : q.n) if (ch == '+') ch = '_'; size_t D = 1 + t.draw(2); q.k = int(t.draw(8)); for (size_t i = 0; i < D; ++i) q.d.push_back(row && i == 0 ? nrow : (row ? 2 : 1) + t.draw(4)); size_t n = 1; for (auto x : q.d) n *= x; if (q.k < 7) { with_type(size_t(q.k), [&](auto tt) { using T = typename decltype(tt)::type; auto a = gens<T>(t, n, true); q.v.assign(a.begin(), a.end()); if (D == 1) o.write_column(q.n, mkv<T,1>({{q.d[0]}}, a)); else o.write_column(q.n, mkv<T,2>({{q.d[0], q.d[1]}}, a)); }); } else { for (size_t i = 0; i < n; ++i) q.s.push_back(word(t, 0, 5)); if (D == 1) o.write_column(q.n, mkv<Str,1>({{q.d[0]}}, q.s)); else o.write_column(q.n, mkv<Str,2>({{q.d[0], q.d[1]}}, q.s)); } t.note(q.n, " type ", q.k, " ", vp::show(q.d)); } }
    Raw r; r.open(path()); fits_movabs_hdu(r.f, int(hdu) + 1, nullptr, &r.s); int ty = 0, ncl = 0; LL nr = 0; fits_get_hdu_type(r.f, &ty, &r.s); fits_get_num_cols(r.f, &ncl, &r.s); fits_get_num_rowsll(r.f, &nr, &r.s); r.ok("open"); CHECK(ty == BINARY_TBL && ncl == int(nc), "columns ", ncl, " type ", ty); CHECK(nr == LL(nrow), "rows ", nr, " expected ", int(nrow));
    for (size_t c = 0; c < nc; ++c) { C& q = cs[c]; int id = 0; Str u = q.n; for (auto& ch : u) ch = char(std::toupper(ch)); fits_get_colnum(r.f, CASESEN, &u[0], &id, &r.s); r.ok("column"); CHECK(id == int(c) + 1, "order of the columns"); int tc; long rp, w; fits_get_coltype(r.f, id, &tc, &rp, &w, &r.s); static const int wt[] = {TDOUBLE, TFLOAT, TLONGLONG, TLONGLONG, TSHORT, TSBYTE, TBYTE, TSTRING}; int eq = 0; fits_get_eqcoltype(r.f, id, &eq, nullptr, nullptr, &r.s); CHECK((q.k == 5 ? eq : tc) == wt[q.k], "type of ", q.n, " is ", tc); std::vector<size_t> td(q.d.begin() + (row ? 1 : 0), q.d.end()); size_t rep = 1; for (auto x : td) rep *= x; int na = 0; long ax[9]; fits_read_tdim(r.f, id, 9, &na, ax, &r.s); r.ok("tdim"); std::vector<size_t> g; for (int i = na; i-- > (q.k == 7 ? 1 : 0);) g.push_back(size_t(ax[i])); if (td.empty() && q.k != 7) td = {1}; if (q.k == 7) { CHECK(row || g == td || (rep == 1 && g.empty()), "TDIM of ", q.n, " is ", g, " expected ", td); } else { CHECK(g == td, "TDIM of ", q.n, " is ", g, " expected ", td); CHECK(size_t(rp) == rep, "repeat of ", q.n, " is ", rp); }
        if (q.k == 7) { VS b(q.s.size(), Str(200, '\0')); std::vector<char*> p; for (auto& x : b) p.push_back(&x[0]); int an; char nul[2] = ""; if (w > 0) { fits_read_col(r.f, TSTRING, id, 1, 1, LL(b.size()), nul, p.data(), &an, &r.s); r.ok("strings"); for (size_t i = 0; i < b.size(); ++i) { Str gs(b[i].c_str()); while (!gs.empty() && gs.back() == 32) gs.pop_back(); CHECK(gs == q.s[i], "string ", int(i), " of ", q.n, " is ", b[i].c_str(), " expected ", q.s[i]); } } } else { std::vector<double> b(q.v.size()); int an; fits_read_col(r.f, TDOUBLE, id, 1, 1, LL(b.size()), nullptr, b.data(), &an, &r.s); r.ok("numbers"); CHECK(b == q.v, "column ", q.n, " is ", b, " expected ", q.v); } if (q.d.size() > 1) t.nontrivial(); }
}
SUB("allocate", 3) { // allocated columns filled piece by piece
    bool row = t.coin(); size_t a = 2 + t.draw(4), b = 2 + t.draw(4); std::vector<double> m(a*b, 0.0), m1(a, 0.0); t.note(row ? "row" : "column", " ", int(a), "x", int(b)); { fits::table f; ::unlink(path().c_str()); { fits::output_table o(path()); if (row) o.set_format(fits::table_format::row_oriented); if (t.coin()) { o.allocate_column<double>("two", a, b); o.allocate_column<int_t>("one", a); } else { o.allocate_column<int_t>("ONE", a); o.allocate_column<double>("TWO", a, b); } } }
    { fits::table f(path()); size_t ops = 1 + t.draw(8); for (size_t q = 0; q < ops; ++q) { size_t i = t.draw(a), j = t.draw(b); double x = double(t.range(-50, 50)); switch (t.draw(3)) { case 0: f.update_elements("TWO", x, fits::at(i, j)); m[i*b + j] = x; break; case 1: { vec1d r(b); for (size_t k = 0; k < b; ++k) m[i*b + k] = r[k] = double(t.range(-50, 50)); f.update_elements("two", r, fits::at(i, _)); break; } default: f.update_elements("one", int_t(x), fits::at(i)); m1[i] = x; } } }
    vec2d r; vec1i s; fits::read_table(path(), "one", s, "two", r); CHECK(vp::dimsv(r) == (std::vector<size_t>{a, b}), "dims ", vp::dimsv(r)); CHECK(s.size() == a, "size ", s.size()); for (size_t k = 0; k < m.size(); ++k) CHECK(r.data[k] == m[k], "element ", int(k), " is ", r.data[k], " expected ", m[k]); for (size_t k = 0; k < a; ++k) CHECK(s[k] == int_t(m1[k]), "element ", int(k), " of the first column"); t.nontrivial();
}
SUB("empty", 1) { { fits::output_image o(path()); if (t.coin()) o.reach_hdu(t.draw(2)); o.write_empty(); if (t.coin()) o.write_keyword("QA", 3.0); if (t.coin()) { o.reach_hdu(o.current_hdu() + 1); vec2d v(2, 3); v.data.assign(6, 1.5); o.write(v); } } fits::input_image i(path()); Raw r; r.open(path()); int nh; fits_get_num_hdus(r.f, &nh, &r.s); r.ok("hdus"); CHECK(i.hdu_count() == size_t(nh), "hdu_count"); int na = -1; fits_get_img_dim(r.f, &na, &r.s); CHECK(na == 0, "first HDU is not empty"); t.nontrivial(); }
