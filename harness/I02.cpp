// I02: FITS tables give back the columns that were written, after any history of column operations.
#include "fits_h.hpp"
using namespace fh; using VS = std::vector<Str>;
static Str path() { return vp::scratch() + "/t.fits"; }
template<class R, size_t D, class T> static void same(const vec<D,R>& v, const std::array<size_t,D>& d, const std::vector<T>& m, const Str& what) {
    std::vector<size_t> gd = vp::dimsv(v), wd(d.begin(), d.end()); CHECK(gd == wd, what, ": dims ", gd, " expected ", wd); CHECK(v.data.size() == m.size(), what, ": size"); for (size_t i = 0; i < m.size(); ++i) { R w = R(T(m[i])); R g = v.safe[i]; CHECK(okv(g, w), what, ": element ", i, " got ", double(g), " expected ", double(w)); }
}
template<size_t D> static void same_s(const vec<D,Str>& v, const std::array<size_t,D>& d, const VS& m, const Str& what) { std::vector<size_t> gd = vp::dimsv(v), wd(d.begin(), d.end()); CHECK(gd == wd, what, ": dims ", gd, " expected ", wd); CHECK(vp::tov(v) == m, what, ": got ", vp::tov(v), " expected ", m); }
static Str word(Tape& t, size_t mx = 9) { Str s = vp::gen_str(t, "abc d'/=X&0", 0, mx); while (!s.empty() && s.back() == ' ') s.pop_back(); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s; }
static Str cname(Tape& t, std::set<Str>& used) { for (;;) { Str s = vp::gen_str(t, "abXYz_019", 1, 6); if (!std::isalpha(s[0])) s = "q" + s; Str u = s; for (auto& c : u) c = char(std::toupper(c)); if (used.insert(u).second) return s; } }
static Str recase(Tape& t, Str s) { for (auto& c : s) c = t.coin() ? char(std::toupper(c)) : char(std::tolower(c)); return s; }
static bool good(const fits::input_table::read_sentry& s) { return s.is_good(); }
SUB("roundtrip", 6) {
    bool row = t.coin(); size_t nc = 1 + t.draw(5), nrow = t.chance(1, 12) ? 0 : t.chance(1, 15) ? 200 + t.draw(300) : 2 + t.draw(6); std::set<Str> used; size_t hdu = t.chance(1, 4) && !row ? 1 + t.draw(3) : 1; t.note(row ? "row" : "column", " oriented, rows ", nrow, " hdu ", hdu);
    std::vector<std::function<void(fits::output_table&)>> wr; std::vector<std::function<void(const fits::input_table&)>> rd; std::vector<Str> names; std::vector<std::vector<size_t>> dims; bool nt = false;
    for (size_t c = 0; c < nc; ++c) { Str nm = cname(t, used); Str rn = recase(t, nm); names.push_back(nm); size_t D = 1 + t.draw(3); size_t k = t.draw(9); 
        with_dim(D, [&](auto dd) { const size_t N = decltype(dd)::value; if (N > 3) return; auto d = gdims<N>(t, N == 1 ? 12 : 5); if (row) { d[0] = nrow; for (size_t i = 1; i < N; ++i) d[i] += 2; if (vp::prod(d) > 5000) d[0] = nrow; } size_t n = vp::prod(d); if (n > 1) nt = true; dims.push_back({d.begin(), d.end()});
            if (k >= 7) { VS a(n); size_t mx = t.pick({size_t(1), size_t(9), size_t(30)}); for (auto& x : a) x = word(t, mx); auto v = mkv<Str,N>(d, a); bool view = N == 1 && t.chance(1, 4); t.note(nm, " strings ", vp::show(d), " ", vp::show(a)); wr.push_back([=](fits::output_table& o) { if (view) { auto w = v; o.write_column(nm, w[indgen<size_t>(n)]); } else o.write_column(nm, v); });
                rd.push_back([=, &t](const fits::input_table& i) { vec<N,Str> r; auto s = i.read_column(rn, r); CHECK(good(s), "column ", rn, " refused: ", s.reason()); same_s(r, d, a, "column " + nm); vec<N,double> x; CHECK(!good(i.read_column(rn, x)), "string column read as numbers"); CHECK(!good(i.read_column(fits::permissive, rn, x)), "string column read as numbers"); }); }
            else with_type(k, [&](auto tt) { using T = typename decltype(tt)::type; bool small = t.coin(); auto a = gens<T>(t, n, small); auto v = mkv<T,N>(d, a); bool view = N == 1 && t.chance(1, 4); t.note(nm, " type ", k, " ", vp::show(d), " ", vp::show(std::vector<T>(a.begin(), a.begin() + std::min<size_t>(n, 12)))); wr.push_back([=](fits::output_table& o) { if (view) { auto w = v; o.write_column(nm, w[indgen<size_t>(n)]); } else o.write_column(nm, v); });
                size_t k2 = t.draw(7); rd.push_back([=, &t](const fits::input_table& i) { vec<N,T> r; auto s = i.read_column(rn, r); CHECK(good(s), "column ", rn, " refused: ", s.reason()); same(r, d, a, "column " + nm);
                    with_type(k2, [&](auto t2) { using R = typename decltype(t2)::type; if (std::is_same<R,bool>::value && !std::is_same<T,bool>::value) return; vec<N,R> x; bool ok = can_read<R>(klass<T>()); CHECK(good(i.read_column(rn, x)) == ok, "conversion ", k, " -> ", k2, ok ? " refused" : " accepted"); if (ok && small) same(x, d, a, "converted " + nm); bool okn = can_narrow<R>(klass<T>()); if (small) { vec<N,R> y; CHECK(good(i.read_column(fits::narrow, rn, y)) == okn, "narrowing ", k, " -> ", k2, okn ? " refused" : " accepted"); if (okn) same(y, d, a, "narrowed " + nm); } });
                    if (N > 1) { vec<1,T> f; CHECK(!good(i.read_column(rn, f)), "flattened without being asked"); CHECK(good(i.read_column(fits::flatten, rn, f)), "flatten refused"); same(f, std::array<size_t,1>{{n}}, a, "flattened " + nm); }
                    { vec<N+1,T> p; CHECK(!good(i.read_column(rn, p)), "dimensions promoted without being asked"); CHECK(good(i.read_column(fits::dim_promote, rn, p)), "dim_promote refused"); std::array<size_t,N+1> pd; pd[0] = 1; for (size_t q = 0; q < N; ++q) pd[q+1] = d[q]; same(p, pd, a, "promoted " + nm); }
                    if (n > 1) { T sc = T(1); CHECK(!good(i.read_column(rn, sc)), "column read into a scalar"); CHECK(sc == T(1), "scalar changed"); } vec<N,Str> st; CHECK(!good(i.read_column(fits::permissive, rn, st)), "numbers read as strings"); }); }); }); }
    { fits::output_table o(path()); if (hdu > 1) o.reach_hdu(hdu); if (row) o.set_format(fits::table_format::row_oriented); for (auto& w : wr) w(o); CHECK(o.hdu_type() == fits::table_hdu && o.current_hdu() == hdu, "hdu ", o.current_hdu()); CHECK(o.axis_count() == 0, "axis_count"); if (row) { vec1d bad(nrow + 1 + t.draw(3)); CHECK(errs([&] { o.write_column("WRONGN", bad); }), "wrong number of rows accepted"); } }
    fits::input_table i(path()); CHECK(i.current_hdu() == hdu, "first table is not at HDU ", hdu, " but ", i.current_hdu()); for (size_t c = 0; c < rd.size(); ++c) rd[t.coin() ? c : rd.size() - 1 - c](i); for (auto& r : rd) r(i);
    vec1d q = {4.0}; CHECK(!good(i.read_column("nosuchcolumn", q)), "missing column accepted"); CHECK(good(i.read_column(fits::missing, "nosuchcolumn", q)) && q.size() == 1 && q[0] == 4, "missing column changed the variable"); if (nt) t.nontrivial(); if (row) t.label("row"); if (nrow == 0 && row) t.label("no rows");
}
// column histories on a read/write table, column oriented or row oriented
struct Col { Str name; bool str = false; std::vector<size_t> d; std::vector<double> v; VS s; };
SUB("history", 5) {
    bool row = t.coin(); size_t nrow = 2 + t.draw(4); std::vector<Col> m; std::set<Str> used; auto up = [](Str s) { for (auto& c : s) c = char(std::toupper(c)); return s; };
    auto gencol = [&](Col& c) { c.str = t.chance(1, 4); size_t D = 1 + t.draw(2); c.d.clear(); for (size_t i = 0; i < D; ++i) c.d.push_back(row && i == 0 ? nrow : 1 + (row ? 1 : 0) + t.draw(4)); size_t n = 1; for (auto x : c.d) n *= x; c.v.clear(); c.s.clear(); if (c.str) { c.s.resize(n); for (auto& x : c.s) x = word(t); } else { c.v.resize(n); for (auto& x : c.v) x = double(t.range(-50, 50))/4; } };
    auto put = [&](fits::table& f, const Col& c, bool update) { auto go = [&](auto v) { if (update) f.update_column(c.name, v); else f.write_column(c.name, v); }; if (c.d.size() == 1) { if (c.str) go(mkv<Str,1>({{c.d[0]}}, c.s)); else go(mkv<double,1>({{c.d[0]}}, c.v)); } else { if (c.str) go(mkv<Str,2>({{c.d[0], c.d[1]}}, c.s)); else go(mkv<double,2>({{c.d[0], c.d[1]}}, c.v)); } };
    auto check = [&](const fits::input_table& i, const Col& c) { Str rn = recase(t, c.name); if (c.d.size() == 1) { if (c.str) { vec1s r; CHECK(good(i.read_column(rn, r)), "column ", rn, " refused"); same_s(r, {{c.d[0]}}, c.s, "column " + rn); } else { vec1d r; CHECK(good(i.read_column(rn, r)), "column ", rn, " refused"); same(r, {{c.d[0]}}, c.v, "column " + rn); } } else { if (c.str) { vec2s r; CHECK(good(i.read_column(rn, r)), "column ", rn, " refused"); same_s(r, {{c.d[0], c.d[1]}}, c.s, "column " + rn); } else { vec2d r; CHECK(good(i.read_column(rn, r)), "column ", rn, " refused"); same(r, {{c.d[0], c.d[1]}}, c.v, "column " + rn); } } };
    { fits::output_table o(path()); if (row) o.set_format(fits::table_format::row_oriented); Col c; c.name = cname(t, used); c.str = false; c.d = {row ? nrow : 1 + t.draw(5)}; c.v.resize(c.d[0]); for (auto& x : c.v) x = double(t.range(-50, 50)); o.write_column(c.name, mkv<double,1>({{c.d[0]}}, c.v)); m.push_back(c); t.note(row ? "row" : "column", " oriented ", nrow, " first ", c.name); }
    std::unique_ptr<fits::table> f(new fits::table(path())); size_t ops = 1 + t.draw(10), changes = 0;
    for (size_t q = 0; q < ops; ++q) switch (t.draw(7)) {
        case 0: { Col c; c.name = cname(t, used); gencol(c); t.note("write ", c.name, vp::show(c.d), c.str ? " strings" : ""); put(*f, c, t.coin()); m.push_back(c); ++changes; break; }
        case 1: { size_t k = t.draw(m.size()); Col c; gencol(c); c.name = recase(t, m[k].name); t.note("update ", c.name, vp::show(c.d), c.str ? " strings" : ""); if (row && m.size() == 1) break; put(*f, c, true); m.erase(m.begin() + k); m.push_back(c); ++changes; break; }
        case 2: { if (t.chance(1, 3)) { f->remove_column("nosuch"); break; } if (m.size() == 1) break; size_t k = t.draw(m.size()); t.note("remove ", m[k].name); f->remove_column(recase(t, m[k].name)); used.erase(up(m[k].name)); m.erase(m.begin() + k); ++changes; break; }
        case 3: { t.note("reopen"); f.reset(); f.reset(new fits::table(path())); break; }
        case 4: { // elements
            size_t k = t.draw(m.size()); Col& c = m[k]; if (c.str) break; double x = double(t.range(-50, 50)); size_t i = t.draw(c.d[0]); bool bad = t.chance(1, 6); if (bad) i = c.d[0] + t.draw(2); t.note("element ", c.name, "[", i, "] = ", x); bool e; if (c.d.size() == 1) { e = errs([&] { f->update_elements(c.name, x, fits::at(i)); }); if (!bad) c.v[i] = x; } else if (t.coin()) { size_t j = t.draw(c.d[1]); e = errs([&] { f->update_elements(c.name, x, fits::at(i, j)); }); if (!bad) c.v[i*c.d[1]+j] = x; } else { std::vector<double> r(c.d[1]); for (auto& y : r) y = double(t.range(-9, 9)); e = errs([&] { f->update_elements(c.name, mkv<double,1>({{c.d[1]}}, r), fits::at(i, _)); }); if (!bad) std::copy(r.begin(), r.end(), c.v.begin() + i*c.d[1]); } CHECK(e == bad, e ? "valid element refused" : "element outside of the column accepted"); if (!bad) ++changes; break; }
        case 5: { Col& c = m[t.draw(m.size())]; if (c.str) break; size_t i = t.draw(c.d[0]); if (c.d.size() == 1) { double x = -1e9; f->read_elements(c.name, x, fits::at(i)); CHECK(x == c.v[i], "element ", i, " of ", c.name, " is ", x, " expected ", c.v[i]); } else if (t.coin()) { size_t j = t.draw(c.d[1]); double x = -1e9; f->read_elements(c.name, x, fits::at(i, j)); CHECK(x == c.v[i*c.d[1]+j], "element ", i, ",", j, " of ", c.name, " is ", x); } else { vec1d r; f->read_elements(c.name, r, fits::at(i, _)); same(r, {{c.d[1]}}, std::vector<double>(c.v.begin() + i*c.d[1], c.v.begin() + (i+1)*c.d[1]), "elements"); } break; }
        default: if (row) { Col c; c.name = "WRNG"; vec1d bad(nrow + 1); if (errs([&] { f->write_column("WRNG", bad); })) break; vp::fail("wrong number of rows accepted"); } check(*f, m[t.draw(m.size())]); }
    for (auto& c : m) check(*f, c); auto info = f->read_columns_info(); CHECK(info.size() == m.size(), "number of columns ", info.size(), " expected ", m.size());
    f.reset(); fits::input_table i(path()); for (auto& c : m) check(i, c); info = i.read_columns_info(); CHECK(info.size() == m.size(), "number of columns"); for (size_t k = 0; k < m.size(); ++k) { CHECK(info[k].name == up(m[k].name), "column ", k, " is ", info[k].name, " expected ", m[k].name); CHECK(info[k].type == (m[k].str ? fits::column_info::string : fits::column_info::float_double), "type of ", m[k].name); CHECK(vp::tov(info[k].dims) == m[k].d, "dims of ", m[k].name, " ", vp::tov(info[k].dims), " expected ", m[k].d); } if (changes > 1) t.nontrivial();
}
SUB("functions", 3) { // the one line functions and ftable()
    size_t n = t.size(1, 8); std::vector<double> a = vp::doubles(t, n); std::vector<int_t> b = vp::ints<int_t>(t, n, -99, 99); VS s(n); for (auto& x : s) x = word(t); double sc = t.range(-99, 99)/4.0; Str ss = word(t); bool sb = t.coin(); vec1d x = vp::mk<double>(a); vec1i y = vp::mk<int_t>(b); vec1s z = vp::mk<Str>(s); struct { vec1d in; } o; o.in = reverse(x);
    switch (t.draw(3)) { case 0: fits::write_table(path(), "x", x, "y", y, "z", z, "sc", sc, "ss", ss, "sb", sb, "in", o.in); break; case 1: fits::write_table(path(), ftable(x, y, z, sc, ss, sb, o.in)); break; default: fits::write_table(path(), ftable(z, y)); fits::update_table(path(), "y", y, "X", x); fits::update_table(path(), ftable(z, sc, ss, sb, o.in)); }
    vec1d x2; vec1i y2; vec1s z2; double c2 = -1; Str s2 = "zz"; bool b2 = !sb; vec1d in2; fits::read_table(path(), "X", x2, "y", y2, "Z", z2); same(x2, {{n}}, a, "x"); same(y2, {{n}}, b, "y"); same_s(z2, {{n}}, s, "z"); fits::read_table(path(), "sc", c2, "ss", s2, "sb", b2, "in", in2); CHECK(c2 == sc && s2 == ss && b2 == sb, "scalars ", c2, " ", s2, " ", b2, " expected ", sc, " ", ss, " ", sb); std::vector<double> ar(a.rbegin(), a.rend()); same(in2, {{n}}, ar, "in");
    { vec1d x; vec1s z; vec1i y; fits::read_table(path(), ftable(z, y, x)); same(x, {{n}}, a, "x"); same(y, {{n}}, b, "y"); same_s(z, {{n}}, s, "z"); vec1d zzz = {3.0}; x.clear(); fits::read_table_loose(path(), ftable(zzz, x)); CHECK(zzz.size() == 1 && zzz[0] == 3, "missing column changed"); same(x, {{n}}, a, "x"); }
    CHECK(fits::read_table_columns(path()).size() == 7, "columns"); if (n > 1) t.nontrivial();
}
KNOWN("K1", "an infinite value is read back as NaN") { vec1d a = {1.0, -dinf}, r; fits::write_table(path(), "A", a); fits::read_table(path(), "A", r); return r.size() == 2 && r[1] == -dinf; }
