// I01: FITS images read back exactly what was written, whole, in part, pixel by pixel and after updates.
#include "fits_h.hpp"
using namespace fh;
static Str path() { return vp::scratch() + "/i.fits"; }
template<class R, size_t D, class T> static void same(const vec<D,R>& v, const std::array<size_t,D>& d, const std::vector<T>& m, const char* what) {
    std::vector<size_t> gd = vp::dimsv(v), wd(d.begin(), d.end()); CHECK(gd == wd, what, ": dims ", gd, " expected ", wd); vp::valid(v, what); for (size_t i = 0; i < m.size(); ++i) { R w = R(T(m[i])); R g = v.safe[i]; CHECK(fh::okv(g, w), what, ": element ", i, " got ", double(g), " expected ", double(w)); }
}
SUB("roundtrip", 5) {
    size_t k = t.draw(7), D = 1 + t.draw(4); size_t hdu = t.chance(2, 3) ? 0 : t.draw(4); bool big = t.chance(1, 20);
    with_type(k, [&](auto tt) { with_dim(D, [&](auto dd) { using T = typename decltype(tt)::type; const size_t N = decltype(dd)::value; bool small = t.coin(); auto d = gdims<N>(t, N == 1 ? (big ? 4000 : 40) : N == 2 ? (big ? 90 : 8) : 4); auto a = gens<T>(t, vp::prod(d), small); auto v = mkv(d, a); t.note("type ", k, " dims ", vp::show(d), " hdu ", hdu, " values ", vp::show(std::vector<T>(a.begin(), a.begin() + std::min<size_t>(a.size(), 20)))); size_t n = a.size();
        switch (t.draw(3)) {
        case 0: if (hdu == 0) { fits::write(path(), v); break; }
        case 1: { fits::output_image o(path()); if (hdu || t.coin()) o.reach_hdu(hdu); o.write(v); if (t.coin()) o.flush(); CHECK(errs([&] { o.write(v); }), "overwriting an image accepted"); break; }
        default: { fits::output_image o; CHECK(!o.is_open(), "is_open"); if (t.coin()) CHECK(errs([&] { o.write(v); }), "write without a file accepted"); o.open(path()); CHECK(o.is_open() && o.filename() == path(), "is_open"); if (hdu) o.reach_hdu(hdu); vec<N,T> w = v; if (t.coin()) { o.write(w); } else { // through a view
                vec<1,size_t> ids = indgen<size_t>(n); if (N == 1 || n == 0) o.write(w); else { auto w2 = w; o.write(reform(w2[ids], w.dims)); } } if (t.coin()) o.close(); } }
        { vec<N,T> r; if (t.coin()) r = mkv<T,N>(d, a); if (hdu == 0) fits::read(path(), r); else fits::read_hdu(path(), r, hdu); same(r, d, a, "read"); }
        fits::input_image im(path()); im.reach_hdu(hdu); CHECK(im.axis_count() == N, "axis_count ", im.axis_count()); CHECK(vp::tov(im.image_dims()) == (std::vector<size_t>(d.begin(), d.end())), "image_dims ", vp::tov(im.image_dims())); CHECK(im.hdu_type() == fits::image_hdu, "hdu_type"); CHECK(im.hdu_count() == hdu + 1, "hdu_count ", im.hdu_count());
        if (hdu == 0) { CHECK(fits::file_axes(path()) == N, "file_axes"); CHECK(vp::tov(fits::file_dimensions(path())) == (std::vector<size_t>(d.begin(), d.end())), "file_dimensions"); } else if (hdu > 1) { im.reach_hdu(1); CHECK(im.hdu_type() == fits::empty_hdu && im.axis_count() == 0, "skipped HDU is not empty"); im.reach_hdu(hdu); }
        if (n > 1) t.nontrivial();
        // other types
        size_t k2 = t.draw(7); with_type(k2, [&](auto t2) { using R = typename decltype(t2)::type; vec<N,R> r; if (std::is_same<R,bool>::value && std::is_same<T,char>::value) return; bool ok = can_read<R>(klass<T>()); bool e = errs([&] { im.read(r); }); CHECK(e == !ok, e ? "allowed conversion refused: " : "forbidden conversion accepted: ", k, " -> ", k2); if (!e && small && !(std::is_same<R,bool>::value && !std::is_same<T,bool>::value)) { same(r, d, a, "converted read"); t.label("converted"); } });
        { vec<N == 4 ? 3 : N + 1,T> r; CHECK(errs([&] { im.read(r); }), "wrong number of dimensions accepted"); }
        // pixels
        if (n) for (size_t q = 0; q < 3; ++q) { size_t f = t.draw(n); vec1u p(N); size_t rem = f; for (size_t i = N; i-- > 0;) { p[i] = rem % d[i]; rem /= d[i]; } T g = im.template read_pixel<T>(p); T w = a[f]; CHECK(fh::okv(g, w), "pixel ", vp::tov(p), " is ", double(g), " expected ", double(w)); if (klass<T>() <= 4 && small) { double x = im.read_pixel(p); CHECK(x == double(w), "pixel as double"); } vec1u b = p; size_t ax = t.draw(N); b[ax] = d[ax] + t.draw(3); CHECK(errs([&] { im.template read_pixel<T>(b); }), "pixel outside of the image accepted: ", vp::tov(b)); }
    }); });
}
SUB("subset", 4) {
    size_t k = t.draw(7); with_type(k, [&](auto tt) { using T = typename decltype(tt)::type; auto d = gdims<2>(t, 9, false); auto a = gens<T>(t, d[0]*d[1], false); fits::write(path(), mkv(d, a)); fits::input_image im(path());
        size_t lo[2], hi[2]; int kind[2]; bool bad = false; for (int i = 0; i < 2; ++i) { kind[i] = int(t.draw(5)); lo[i] = 0; hi[i] = d[i] - 1; bool out = t.chance(1, 10); switch (kind[i]) { case 0: break; case 1: hi[i] = out ? d[i] + t.draw(3) : t.draw(d[i]); break; case 2: lo[i] = out ? d[i] + t.draw(3) : t.draw(d[i]); break; case 3: lo[i] = t.draw(d[i]); hi[i] = out ? d[i] + t.draw(3) : lo[i] + t.draw(d[i] - lo[i]); break; default: lo[i] = hi[i] = out ? d[i] + t.draw(3) : t.draw(d[i]); } if (out && kind[i] != 0) bad = true; }
        t.note("type ", k, " dims ", vp::show(d), " axis 0 kind ", kind[0], " ", lo[0], "-", hi[0], " axis 1 kind ", kind[1], " ", lo[1], "-", hi[1]); vec<2,T> r(1, 1); bool e = errs([&] {
            auto go = [&](auto x) { switch (kind[1]) { case 0: im.read_subset(r, x, _); break; case 1: im.read_subset(r, x, _-hi[1]); break; case 2: im.read_subset(r, x, lo[1]-_); break; case 3: im.read_subset(r, x, lo[1]-_-hi[1]); break; default: im.read_subset(r, x, lo[1]); } };
            switch (kind[0]) { case 0: go(_); break; case 1: go(_-hi[0]); break; case 2: go(lo[0]-_); break; case 3: go(lo[0]-_-hi[0]); break; default: go(lo[0]); } });
        CHECK(e == bad, e ? "valid subset refused" : "subset outside of the image accepted"); if (e) { t.label("outside"); return; } std::vector<T> w; for (size_t y = lo[0]; y <= hi[0]; ++y) for (size_t x = lo[1]; x <= hi[1]; ++x) w.push_back(a[y*d[1]+x]); same(r, {{hi[0]-lo[0]+1, hi[1]-lo[1]+1}}, w, "subset"); if (w.size() > 1 && w.size() < a.size()) t.nontrivial(); });
    if (t.chance(1, 3)) { auto d = gdims<3>(t, 4, false); auto a = gens<float>(t, vp::prod(d), false); fits::write(path(), mkv(d, a)); fits::input_image im(path()); size_t z = t.draw(d[0]), y0 = t.draw(d[1]), y1 = y0 + t.draw(d[1]-y0), x0 = t.draw(d[2]); vec3f r; im.read_subset(r, z, y0-_-y1, x0-_); std::vector<float> w; for (size_t y = y0; y <= y1; ++y) for (size_t x = x0; x < d[2]; ++x) w.push_back(a[(z*d[1]+y)*d[2]+x]); same(r, {{1, y1-y0+1, d[2]-x0}}, w, "3d subset"); }
}
SUB("update", 3) { // several images in one file; updating one leaves the others alone
    size_t nh = 1 + t.draw(4); std::vector<std::array<size_t,2>> ds(nh); std::vector<std::vector<double>> as(nh); std::vector<int> ks(nh); { fits::output_image o(path()); for (size_t h = 0; h < nh; ++h) { ds[h] = gdims<2>(t, 6, false); ks[h] = int(t.draw(3)); o.reach_hdu(h); as[h].resize(ds[h][0]*ds[h][1]); for (auto& x : as[h]) x = double(t.draw(100)); if (ks[h] == 0) o.write(mkv<double,2>(ds[h], as[h])); else if (ks[h] == 1) o.write(mkv<float,2>(ds[h], std::vector<float>(as[h].begin(), as[h].end()))); else o.write(mkv<short,2>(ds[h], std::vector<short>(as[h].begin(), as[h].end()))); } }
    size_t ops = 1 + t.draw(4); std::unique_ptr<fits::image> im; for (size_t q = 0; q < ops; ++q) { size_t h = t.draw(nh); auto d = ds[h]; bool wrong = t.chance(1, 6); if (wrong) d[t.draw(2)] += 1; std::vector<double> b(d[0]*d[1]); for (auto& x : b) x = double(t.draw(100)); bool asf = t.chance(1, 3); bool e; t.note("update hdu ", h, " dims ", vp::show(d), wrong ? " (wrong)" : "", asf ? " float" : " double"); bool one = t.coin(); if (one) im.reset();
        auto run = [&](auto v) { return errs([&] { if (one) fits::update_hdu(path(), v, h); else { if (!im) im.reset(new fits::image(path())); im->reach_hdu(h); im->update(v); } }); }; if (asf) e = run(mkv<float,2>(d, std::vector<float>(b.begin(), b.end()))); else e = run(mkv<double,2>(d, b)); bool bad = wrong || (asf && ks[h] == 0); CHECK(e == bad, e ? "valid update refused" : "invalid update accepted"); if (!e) { as[h] = b; t.nontrivial(); } if (t.coin()) im.reset(); }
    im.reset(); for (size_t h = 0; h < nh; ++h) { vec2d r; fits::read_hdu(path(), r, h); vp::expect(r, ds[h], as[h], "after updates"); } CHECK(fits::input_image(path()).hdu_count() == nh, "hdu_count");
}
SUB("open", 1) { Str none = vp::scratch() + "/none" + std::to_string(t.draw(50)) + ".fits"; vec1d a = {1.0, 2.0}; fits::write(path(), a); fits::input_image im; size_t tries = 1 + t.draw(3); for (size_t i = 0; i < tries; ++i) { CHECK(errs([&] { im.open(none); }), "missing file opened"); CHECK(!im.is_open(), "is_open after a failure"); vec1d r; CHECK(errs([&] { im.read(r); }), "read without a file"); } im.open(path()); vec1d r; im.read(r); CHECK(r.size() == 2 && r[1] == 2, "read after reopening"); im.close(); CHECK(!im.is_open(), "is_open"); im.close(); CHECK(errs([&] { im.read(r); }), "read after close"); CHECK(errs([&] { fits::output_image o(vp::scratch() + "/no/such/dir.fits"); }), "impossible file created"); t.nontrivial(); }
KNOWN("K1", "an infinite pixel is read back as NaN") { vec1d a = {1.0, -dinf}, r; fits::write(path(), a); fits::read(path(), r); return r.size() == 2 && r[1] == -dinf; }
