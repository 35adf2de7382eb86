// X07: masks and segmentation maps.
#include "astro_h.hpp"
using namespace vif; using namespace vif::astro;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>; typedef long long LL;
struct G { size_t a, b; V<int> p; int at(LL x, LL y) const { return x < 0 || y < 0 || x >= LL(a) || y >= LL(b) ? 0 : p[size_t(x)*b + size_t(y)]; } };
static G gen(Tape& t, int nval) { G g; g.a = size_t(t.range(1, 8)); g.b = size_t(t.range(1, 8)); g.p.resize(g.a*g.b); size_t den = 1 + t.draw(9); for (auto& x : g.p) x = t.chance(unsigned(den), 10) ? int(t.range(1, nval)) : 0; if (t.chance(1, 10)) for (auto& x : g.p) x = 0; t.note(int(g.a), "x", int(g.b), " ", g.p); return g; }
// component of a pixel among the pixels for which same() holds
template<class F> static V<size_t> comp(size_t a, size_t b, size_t s, F same) { std::set<size_t> r{s}; V<size_t> q{s}; while (!q.empty()) { size_t p = q.back(); q.pop_back(); LL x = LL(p/b), y = LL(p % b); LL nb[4][2] = {{x-1, y}, {x+1, y}, {x, y-1}, {x, y+1}}; for (auto& k : nb) if (k[0] >= 0 && k[1] >= 0 && k[0] < LL(a) && k[1] < LL(b)) { size_t z = size_t(k[0])*b + size_t(k[1]); if (!r.count(z) && same(z)) { r.insert(z); q.push_back(z); } } } return V<size_t>(r.begin(), r.end()); }
SUB("inflate", 3) {
    G g = gen(t, 1); LL d = t.range(0, 5); t.note(int(d)); vec2b m(g.a, g.b); for (size_t i = 0; i < m.size(); ++i) m[i] = g.p[i] != 0; vec2b o = m, r = mask_inflate(m, uint_t(d)); CHECK(m.data == o.data && r.dims == m.dims, "input changed"); bool ch = false; for (LL x = 0; x < LL(g.a); ++x) for (LL y = 0; y < LL(g.b); ++y) { bool w = false; for (LL i = 0; i < LL(g.a); ++i) for (LL j = 0; j < LL(g.b); ++j) if (g.at(i, j) && std::llabs(i - x) + std::llabs(j - y) <= d) w = true; CHECK(bool(r(size_t(x), size_t(y))) == w, "pixel ", x, ",", y, w ? " should be in the mask" : " should not be in the mask"); if (w && !g.at(x, y)) ch = true; } if (ch) t.nontrivial();
}
template<class T> static void seg(Tape& t) {
    G g = gen(t, 3); segment_params pr; pr.min_area = t.coin() ? 0 : t.draw(6); pr.first_id = t.coin() ? 1 : 1 + t.draw(9); t.note(int(pr.min_area), " ", int(pr.first_id)); vec<2,T> m(g.a, g.b); for (size_t i = 0; i < m.size(); ++i) m[i] = T(g.p[i]); V<size_t> w(g.p.size(), 0); struct S { size_t id, area, o; double px, py; }; V<S> l; size_t id = pr.first_id; std::set<size_t> done; for (size_t i = 0; i < g.p.size(); ++i) if (g.p[i] && !done.count(i)) { auto c = comp(g.a, g.b, i, [&](size_t z) { return g.p[z] != 0; }); for (size_t z : c) done.insert(z); if (c.size() >= pr.min_area) { S s{id, c.size(), i, 0, 0}; for (size_t z : c) { s.px += double(z % g.b); s.py += double(z/g.b); w[z] = id; } s.px /= double(c.size()); s.py /= double(c.size()); l.push_back(s); } ++id; }
    segment_output out; vec2u r = segment(m, out, pr); CHECK(r.dims == m.dims); for (size_t i = 0; i < w.size(); ++i) CHECK(r[i] == w[i], "segment of pixel ", i, " is ", r[i], " expected ", w[i]); CHECK(out.id.size() == l.size() && out.area.size() == l.size() && out.px.size() == l.size() && out.py.size() == l.size() && out.origin.size() == l.size(), "number of segments ", out.id.size(), " expected ", l.size()); for (size_t i = 0; i < l.size(); ++i) { CHECK(out.id[i] == l[i].id && out.origin[i] == l[i].o, "identity of segment ", i); CHECK(out.area[i] == l[i].area, "area of segment ", i, " is ", out.area[i], " expected ", l[i].area); CHECK(vp::near(out.px[i], l[i].px, 1e-10, 1e-10) && vp::near(out.py[i], l[i].py, 1e-10, 1e-10), "center of segment ", i, ": ", out.px[i], ",", out.py[i], " expected ", l[i].px, ",", l[i].py); }
    if (pr.min_area == 0 && pr.first_id == 1) { vec2u r2 = segment(m); CHECK(r2.dims == r.dims && r2.data == r.data, "segmentation map alone"); } size_t calls = 0; foreach_segment(r, out.origin, [&](uint_t s, vec1u ids) { CHECK(s == calls++, "order of the segments"); std::set<size_t> q; for (auto i : ids) q.insert(i); CHECK(ids.size() == q.size() && q.size() == l[s].area, "foreach_segment: ", ids.size(), " pixels expected ", l[s].area); for (auto i : q) CHECK(w[i] == l[s].id, "pixel of another segment"); }); CHECK(calls == l.size(), "foreach_segment"); segment_params z; z.first_id = 0; CHECK(errors([&] { segment_output o2; segment(m, o2, z); }), "first ID is zero"); if (l.size() > 1) t.nontrivial();
}
SUB("segment", 4) { seg<uint_t>(t); }
SUB("segment bool", 1) { seg<bool>(t); }
SUB("deblend", 4) {
    size_t a = size_t(t.range(1, 8)), b = size_t(t.range(1, 8)), n = a*b; vec2d img(a, b); V<size_t> pm(n); for (size_t i = 0; i < n; ++i) pm[i] = i; for (size_t i = n; i > 1; --i) std::swap(pm[i-1], pm[t.draw(i)]); bool blob = t.coin(); if (blob) { double c[3][3]; for (auto& k : c) { k[0] = double(a)*t.unit(); k[1] = double(b)*t.unit(); k[2] = 2 + 8*t.unit(); } for (size_t i = 0; i < n; ++i) { double s = 1e-6*double(pm[i]); for (auto& k : c) s += k[2]*std::exp(-(std::pow(double(i/b) - k[0], 2) + std::pow(double(i % b) - k[1], 2))/2); img[i] = s; } } else for (size_t i = 0; i < n; ++i) img[i] = 0.25*double(pm[i]); V<bool> fin(n, true); if (t.chance(1, 4)) for (size_t i = 0; i < n; ++i) if (t.chance(1, 6)) { img[i] = dnan; fin[i] = false; }
    segment_deblend_params pr; pr.detect_threshold = 0.5 + 4*t.unit(); pr.deblend_threshold = double(t.range(1, 6)); pr.min_area = t.coin() ? 0 : t.draw(5); pr.first_id = t.coin() ? 1 : 1 + t.draw(9); pr.centroid_flim = t.coin() ? 0.0 : t.unit(); t.note(int(a), "x", int(b), " ", vp::tov(img)); t.note(pr.detect_threshold, " ", pr.deblend_threshold, " ", int(pr.min_area), " ", int(pr.first_id), " ", pr.centroid_flim); segment_deblend_output o; vec2u s = segment_deblend(img, o, pr); CHECK(s.dims == img.dims); size_t k = o.id.size(); CHECK(o.area.size() == k && o.bx.size() == k && o.by.size() == k && o.px.size() == k && o.py.size() == k && o.origin.size() == k && o.flux.size() == k, "sizes of the output"); std::map<size_t, size_t> idx; for (size_t i = 0; i < k; ++i) { CHECK(!idx.count(o.id[i]) && o.id[i] >= pr.first_id, "ID ", o.id[i]); if (pr.min_area == 0) CHECK(o.id[i] == pr.first_id + i, "IDs are not consecutive"); idx[o.id[i]] = i; } for (size_t i = 0; i < n; ++i) if (s[i]) { CHECK(idx.count(s[i]), "pixel in unlisted segment ", s[i]); CHECK(fin[i] && img[i] >= pr.detect_threshold, "pixel ", i, " is below the threshold"); }
    for (size_t j = 0; j < k; ++j) { size_t og = o.origin[j]; CHECK(og < n && s[og] == o.id[j], "origin of segment ", j, " is not in it"); CHECK(size_t(o.py[j]) == og/b && size_t(o.px[j]) == og % b, "peak position of segment ", j); auto c = comp(a, b, og, [&](size_t z) { return s[z] == o.id[j]; }); size_t cnt = 0; double f = 0, x = 0, y = 0, fc = 0, top = -1; for (size_t i = 0; i < n; ++i) if (s[i] == o.id[j]) { ++cnt; f += img[i]; top = std::max(top, img[i]); if (img[i] >= pr.centroid_flim*img[og]) { x += double(i % b)*img[i]; y += double(i/b)*img[i]; fc += img[i]; } } CHECK(c.size() == cnt, "segment ", j, " is not contiguous"); CHECK(o.area[j] == cnt, "area of segment ", j, " is ", o.area[j], " expected ", cnt); CHECK(cnt >= pr.min_area, "segment ", j, " too small"); CHECK(vp::near(o.flux[j], f, 1e-5), "flux of segment ", j, " is ", o.flux[j], " expected ", f); CHECK(vp::near(o.bx[j], x/fc, 1e-4, 1e-5) && vp::near(o.by[j], y/fc, 1e-4, 1e-5), "barycenter of segment ", j, " is ", o.bx[j], ",", o.by[j], " expected ", x/fc, ",", y/fc); if (pr.min_area == 0) CHECK(top == img[og], "origin of segment ", j, " is not its peak"); }
    size_t best = n; for (size_t i = 0; i < n; ++i) if (fin[i] && (best == n || img[i] > img[best])) best = i; if (best < n && img[best] >= pr.detect_threshold) { if (pr.min_area == 0) CHECK(k > 0 && o.origin[0] == best, "the brightest pixel is not the peak of the first segment"); } else CHECK(k == 0, "segment without detected pixel"); if (pr.min_area == 0) { for (size_t i = 0; i < n; ++i) if (s[i]) { LL x = LL(i/b), y = LL(i % b); size_t og = o.origin[idx[s[i]]]; (void)x; (void)y; (void)og; } } if (k > 1) t.nontrivial();
}
SUB("distance", 2) {
    G g = gen(t, 3); vec2u m(g.a, g.b); for (size_t i = 0; i < m.size(); ++i) m[i] = uint_t(g.p[i]); vec2d d; vec2u im; segment_distance(m, d, im); CHECK(d.dims == m.dims && im.dims == m.dims); bool any = false; for (int x : g.p) if (x) any = true; for (LL x = 0; x < LL(g.a); ++x) for (LL y = 0; y < LL(g.b); ++y) { size_t p = size_t(x)*g.b + size_t(y); if (!any) { CHECK(m[p] == 0 && std::isinf(d[p]), "no segment"); continue; } double w = 1e30; for (LL i = 0; i < LL(g.a); ++i) for (LL j = 0; j < LL(g.b); ++j) if (g.at(i, j)) w = std::min(w, double((i - x)*(i - x) + (j - y)*(j - y))); CHECK(im[p] < m.size(), "no nearest pixel for ", x, ",", y); LL nx = LL(im[p]/g.b), ny = LL(im[p] % g.b); CHECK(g.p[im[p]] != 0 && m[p] == uint_t(g.p[im[p]]), "the nearest pixel of ", x, ",", y, " is not in segment ", m[p]); CHECK(d[p] == double((nx - x)*(nx - x) + (ny - y)*(ny - y)), "distance of ", x, ",", y, " is ", d[p]); CHECK(d[p] >= w && std::sqrt(d[p]) < std::sqrt(w) + 1 && (w > 1 || d[p] == w), "distance of ", x, ",", y, " is ", d[p], " but a segment is at ", w); if (g.p[p]) CHECK(m[p] == uint_t(g.p[p]), "segment changed"); if (w > 1 && w < 1e29) t.nontrivial(); }
}
KNOWN("K1", "segment_distance() is approximate: pixel (3,3) of a 4x8 map with segments at (0,4), (1,1) and (2,0) gets the squared distance 10 instead of 8") {
    vec2u m(4, 8), im; m(0,4) = 1; m(1,1) = 1; m(2,0) = 1; vec2d d; segment_distance(m, d, im); return d(3,3) == 8.0;
}
