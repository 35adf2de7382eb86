// M10: convex hulls.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
#include <vif/math/convex_hull.hpp>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
typedef long long LL; typedef std::pair<LL,LL> P;
static LL cr(P a, P b, P c) { return (b.first - a.first)*(c.second - a.second) - (b.second - a.second)*(c.first - a.first); }
static V<P> points(Tape& t, size_t lo) { size_t n = t.size(lo, 14); LL w = t.coin() ? 3 : 50; V<P> r; for (size_t i = 0; i < n; ++i) r.push_back({t.range(-w, w), t.range(-w, w)}); return r; }
static bool flat(const V<P>& p) { for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) for (size_t k = 0; k < p.size(); ++k) if (cr(p[i], p[j], p[k]) != 0) return false; return true; }
static double SC = 1; // the coordinates given to the library are multiples of this power of two
static void scale(Tape& t) { SC = t.pick({1.0, 1.0, 1.0/16, 1.0/1024, 512.0}); t.note(SC); }
template<class T> static vec<1,T> xs(const V<P>& p, bool y) { vec<1,T> r(p.size()); for (size_t i = 0; i < p.size(); ++i) r[i] = T(SC*double(y ? p[i].second : p[i].first)); return r; }
// inside, border included: in some triangle of the points
static bool inside(const V<P>& p, P q) { for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) if (p[i] != p[j]) { bool one = true, on = false; for (auto& k : p) { if (cr(p[i], p[j], k) < 0) one = false; if (cr(p[i], p[j], k) > 0) on = true; } if (one && on && cr(p[i], p[j], q) < 0) return false; } return true; }
static double segd(P a, P b, P q) { double dx = double(b.first - a.first), dy = double(b.second - a.second), l = dx*dx + dy*dy, px = double(q.first - a.first), py = double(q.second - a.second), w = l > 0 ? (px*dx + py*dy)/l : 0; w = std::min(1.0, std::max(0.0, w)); return std::hypot(px - w*dx, py - w*dy); }
template<class T> static void queries(Tape& t, const V<P>& p, const convex_hull<T>& h, const V<P>& loop, double tol) {
    V<P> qs = points(t, 1); for (auto& a : p) if (t.coin()) qs.push_back(a); t.note(qs.size()); vec<1,T> qx = xs<T>(qs, false), qy = xs<T>(qs, true); vec1b in = in_convex_hull(qx, qy, h); vec<1,T> ds = convex_hull_distance(qx, qy, h); CHECK(in.size() == qs.size() && ds.size() == qs.size()); for (size_t i = 0; i < qs.size(); ++i) { bool w = inside(p, qs[i]); CHECK(in[i] == w, "point ", qs[i].first, ",", qs[i].second, w ? " is inside of the hull" : " is outside of the hull"); CHECK(in_convex_hull(qx[i], qy[i], h) == w, "point alone"); double d = 1e300; for (size_t k = 0; k + 1 < loop.size(); ++k) d = std::min(d, segd(loop[k], loop[k+1], qs[i])); if (!w) d = -d; CHECK(std::fabs(double(ds[i])/SC - d) <= tol, "distance ", double(ds[i])/SC, " expected ", d); CHECK(std::fabs(double(convex_hull_distance(qx[i], qy[i], h))/SC - d) <= tol, "distance of one point"); }
    if (qs.size() % 2 == 0) { vec<2,T> a(2, qs.size()/2), b(2, qs.size()/2); a.data = qx.data; b.data = qy.data; auto r = in_convex_hull(a, b, h); CHECK(r.dims == a.dims && r.data == in.data, "2D points"); } vec<1,T> bad(qs.size() + 1); CHECK(errors([&] { in_convex_hull(qx, bad, h); }) && errors([&] { convex_hull_distance(qx, bad, h); }), "incompatible dimensions");
}
template<class T> static void build(Tape& t, double tol) {
    scale(t);
    V<P> p = points(t, 3); for (auto& a : p) t.note(int(a.first), " ", int(a.second)); if (flat(p)) throw vp::Discard(); vec<1,T> x = xs<T>(p, false), y = xs<T>(p, true), bad(p.size() + 1); auto h = build_convex_hull(x, y); CHECK(errors([&] { build_convex_hull(x, bad); }), "incompatible dimensions"); size_t n = h.size(); CHECK(n >= 4 && h.closed && h.x[0] == h.x[n-1] && h.y[0] == h.y[n-1], "the hull is not closed"); V<P> l; for (size_t i = 0; i < n; ++i) { P q{LL(h.x[i]/SC), LL(h.y[i]/SC)}; l.push_back(q); CHECK(std::find(p.begin(), p.end(), q) != p.end(), "vertex that is not a point"); }
    LL area = 0; for (size_t i = 0; i + 1 < n; ++i) { P a = l[i], b = l[i+1], c = i + 2 < n ? l[i+2] : l[1]; CHECK(cr(a, b, c) > 0, "not strictly convex in counter-clockwise order at vertex ", i); for (auto& q : p) CHECK(cr(a, b, q) >= 0, "point outside of the hull"); area += a.first*b.second - a.second*b.first; } CHECK(area > 0); for (size_t i = 0; i + 1 < n; ++i) for (size_t j = 0; j < i; ++j) CHECK(l[i] != l[j], "repeated vertex"); queries<T>(t, p, h, l, tol); if (n > 4) t.nontrivial();
}
SUB("build", 4) { build<double>(t, 1e-9); }
SUB("float", 1) { build<float>(t, 1e-3); }
SUB("vertices", 3) { // hull from its vertices, in either order, starting anywhere, with aligned vertices
    scale(t);
    V<P> p = points(t, 3); if (flat(p)) throw vp::Discard(); auto h0 = build_convex_hull(xs<double>(p, false), xs<double>(p, true)); V<P> l, m; for (size_t i = 0; i + 1 < h0.size(); ++i) l.push_back({2*LL(h0.x[i]/SC), 2*LL(h0.y[i]/SC)}); for (size_t i = 0; i < l.size(); ++i) { m.push_back(l[i]); P b = l[(i+1) % l.size()]; if (t.chance(1, 3)) m.push_back({(l[i].first + b.first)/2, (l[i].second + b.second)/2}); } size_t k = t.draw(m.size()); std::rotate(m.begin(), m.begin() + k, m.end()); if (t.coin()) std::reverse(m.begin(), m.end()); m.push_back(m[0]); for (auto& a : m) t.note(int(a.first), " ", int(a.second)); convex_hull<double> h(xs<double>(m, false), xs<double>(m, true)); CHECK(h.closed && h.size() == m.size(), "closed"); queries<double>(t, m, h, m, 1e-9);
    { // change of the vertices
        LL dx = t.range(-20, 20), dy = t.range(-20, 20); for (size_t i = 0; i < m.size(); ++i) { m[i].first += dx; m[i].second += dy; h.x[i] += SC*double(dx); h.y[i] += SC*double(dy); } h.mark_as_dirty(); queries<double>(t, m, h, m, 1e-9); }
    V<P> o(m.begin(), m.end() - 1); convex_hull<double> op(xs<double>(o, false), xs<double>(o, true)); CHECK(!op.closed && errors([&] { in_convex_hull(0.0, 0.0, op); }) && errors([&] { convex_hull_distance(0.0, 0.0, op); }), "open hull accepted"); CHECK(errors([&] { convex_hull<double> z(vec1d{0.0, 1.0}, vec1d{0.0, 1.0}); }) && errors([&] { convex_hull<double> z(vec1d{0.0, 1.0, 2.0}, vec1d{0.0, 1.0}); }), "too few vertices"); if (m.size() > 4) t.nontrivial();
}
SUB("degenerate", 1) { SC = 1; V<P> p = points(t, 0); p.resize(std::min<size_t>(p.size(), 2)); auto h = build_convex_hull(xs<double>(p, false), xs<double>(p, true)); for (size_t i = 0; i < h.size(); ++i) CHECK(std::find(p.begin(), p.end(), P{LL(h.x[i]), LL(h.y[i])}) != p.end(), "vertex that is not a point"); for (auto& q : p) { bool f = false; for (size_t i = 0; i < h.size(); ++i) f = f || (h.x[i] == q.first && h.y[i] == q.second); CHECK(f, "point missing"); } if (p.size() == 2) t.nontrivial(); }
