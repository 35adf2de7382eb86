// M11: random numbers.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
#include <vif/math/random.hpp>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
// counts of the N draws compatible with the expected probabilities (12 sigma, Poisson tail)
static void uniform(const V<size_t>& c, const V<double>& p, size_t n, const char* what) { for (size_t i = 0; i < c.size(); ++i) { double e = p[i]*double(n); CHECK(std::fabs(double(c[i]) - e) <= 8*std::sqrt(e) + 15, what, ": ", c[i], " of ", n, " draws in class ", i, ", expected ", e); if (p[i] == 0) CHECK(c[i] == 0, what, ": impossible value"); } }
SUB("integers", 4) {
    auto seed = make_seed(unsigned(t.draw(1u << 30))); int mi = int(t.range(-6, 6)), ma = mi + int(t.draw(7)); t.note(mi); t.note(ma); size_t n = 3000, k = size_t(ma - mi) + 1; V<size_t> c(k), d(k); vec1i v = randomi(seed, mi, ma, n); CHECK(v.size() == n); for (int x : v.data) { CHECK(x >= mi && x <= ma, "value ", x, " outside of the range"); ++c[size_t(x - mi)]; } V<double> p(k, 1.0/double(k)); uniform(c, p, n, "randomi (vector)"); for (size_t i = 0; i < n; ++i) { int x = randomi(seed, mi, ma); CHECK(x >= mi && x <= ma, "value ", x, " outside of the range"); ++d[size_t(x - mi)]; } uniform(d, p, n, "randomi (scalar)"); auto w = randomi(seed, mi, ma, 2, 3); CHECK(w.dims[0] == 2 && w.dims[1] == 3, "dimensions"); if (k > 1) t.nontrivial();
}
SUB("reals", 2) {
    unsigned s0 = unsigned(t.draw(1u << 30)); t.note(s0); auto seed = make_seed(s0); size_t n = 2000, nb = 10; vec1d u = randomu(seed, n); V<size_t> c(nb); for (double x : u.data) { CHECK(x >= 0 && x < 1, "randomu gave ", x); ++c[size_t(x*double(nb))]; } uniform(c, V<double>(nb, 0.1), n, "randomu"); vec1d g = randomn(seed, n); double s = 0, s2 = 0; size_t in = 0; for (double x : g.data) { CHECK(std::fabs(x) < 9, "randomn gave ", x); s += x; s2 += x*x; if (std::fabs(x) < 1) ++in; } CHECK(std::fabs(s/double(n)) < 8/std::sqrt(double(n)) && std::fabs(s2/double(n) - 1) < 8*std::sqrt(2.0/double(n)), "moments of randomn"); uniform({in, n - in}, {0.6827, 0.3173}, n, "randomn"); auto m = randomn(seed, 2, 3, 4); CHECK(m.dims[0] == 2 && m.dims[1] == 3 && m.dims[2] == 4); auto m2 = randomu(seed, 3, 2); CHECK(m2.dims[0] == 3 && m2.dims[1] == 2); for (int k = 0; k < 50; ++k) { double x = randomu(seed); CHECK(x >= 0 && x < 1); CHECK(std::fabs(randomn(seed)) < 9); }
    auto a = make_seed(s0), b = make_seed(s0); vec1d ra = randomu(a, 20), rb = randomu(b, 20); CHECK(ra.data == rb.data, "same seed, different numbers"); vec1d ga = randomn(a, 21), gb = randomn(b, 21); CHECK(ga.data == gb.data, "same seed, different gaussian numbers"); t.nontrivial();
}
SUB("pdf", 3) {
    auto seed = make_seed(unsigned(t.draw(1u << 30))); size_t k = 2 + t.draw(6), n = 2000; V<double> x, y; double p = double(t.range(-5, 5)); for (size_t i = 0; i < k; ++i) { x.push_back(p); p += double(1 + t.draw(3)); y.push_back(double(t.draw(4))); } double tot = 0; V<double> seg; for (size_t i = 0; i + 1 < k; ++i) { seg.push_back(0.5*(y[i] + y[i+1])*(x[i+1] - x[i])); tot += seg[i]; } if (tot == 0) throw vp::Discard(); for (auto& s : seg) s /= tot; t.note(x); t.note(y); vec1d vx = vp::mk<double>(x), vy = vp::mk<double>(y), r = random_pdf(seed, vx, vy, n); V<size_t> c(k - 1); auto put = [&](double v) { CHECK(v >= x[0] && v <= x[k-1], "value ", v, " outside of the pdf"); size_t i = 0; while (i + 2 < k && v >= x[i+1]) ++i; ++c[i]; }; for (double v : r.data) put(v); uniform(c, seg, n, "random_pdf"); c.assign(k - 1, 0); for (size_t i = 0; i < 500; ++i) put(random_pdf(seed, vx, vy)); uniform(c, seg, 500, "random_pdf (scalar)");
    double ty = 0; for (auto v : y) ty += v; V<double> w; for (auto v : y) w.push_back(v/ty); V<size_t> e(k); vec1u q = random_pdf_discrete(seed, vy, n); for (auto i : q.data) { CHECK(i < k, "index"); ++e[i]; } uniform(e, w, n, "random_pdf_discrete"); e.assign(k, 0); for (size_t i = 0; i < 500; ++i) { size_t z = random_pdf_discrete(seed, vy); CHECK(z < k); ++e[z]; } uniform(e, w, 500, "random_pdf_discrete (scalar)");
    double pr = double(t.draw(11))/10; vec1b co = random_coin(seed, pr, n); size_t h = 0; for (size_t i = 0; i < n; ++i) h += co[i]; if (pr == 0 || pr == 1) CHECK(h == size_t(pr*double(n)), "random_coin with probability ", pr); uniform({h, n - h}, {pr, 1 - pr}, n, "random_coin"); vec1d pv(n); for (size_t i = 0; i < n; ++i) pv[i] = i % 2 ? pr : double(i % 4 == 0); vec1b cv = random_coin(seed, pv); h = 0; for (size_t i = 0; i < n; ++i) { if (i % 2) h += cv[i]; else CHECK(cv[i] == (i % 4 == 0), "random_coin with probability 0 or 1"); } uniform({h, n/2 - h}, {pr, 1 - pr}, n/2, "random_coin (vector)"); h = 0; for (size_t i = 0; i < n; ++i) h += random_coin(seed, pr); uniform({h, n - h}, {pr, 1 - pr}, n, "random_coin (scalar)"); t.nontrivial();
}
SUB("shuffle", 3) {
    auto seed = make_seed(unsigned(t.draw(1u << 30))); size_t n = t.size(0, 10); V<int> v = vp::ints<int>(t, n, -9, 9); t.note(v); vec1i x = vp::mk<int>(v), x0 = x, y = shuffle(seed, x); CHECK(x.data == x0.data, "shuffle changed its argument"); vp::valid(y, "shuffle"); CHECK(y.size() == n); auto a = x.data, b = y.data; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "shuffle lost or added values"); inplace_shuffle(seed, x); b = x.data; std::sort(b.begin(), b.end()); CHECK(a == b, "inplace_shuffle lost or added values"); { vec2i m(2, n), m0; for (size_t i = 0; i < 2*n; ++i) m.data[i] = int(i); m0 = m; auto s = shuffle(seed, m); CHECK(s.dims == m0.dims, "dimensions"); auto q = s.data; std::sort(q.begin(), q.end()); CHECK(q == m0.data, "shuffle of 2D data"); }
    if (n > 1) { size_t k = 3; V<size_t> c(k); for (int i = 0; i < 600; ++i) { vec1u z = shuffle(seed, indgen<size_t>(k)); ++c[z[0]]; } uniform(c, V<double>(k, 1.0/double(k)), 600, "shuffle"); t.nontrivial(); }
}
SUB("permutations", 1) { // all the permutations are equally likely
    auto seed = make_seed(unsigned(t.draw(1u << 30))); size_t n = 60000; bool inpl = t.coin(); V<size_t> c(6); vec1u z(3); for (size_t i = 0; i < n; ++i) { z[0] = 0; z[1] = 1; z[2] = 2; if (inpl) inplace_shuffle(seed, z); else z = shuffle(seed, z); ++c[z[0]*2 + (z[1] > z[2])]; } uniform(c, V<double>(6, 1.0/6), n, "shuffle"); t.nontrivial();
}
SUB("precise", 1) { // enough draws to notice small deviations
    auto seed = make_seed(unsigned(t.draw(1u << 30))); size_t n = 100000, k = 2 + t.draw(19); t.note(int(k)); V<size_t> c(k), d(k); auto put = [&](V<size_t>& q, double x) { CHECK(x >= 0 && x < 1, "randomu gave ", x); ++q[size_t(x*double(k))]; }; V<double> p(k, 1.0/double(k)); vec1d u = randomu(seed, n); for (double x : u.data) put(c, x); uniform(c, p, n, "randomu"); for (size_t i = 0; i < n; ++i) put(d, randomu(seed)); uniform(d, p, n, "randomu (scalar)");
    double prev = 0; V<double> pg; V<double> e = {-2, -1, -0.5, 0, 0.5, 1, 2}; for (double x : e) { double q = 0.5*std::erfc(-x/std::sqrt(2.0)); pg.push_back(q - prev); prev = q; } pg.push_back(1 - prev); V<size_t> g(8), h(8); auto cl = [&](double x) { size_t i = 0; while (i < 7 && x >= e[i]) ++i; return i; }; vec1d r = randomn(seed, n); for (double x : r.data) ++g[cl(x)]; uniform(g, pg, n, "randomn"); for (size_t i = 0; i < n; ++i) ++h[cl(randomn(seed))]; uniform(h, pg, n, "randomn (scalar)"); vec1i v = randomi(seed, 0, int(k) - 1, n); c.assign(k, 0); for (int x : v.data) { CHECK(x >= 0 && x < int(k), "randomi"); ++c[size_t(x)]; } uniform(c, p, n, "randomi"); c.assign(k, 0); for (size_t i = 0; i < n; ++i) ++c[size_t(randomi(seed, 0, int(k) - 1))]; uniform(c, p, n, "randomi (scalar)"); t.nontrivial();
}
