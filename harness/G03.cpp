// G03: index arithmetic and generated sequences: flat and multidimensional indices are inverse of each
// other, index lists enumerate every combination once, and generated sequences hit their documented values.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
using namespace vif;
using vp::Tape;
template<size_t D> void ids(Tape& t) {
    std::array<size_t,D> d; for (auto& q : d) q = t.size(1, 5); size_t n = vp::prod(d); vec<D,int> v(d); for (size_t i = 0; i < n; ++i) v.data[i] = int(i); t.note("dims ", vp::show(d));
    vec1u all; for (size_t i = 0; i < n; ++i) { vec1u m = mult_ids(d, i); CHECK(m.size() == D && m.dims[0] == D); size_t f = 0; for (size_t k = 0; k < D; ++k) { CHECK(m[k] < d[k], "mult_ids out of the dimensions"); f = f*d[k] + m[k]; } CHECK(f == i, "mult_ids(", d, ",", i, ") = ", vp::tov(m)); CHECK(vp::tov(mult_ids(v, i)) == vp::tov(m)); all.push_back(i); t.evals(1); }
    for (size_t k = n; k > 1; --k) std::swap(all.data[k-1], all.data[t.draw(k)]); vec2u mm = mult_ids(d, all); CHECK(mm.dims[0] == D && mm.dims[1] == n); for (size_t j = 0; j < n; ++j) { size_t f = 0; for (size_t k = 0; k < D; ++k) f = f*d[k] + mm(k, j); CHECK(f == all[j], "vectorised mult_ids"); }
    if (n > 2) t.nontrivial();
}
SUB("mult-ids", 2) { switch (t.draw(3)) { case 0: ids<1>(t); break; case 1: ids<2>(t); break; default: ids<3>(t); } }
SUB("flat-id", 2) {
    std::array<size_t,3> d{{t.size(1, 5), t.size(1, 5), t.size(1, 5)}}; vec<3,int> v(d); for (size_t i = 0; i < v.size(); ++i) v.data[i] = int(i); uint_t i = t.draw(d[0] + 1), j = t.draw(d[1] + 1), k = t.draw(d[2] + 1); bool ok = i < d[0] && j < d[1] && k < d[2]; uint_t r = 0; t.note(vp::show(d), " ", i, " ", j, " ", k);
    bool err = vp::errors([&] { r = flat_id(d, i, j, k); }); CHECK(err == !ok, "flat_id bounds"); if (ok) { CHECK(r == (i*d[1] + j)*d[2] + k, "flat_id"); CHECK(flat_id(v, i, j, k) == r); CHECK(v[r] == v(i, j, k)); CHECK(vp::tov(mult_ids(d, r)) == std::vector<uint_t>({i, j, k}), "mult_ids(flat_id)"); t.nontrivial(); }
    int_t ni = t.range(-int64_t(d[0]), -1); uint_t r2 = flat_id(d, ni, uint_t(0), uint_t(0)); CHECK(r2 == (ni + d[0])*d[1]*d[2], "negative index in flat_id");
}
SUB("index-list", 2) {
    size_t D = 1 + t.draw(4); std::vector<uint_t> n(D); size_t tot = 1; for (auto& q : n) { q = 1 + t.draw(4); tot *= q; } bool uni = t.coin(); if (uni) { tot = 1; for (auto& q : n) { q = n[0]; tot *= q; } } vec1u id(D), vn = vp::mk<uint_t>(n); t.note(vp::show(n), uni ? " scalar" : "");
    for (size_t f = 0; f <= tot; ++f) { size_t g = f%tot; std::vector<uint_t> w(D); for (size_t k = D; k-- > 0; ) { w[k] = g%n[k]; g /= n[k]; } CHECK(vp::tov(id) == w, "step ", f, ": ", vp::tov(id), " expected ", w); if (uni) increment_index_list(id, n[0]); else increment_index_list(id, vn); t.evals(1); }
    if (D > 1) t.nontrivial();
}
SUB("sequences", 3) {
    size_t a = t.size(0, 6), b = t.size(0, 4); auto v = indgen(a); auto w = indgen<uint_t>(a, b); CHECK(v.size() == a && v.dims[0] == a); for (size_t i = 0; i < a; ++i) CHECK(v[i] == double(i)); CHECK(w.dims[0] == a && w.dims[1] == b); for (size_t i = 0; i < a*b; ++i) CHECK(w[i] == i, "indgen"); vp::valid(w, "indgen");
    double lo = t.range(-50, 50)/4.0, hi = t.range(-50, 50)/4.0; size_t n = t.size(1, 40); auto r = rgen(lo, hi, n); t.note("rgen ", lo, " ", hi, " ", n); CHECK(r.size() == n && r.dims[0] == n); for (size_t i = 0; i < n; ++i) CHECK(vp::near(r[i], n == 1 ? lo : lo + (hi - lo)*i/double(n - 1), 1e-12, 1e-12), "rgen element ", i, " is ", r[i]);
    int il = t.range(-20, 20), ih = t.range(-20, 20); auto ri = rgen(il, ih, n); for (size_t i = 0; i < n; ++i) CHECK(vp::near(ri[i], n == 1 ? il : il + double(ih - il)*i/double(n - 1), 1e-12, 1e-12), "rgen of integers");
    double pl = std::exp((t.unit() - 0.5)*20), ph = std::exp((t.unit() - 0.5)*20); auto rl = rgen_log(pl, ph, n); CHECK(rl.size() == n); for (size_t i = 0; i < n; ++i) CHECK(vp::near(rl[i], n == 1 ? pl : pl*std::pow(ph/pl, i/double(n - 1)), 1e-9), "rgen_log element ", i); CHECK(vp::errors([&] { rgen_log(-pl, ph, n); })); CHECK(vp::errors([&] { rgen_log(pl, 0.0, n); }));
    if (n > 1) t.nontrivial();
}
SUB("rgen-step", 2) { // contains both ends, is monotonic, constant step except the last interval
    double a = t.range(-40, 40)/4.0, b = t.range(-40, 40)/4.0, s = (1 + t.draw(30))/8.0; t.note("rgen_step ", a, " ", b, " ", s); auto r = rgen_step(a, b, s); CHECK(r.size() >= 1 && r.dims[0] == r.size()); CHECK(r.front() == a, "starts at ", r.front()); CHECK(r.back() == b, "ends at ", r.back()); if (a == b) CHECK(r.size() == 1, "degenerate range has ", r.size());
    double sg = a < b ? 1 : -1; for (size_t i = 1; i < r.size(); ++i) CHECK((r[i] - r[i-1])*sg > 0, "not strictly monotonic at ", i); for (size_t i = 1; i + 1 < r.size(); ++i) CHECK(vp::near(r[i], a + sg*s*i, 1e-12, 1e-12), "step at ", i); if (r.size() > 2) { double last = std::fabs(r.back() - r[r.size()-2]); CHECK(last >= 0.5*s*(1 - 1e-9) && last <= 1.5*s*(1 + 1e-9), "last interval ", last, " for step ", s); }
    CHECK(vp::errors([&] { rgen_step(a, b, 0.0); })); CHECK(vp::errors([&] { rgen_step(a, b, -s); })); if (r.size() > 2) t.nontrivial();
}
