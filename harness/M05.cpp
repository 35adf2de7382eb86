// M05: linear algebra: products, decompositions, inverses, solutions (with LAPACK; M06 is the same without).
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/math/base.hpp>
#include <vif/math/matrix.hpp>
using namespace vif; using namespace vif::matrix;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
typedef long double LD; typedef V<V<LD>> M;
static M mul(const M& a, const M& b) { size_t n = a.size(), k = b.size(), m = k ? b[0].size() : 0; M r(n, V<LD>(m, 0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) for (size_t q = 0; q < k; ++q) r[i][j] += a[i][q]*b[q][j]; return r; }
static M tr(const M& a) { size_t n = a.size(), m = n ? a[0].size() : 0; M r(m, V<LD>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) r[j][i] = a[i][j]; return r; }
static M id(size_t n) { M r(n, V<LD>(n, 0)); for (size_t i = 0; i < n; ++i) r[i][i] = 1; return r; }
static LD norm(const M& a) { LD s = 0; for (auto& r : a) for (auto x : r) s += x*x; return std::sqrt(s); }
template<class A> static M tom(const A& a) { M r(a.dims[0], V<LD>(a.dims[1])); for (size_t i = 0; i < a.dims[0]; ++i) for (size_t j = 0; j < a.dims[1]; ++j) r[i][j] = a.safe(i, j); return r; }
static mat2d fromm(const M& a, size_t c = 0) { mat2d r(a.size(), a.empty() ? c : a[0].size()); for (size_t i = 0; i < r.dims[0]; ++i) for (size_t j = 0; j < r.dims[1]; ++j) r.safe(i, j) = double(a[i][j]); return r; }
static bool inv(M a, M& r, LD& det) { size_t n = a.size(); r = id(n); det = 1; for (size_t k = 0; k < n; ++k) { size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i; if (a[p][k] == 0) { det = 0; return false; } if (p != k) { std::swap(a[p], a[k]); std::swap(r[p], r[k]); det = -det; } LD d = a[k][k]; det *= d; for (size_t j = 0; j < n; ++j) { a[k][j] /= d; r[k][j] /= d; } for (size_t i = 0; i < n; ++i) if (i != k) { LD f = a[i][k]; for (size_t j = 0; j < n; ++j) { a[i][j] -= f*a[k][j]; r[i][j] -= f*r[k][j]; } } } return true; }
static M gen(Tape& t, size_t n, size_t m) { M a(n, V<LD>(m)); bool nice = t.coin(); bool sparse = t.coin(); for (auto& r : a) for (auto& x : r) x = sparse && t.chance(1, 3) ? 0.0 : nice ? double(t.range(-9, 9)) : (t.unit() - 0.5)*10; return a; }
static void show_m(Tape& t, const M& a) { for (auto& r : a) { V<double> d(r.begin(), r.end()); t.note(d); } }
static void same(const M& a, const M& b, LD sc, const char* what) { CHECK(a.size() == b.size() && (a.empty() || a[0].size() == b[0].size()), what, ": dimensions"); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) CHECK(std::fabs(a[i][j] - b[i][j]) <= 1e-9L*(sc + std::fabs(b[i][j])), what, ": element ", i, ",", j, " is ", double(a[i][j]), " expected ", double(b[i][j])); }
static M col(const V<double>& v) { M r; for (auto x : v) r.push_back(V<LD>{LD(x)}); return r; }
SUB("products", 4) {
    size_t n = t.size(0, 5), m = t.size(0, 5), k = t.size(0, 5); M a = gen(t, n, m), b = gen(t, m, k), c = gen(t, n, m); if (n == 0 || m == 0 || k == 0) throw vp::Discard(); show_m(t, a); show_m(t, b); mat2d A = fromm(a), B = fromm(b), C = fromm(c); same(tom(A*B), mul(a, b), 100, "matrix product"); V<double> v(m), w(n); for (auto& x : v) x = double(t.range(-9, 9)); for (auto& x : w) x = double(t.range(-9, 9)); vec1d vv = vp::mk<double>(v), vw = vp::mk<double>(w); same(col(vp::tov(vec1d{A*vv})), mul(a, col(v)), 100, "matrix times vector"); same(col(vp::tov(vec1d{vw*A})), mul(tr(a), col(w)), 100, "vector times matrix"); double s = double(t.range(1, 9))/2; auto map = [](const M& x, const M& y, int op, LD q) { M r = x; for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x[i].size(); ++j) r[i][j] = op == 0 ? x[i][j] + y[i][j] : op == 1 ? x[i][j] - y[i][j] : op == 2 ? x[i][j]*q : op == 3 ? x[i][j]/q : op == 4 ? x[i][j] + q : op == 5 ? q - x[i][j] : x[i][j] - q; return r; };
    same(tom(A + C), map(a, c, 0, 0), 100, "sum"); same(tom(A - C), map(a, c, 1, 0), 100, "difference"); same(tom(A*s), map(a, c, 2, s), 100, "times scalar"); same(tom(s*A), map(a, c, 2, s), 100, "scalar times"); same(tom(A/s), map(a, c, 3, s), 100, "divided by scalar"); same(tom(A + s), map(a, c, 4, s), 100, "plus scalar"); same(tom(s + A), map(a, c, 4, s), 100, "scalar plus"); same(tom(s - A), map(a, c, 5, s), 100, "scalar minus"); same(tom(A - s), map(a, c, 6, s), 100, "minus scalar"); same(tom(-A), map(a, c, 2, -1), 100, "minus"); same(tom(matrix::transpose(A)), tr(a), 100, "transpose"); same(tom(A), a, 1, "operand changed");
    { mat2d x = A; x += C; same(tom(x), map(a, c, 0, 0), 100, "+="); x = A; x -= C; same(tom(x), map(a, c, 1, 0), 100, "-="); x = A; x *= s; same(tom(x), map(a, c, 2, s), 100, "*= scalar"); x = A; x /= s; same(tom(x), map(a, c, 3, s), 100, "/="); x = A; x += s; same(tom(x), map(a, c, 4, s), 100, "+= scalar"); x = A; x -= s; same(tom(x), map(a, c, 6, s), 100, "-= scalar"); x = A; x *= B; same(tom(x), mul(a, b), 100, "*= matrix"); }
    { vec2d q(n, m); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) q(i, j) = A(i, j); auto wr = as_matrix(q); same(tom(wr*B), mul(a, b), 100, "product of a wrapped vector"); const vec2d cq = q; same(tom(as_matrix(cq)*B), mul(a, b), 100, "product of a const wrapped vector"); same(tom(as_matrix(vec2d{q})*B), mul(a, b), 100, "product of a temporary"); wr = C; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) CHECK(q(i, j) == C(i, j), "assignment to a wrapped vector"); }
    if (n != m) { mat2d x = A; CHECK(errors([&] { diagonal(x); }) && errors([&] { inplace_symmetrize(x); }) && errors([&] { determinant(x); }) && errors([&] { mat2d r; matrix::invert(x, r); }) && errors([&] { vec1d r; matrix::solve(x, vv, r); }), "non square matrix accepted"); decompose_lu d; decompose_cholesky ch; CHECK(errors([&] { d.decompose(x); }) && errors([&] { ch.decompose(x); }), "decomposition of a non square matrix"); CHECK(errors([&] { A + fromm(tr(c)); }), "sum of different dimensions"); }
    mat2d bad(m + 1, 2); vec1d vb(m + 1), vn(n + 1); CHECK(errors([&] { A*bad; }) && errors([&] { vec1d r = A*vb; }) && errors([&] { vec1d r = vn*A; }), "incompatible dimensions"); if (n > 1 && m > 1) t.nontrivial();
}
SUB("build", 2) { size_t n = t.size(1, 5); M a = gen(t, n, n); show_m(t, a); mat2d A = fromm(a); vec1d d = diagonal(A); for (size_t i = 0; i < n; ++i) CHECK(d[i] == A(i, i), "diagonal"); vec1d e(n); for (auto& x : e.data) x = double(t.range(-9, 9)); mat2d B = A; diagonal(B) = e; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) CHECK(B(i, j) == (i == j ? e[i] : A(i, j)), "assignment to the diagonal"); B = as_diagonal(e); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) CHECK(B(i, j) == (i == j ? e[i] : 0.0), "as_diagonal"); same(tom(make_identity(n)), id(n), 1, "identity"); B = A; inplace_symmetrize(B); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) CHECK(B(i, j) == A(std::max(i, j), std::min(i, j)), "inplace_symmetrize"); vec1d dd = diagonal(A*A); M aa = mul(a, a); for (size_t i = 0; i < n; ++i) CHECK(std::fabs(dd[i] - double(aa[i][i])) < 1e-9, "diagonal of a temporary");
    double x = double(t.range(-9, 9)), y = double(t.range(-9, 9)), p = double(t.range(-9, 9))/2, q = double(t.range(-9, 9))/2, an = (t.unit() - 0.5)*7; vec1d v = {x, y, 1.0}; vec1d r = make_translation(p, q)*v; CHECK(std::fabs(r[0] - x - p) < 1e-12 && std::fabs(r[1] - y - q) < 1e-12 && r[2] == 1, "translation"); r = make_scale(p, q)*v; CHECK(std::fabs(r[0] - x*p) < 1e-12 && std::fabs(r[1] - y*q) < 1e-12 && r[2] == 1, "scale"); r = make_scale(p)*v; CHECK(std::fabs(r[0] - x*p) < 1e-12 && std::fabs(r[1] - y*p) < 1e-12 && r[2] == 1, "scale"); r = make_rotation(an)*v; CHECK(std::fabs(r[0] - (x*std::cos(an) - y*std::sin(an))) < 1e-12 && std::fabs(r[1] - (x*std::sin(an) + y*std::cos(an))) < 1e-12 && r[2] == 1, "rotation"); r = (make_rotation(an)*make_rotation(-an))*v; CHECK(std::fabs(r[0] - x) < 1e-12 && std::fabs(r[1] - y) < 1e-12, "rotation and back"); if (n > 1) t.nontrivial(); }
SUB("general", 5) { // inverse, solution, determinant
    size_t n = t.size(1, t.chance(1, 10) ? 12 : 5); M a = gen(t, n, n), ai; LD det; if (t.coin()) for (size_t i = 0; i < n; ++i) a[i][i] += 7; bool sing = t.chance(1, 8); if (sing) { size_t k = t.draw(n); bool row = t.coin(); for (size_t i = 0; i < n; ++i) (row ? a[k][i] : a[i][k]) = 0; } show_m(t, a); mat2d A = fromm(a), r; vec1d b(n), x; for (auto& q : b.data) q = double(t.range(-9, 9)); M bc = col(vp::tov(b)); decompose_lu lu;
    if (sing) { CHECK(!matrix::invert(A, r), "inverse of a singular matrix"); CHECK(!matrix::solve(A, b, x), "solution of a singular system"); CHECK(determinant(A) == 0, "determinant ", determinant(A), " of a singular matrix"); CHECK(!lu.decompose(A) && lu.bad, "LU decomposition of a singular matrix"); lu.decompose(make_identity(n)*2.0); CHECK(!lu.bad && lu.determinant() == std::pow(2.0, double(n)), "decomposition reused after a failure"); t.nontrivial(); return; }
    if (!inv(a, ai, det)) throw vp::Discard(); LD cond = norm(a)*norm(ai); if (cond > 1e4) throw vp::Discard(); LD sc = norm(ai) + 1; CHECK(matrix::invert(A, r), "invert failed"); same(tom(r), ai, sc*cond, "inverse"); same(tom(A), a, 1, "invert changed its argument"); { mat2d q = A; CHECK(inplace_invert(q), "inplace_invert failed"); same(tom(q), ai, sc*cond, "in place inverse"); } M xs = mul(ai, bc); CHECK(matrix::solve(A, b, x), "solve failed"); same(col(vp::tov(x)), xs, 10*sc*cond, "solution"); { mat2d q = A; vec1d y = b; CHECK(inplace_solve(q, y), "inplace_solve failed"); same(col(vp::tov(y)), xs, 10*sc*cond, "in place solution"); } double dt = determinant(A); LD hs = 1; for (auto& row : a) { LD s = 0; for (auto q : row) s += q*q; hs *= std::sqrt(s); } CHECK(std::fabs(LD(dt) - det) <= 1e-9L*(std::fabs(det) + hs), "determinant ", dt, " expected ", double(det));
    CHECK(lu.decompose(A) && !lu.bad && lu.size() == n, "LU decomposition failed"); same(col(vp::tov(lu.solve(b))), xs, 10*sc*cond, "LU solution"); same(tom(lu.invert()), ai, sc*cond, "LU inverse"); CHECK(std::fabs(LD(lu.determinant()) - det) <= 1e-9L*(std::fabs(det) + hs), "LU determinant"); vec1d z(n + 1); CHECK(errors([&] { lu.solve(z); }) && errors([&] { matrix::solve(A, z, x); }), "sizes"); { M dd = a; for (size_t i = 0; i < n; ++i) dd[i][i] = (dd[i][i] < 0 ? -1 : 1)*(40 + std::fabs(dd[i][i])); M di; LD ddet; inv(dd, di, ddet); decompose_lu np; np.no_pivot = true; CHECK(np.decompose(fromm(dd)), "LU without pivoting failed"); same(tom(np.invert()), di, norm(di) + 1, "inverse without pivoting"); same(col(vp::tov(np.solve(b))), mul(di, bc), 10, "solution without pivoting"); CHECK(std::fabs(LD(np.determinant()) - ddet) <= 1e-9L*std::fabs(ddet), "determinant without pivoting"); } if (n > 1) t.nontrivial();
}
SUB("symmetric", 5) {
    size_t n = t.size(1, t.chance(1, 10) ? 12 : 5); M b = gen(t, n, n), a = mul(b, tr(b)), ai; for (size_t i = 0; i < n; ++i) a[i][i] += 1; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) a[i][j] = a[j][i] = double(a[i][j]); LD det; if (!inv(a, ai, det)) throw vp::Discard(); LD cond = norm(a)*norm(ai); if (cond > 1e5) throw vp::Discard(); show_m(t, a); mat2d A = fromm(a), r; vec1d v(n), x; for (auto& q : v.data) q = double(t.range(-9, 9)); M vc = col(vp::tov(v)), xs = mul(ai, vc); LD sc = norm(ai) + 1;
    CHECK(invert_symmetric(A, r), "invert_symmetric failed"); inplace_symmetrize(r); same(tom(r), ai, sc*cond, "symmetric inverse"); CHECK(solve_symmetric(A, v, x), "solve_symmetric failed"); same(col(vp::tov(x)), xs, 10*sc*cond, "symmetric solution"); { mat2d q = A; CHECK(inplace_invert_symmetric(q)); inplace_symmetrize(q); same(tom(q), ai, sc*cond, "in place symmetric inverse"); q = A; vec1d y = v; CHECK(inplace_solve_symmetric(q, y)); same(col(vp::tov(y)), xs, 10*sc*cond, "in place symmetric solution"); } same(tom(A), a, 1, "argument changed");
    decompose_cholesky c; CHECK(c.decompose(A) && !c.bad && c.size() == n, "Cholesky decomposition failed"); M l = tom(c.l); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) CHECK(l[i][j] == 0, "not lower triangular"); same(mul(l, tr(l)), a, norm(a), "L*L^T"); same(col(vp::tov(c.solve(v))), xs, 10*sc*cond, "Cholesky solution"); same(tom(c.invert()), ai, sc*cond, "Cholesky inverse"); mat2d li = c.lower_inverse(); same(mul(tom(li), l), id(n), cond, "inverse of L"); same(mul(l, col(vp::tov(c.substitute_forward(v)))), vc, cond, "forward substitution"); same(mul(tr(l), col(vp::tov(c.substitute_backward(v)))), vc, cond, "backward substitution"); CHECK(std::fabs(LD(c.lower_determinant())*c.lower_determinant() - det) <= 1e-8L*std::fabs(det), "lower_determinant"); CHECK(std::fabs(2*LD(c.log_lower_determinant()) - std::log(det)) <= 1e-8L*(1 + std::fabs(std::log(det))), "log_lower_determinant"); { vec1d y = v; c.solve_inplace(y); same(col(vp::tov(y)), xs, 10*sc*cond, "solve_inplace"); } vec1d z(n + 1); CHECK(errors([&] { c.solve(z); }) && errors([&] { c.substitute_forward(z); }) && errors([&] { c.substitute_backward(z); }), "sizes"); { mat2d q = A; size_t k = t.draw(n); q(k, k) = -1 - double(t.draw(5)); decompose_cholesky f; CHECK(!f.decompose(q) && f.bad, "Cholesky decomposition of a matrix that is not positive definite"); CHECK(f.decompose(A) && !f.bad, "reuse after a failure"); same(mul(tom(f.l), tr(tom(f.l))), a, norm(a), "L*L^T after a failure"); }
#ifndef NO_LAPACK
    vec1d ev; mat2d vec; CHECK(eigen_symmetric(A, ev, vec), "eigen_symmetric failed"); CHECK(ev.size() == n); for (size_t k = 0; k < n; ++k) { M q(n, V<LD>(1)); LD nn = 0; for (size_t i = 0; i < n; ++i) { q[i][0] = vec(k, i); nn += q[i][0]*q[i][0]; } CHECK(std::fabs(nn - 1) < 1e-9, "eigenvector ", k, " is not normalised"); M aq = mul(a, q); for (auto& z2 : q) z2[0] *= ev[k]; same(aq, q, norm(a), "eigenvector"); if (k) CHECK(ev[k] >= ev[k-1], "order of the eigenvalues"); } LD tra = 0; for (size_t i = 0; i < n; ++i) tra += a[i][i]; LD se = 0; for (auto q : ev.data) se += q; CHECK(std::fabs(se - tra) <= 1e-9L*(tra + 1), "sum of the eigenvalues");
    decompose_svd sv; M g = gen(t, n, n); mat2d G = fromm(g); CHECK(sv.decompose(G) && !sv.bad, "SVD failed"); CHECK(sv.s.size() == n); M sd(n, V<LD>(n, 0)); for (size_t i = 0; i < n; ++i) { CHECK(sv.s[i] >= 0 && (i == 0 || sv.s[i] <= sv.s[i-1]), "singular values"); sd[i][i] = sv.s[i]; } same(mul(mul(tom(sv.u), sd), tom(sv.vt)), g, norm(g) + 1, "U*S*V^T"); same(mul(tom(sv.u), tr(tom(sv.u))), id(n), 1, "U is not orthogonal"); same(mul(tom(sv.vt), tr(tom(sv.vt))), id(n), 1, "V is not orthogonal");
#endif
    if (n > 1) t.nontrivial();
}
