// V01: whatever sequence of shape-changing operations is applied to a vector, its dimensions
// describe its storage exactly and its content is the one of a plain reference model.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
using namespace vif;
using vp::Tape;

template<size_t D, class T> struct Model {
    std::array<size_t,D> d; std::vector<T> v; bool known = true; // known: content specified
    Model() { d.fill(0); }
};
static int gen_val(Tape& t, int*) { return int(t.range(-50, 50)); }
static std::string gen_val(Tape& t, std::string*) { return std::string(t.draw(4), char('a' + t.draw(6))); }
static double gen_val(Tape& t, double*) { return double(t.range(-99, 99))/4; }
static char gen_val(Tape& t, bool*) { return t.coin(); }
template<class T> using val_t = typename vp::plain<T>::type;

template<size_t D, class T> void agree(const vec<D,T>& v, const Model<D,val_t<T>>& m, const char* op) {
    vp::valid(v, op);
    CHECK(std::vector<size_t>(v.dims.begin(), v.dims.end()) == std::vector<size_t>(m.d.begin(), m.d.end()), op, ": dims ", vp::dimsv(v), " expected ", m.d);
    if (!m.known) return;
    size_t n = 0;
    for (auto& x : v) { CHECK(x == m.v[n], op, ": element ", n, " of ", std::vector<val_t<T>>(v.data), " expected ", m.v); ++n; }
    CHECK(n == m.v.size(), op);
}
template<size_t D, class T> vec<D,T> fresh(Tape& t, std::array<size_t,D> d, Model<D,val_t<T>>& m) {
    m.d = d; m.v.resize(vp::prod(d)); m.known = true;
    for (auto&& x : m.v) x = gen_val(t, (T*)nullptr);
    vec<D,T> v(d);
    CHECK(v.size() == m.v.size());
    for (auto& x : v) CHECK(x == val_t<T>(), "size constructor must default-initialise");
    for (size_t i = 0; i < m.v.size(); ++i) v.data[i] = m.v[i];
    return v;
}
template<size_t D> std::array<size_t,D> gen_dims(Tape& t, size_t mx) { std::array<size_t,D> d; for (auto& x : d) x = t.size(0, mx); return d; }

template<size_t D, class T> struct Push {
    static void go(Tape& t, vec<D,T>& v, Model<D,val_t<T>>& m) {
        std::array<size_t,D-1> sd;
        bool match = t.chance(5, 6) || v.empty();
        for (size_t i = 0; i + 1 < D; ++i) sd[i] = v.empty() ? t.size(0, 3) : m.d[i+1];
        if (!match) sd[t.draw(D-1)] += 1;
        Model<D-1,val_t<T>> sm; auto s = fresh<D-1,T>(t, sd, sm);
        bool view = t.coin();
        t.note("push_back ", vp::show(sd), view ? " (view)" : "");
        bool err = vp::errors([&] { if (view) { auto w = flatten(s); auto q = reform(w[_], sd); v.push_back(q); } else v.push_back(s); });
        CHECK(err == !match, "push_back of ", sd, " on ", m.d);
        if (match) {
            if (m.v.empty()) { m.d[0] = 1; for (size_t i = 1; i < D; ++i) m.d[i] = sd[i-1]; m.v = sm.v; m.known = true; }
            else { ++m.d[0]; m.v.insert(m.v.end(), sm.v.begin(), sm.v.end()); }
        }
    }
};
template<class T> struct Push<1,T> {
    static void go(Tape& t, vec<1,T>& v, Model<1,val_t<T>>& m) {
        auto x = gen_val(t, (T*)nullptr);
        if (t.coin() && !m.v.empty() && m.known) { size_t k = t.draw(m.v.size()); t.note("push_back own element ", k); x = m.v[k]; v.push_back(v[k]); }
        else { t.note("push_back ", vp::show(x)); T y = x; v.push_back(y); }
        m.v.push_back(x); ++m.d[0];
        CHECK(v.back() == x); CHECK(v.front() == m.v.front());
    }
};

template<size_t D, class T> void machine(Tape& t, size_t maxd) {
    using M = Model<D,val_t<T>>;
    std::vector<vec<D,T>> v(2); std::vector<M> m(2);
    size_t steps = 1 + t.size(0, 14), shapes = 0;
    for (size_t s = 0; s < steps; ++s) {
        size_t a = t.draw(2), b = 1 - a;
        const char* op = "";
        switch (t.draw(14)) {
        case 0: { auto d = gen_dims<D>(t, maxd); t.note("v", a, " = vec(", vp::show(d), ")"); v[a] = fresh<D,T>(t, d, m[a]); op = "assign temporary"; ++shapes; break; }
        case 1: { // resize
            auto d = gen_dims<D>(t, maxd); t.note("v", a, ".resize(", vp::show(d), ")");
            v[a].resize(d);
            bool same = d == m[a].d; m[a].d = d; m[a].v.resize(vp::prod(d));
            if (D > 1 && !same) { for (size_t i = 0; i < m[a].v.size(); ++i) m[a].v[i] = v[a].data.size() > i ? v[a].data[i] : m[a].v[i]; }
            op = "resize"; ++shapes; break; }
        case 2: t.note("v", a, ".clear()"); v[a].clear(); m[a] = M(); op = "clear"; break;
        case 3: case 4: case 5: Push<D,T>::go(t, v[a], m[a]); op = "push_back"; ++shapes; break;
        case 6: t.note("v", a, " = v", b); v[a] = v[b]; m[a] = m[b]; op = "copy assignment"; break;
        case 7: { t.note("v", a, " = v", a); v[a] = *(&v[a] + (a - a)); op = "self assignment"; break; }
        case 8: { t.note("move construct from v", a); vec<D,T> w(std::move(v[a])); agree(w, m[a], "move construction");
            CHECK(v[a].empty() && v[a].size() == 0, "moved-from vector must be empty"); vp::valid(v[a], "moved-from");
            for (auto x : v[a].dims) CHECK(x == 0, "moved-from vector keeps dimensions ", vp::dimsv(v[a]));
            v[b] = std::move(w); m[b] = m[a]; m[a] = M();
            CHECK(w.empty(), "moved-from vector must be empty"); vp::valid(w, "source of a move assignment");
            op = "move"; break; }
        case 9: { t.note("w = v", a, "; move assign"); vec<D,T> w; w = std::move(v[a]); agree(w, m[a], "move assignment");
            CHECK(v[a].empty(), "moved-from vector must be empty"); vp::valid(v[a], "source of a move assignment");
            M old = m[a]; m[a] = M();
            // the source can be reused
            Push<D,T>::go(t, v[a], m[a]); agree(v[a], m[a], "push_back after move");
            v[b] = w; m[b] = old; op = "move assignment"; ++shapes; break; }
        case 10: { // flatten / reform round trip
            t.note("reform(flatten(v", a, "))"); bool mv = t.coin();
            vec<1,T> f = mv ? flatten(std::move(v[a])) : flatten(v[a]);
            CHECK(f.dims[0] == vp::prod(m[a].d)); vp::valid(f, "flatten");
            for (size_t i = 0; i < m[a].v.size(); ++i) CHECK(f.data[i] == m[a].v[i], "flatten keeps the order");
            if (mv) vp::valid(v[a], "source of flatten(&&)");
            v[a] = t.coin() ? vec<D,T>(reform(std::move(f), m[a].d)) : vec<D,T>(reform(f, m[a].d)); op = "reform"; break; }
        case 11: { // wrong reform is an error
            auto d = gen_dims<D>(t, maxd); bool ok = vp::prod(d) == m[a].v.size(); t.note("reform(v", a, ", ", vp::show(d), ")");
            vec<D,T> r; bool err = vp::errors([&] { r = reform(v[a], d); });
            CHECK(err == !ok, "reform ", m[a].d, " to ", d);
            if (ok) { v[a] = r; m[a].d = d; } op = "reform"; break; }
        case 12: { // view -> vector and permutation of a view of itself
            if (m[a].v.empty()) continue;
            std::vector<size_t> p(m[a].v.size()); for (auto& x : p) x = t.draw(p.size());
            vec1u ids = vp::mk<uint_t>(p); t.note("v", a, " = reform(v", a, "[", vp::show(p), "])");
            v[a] = reform(v[a][ids], m[a].d);
            auto o = m[a].v; for (size_t i = 0; i < p.size(); ++i) m[a].v[i] = o[p[i]]; op = "assign permuted view of self"; break; }
        default: { // copies are independent
            vec<D,T> w = v[a]; agree(w, m[a], "copy construction"); if (!w.empty()) { w.data[t.draw(w.size())] = gen_val(t, (T*)nullptr); }
            w.clear(); vp::valid(w, "cleared copy"); op = "independent copy"; break; }
        }
        agree(v[a], m[a], op); agree(v[b], m[b], op); t.evals(2);
    }
    if (shapes >= 2) t.nontrivial();
}
SUB("machine-1d-int", 4) { machine<1,int>(t, 8); }
SUB("machine-1d-string", 3) { machine<1,std::string>(t, 6); }
SUB("machine-1d-bool", 2) { machine<1,bool>(t, 8); }
SUB("machine-2d-int", 4) { machine<2,int>(t, 4); }
SUB("machine-2d-string", 2) { machine<2,std::string>(t, 3); }
SUB("machine-3d-double", 3) { machine<3,double>(t, 3); }

// nested initializer lists: shape and row-major order; ragged lists are errors
SUB("init-list", 1) {
    int a = t.range(-5, 5), b = t.range(-5, 5), c = t.range(-5, 5), d = t.range(-5, 5), e = t.range(-5, 5), f = t.range(-5, 5);
    std::vector<int> w{a, b, c, d, e, f};
    vec<1,int> v1 = {a, b, c, d, e, f}; vp::expect1(v1, w, "1D list");
    vec<2,int> v2 = {{a, b, c}, {d, e, f}}; vp::expect(v2, std::array<size_t,2>{{2, 3}}, w, "2x3 list");
    vec<2,int> v3 = {{a, b}, {c, d}, {e, f}}; vp::expect(v3, std::array<size_t,2>{{3, 2}}, w, "3x2 list");
    vec<3,int> v4 = {{{a}, {b}, {c}}, {{d}, {e}, {f}}}; vp::expect(v4, std::array<size_t,3>{{2, 3, 1}}, w, "2x3x1 list");
    v2 = {{f, e}, {d, c}, {b, a}}; std::vector<int> r(w.rbegin(), w.rend()); vp::expect(v2, std::array<size_t,2>{{3, 2}}, r, "list assignment");
    CHECK(vp::errors([&] { vec<2,int> z = {{a, b, c}, {d, e}}; }), "ragged list must be an error");
    CHECK(vp::errors([&] { vec<2,int> z = {{a, b}, {d, e, f}}; }), "ragged list must be an error");
    CHECK(vp::errors([&] { vec<3,int> z = {{{a, b}, {c, d}}, {{a, b}, {e}}}; }), "ragged list must be an error");
    t.nontrivial();
}
// element type conversions keep shape and convert each value
SUB("convert", 2) {
    std::array<size_t,2> d{{t.size(0, 5), t.size(0, 5)}}; auto x = vp::doubles(t, vp::prod(d));
    auto v = vp::mkd<2,double>(d, x);
    vec<2,float> f = v; std::vector<float> xf(x.begin(), x.end()); vp::expect(f, d, xf, "double to float");
    vec<2,int_t> i(v); std::vector<int_t> xi; for (auto q : x) xi.push_back(int_t(q)); vp::expect(i, d, xi, "double to integer");
    vec<2,double> b = i; std::vector<double> xb(xi.begin(), xi.end()); vp::expect(b, d, xb, "integer to double");
    vec<2,double> g; g = f; std::vector<double> xg(xf.begin(), xf.end()); vp::expect(g, d, xg, "float to double");
    if (x.size() > 2) t.nontrivial(); t.note("dims ", vp::show(d), " ", vp::show(x));
}
