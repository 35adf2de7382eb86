// I03: any history of HDU and keyword operations leaves a FITS file with exactly the HDUs, data and keywords it describes.
#include "fits_h.hpp"
using namespace fh; using VS = std::vector<Str>;
static Str path() { return vp::scratch() + "/h.fits"; }
struct Key { Str name; int kind = 0; double num = 0; Str str; }; // 0 string 1 double 2 int 3 float 4 bool
struct Hdu { int type = 0; std::vector<size_t> d; std::vector<double> v; std::vector<Key> keys; }; // 0 empty 1 image 2 table
static Str up(Str s) { for (auto& c : s) c = char(std::toupper(c)); return s; }
static Str recase(Tape& t, Str s) { for (auto& c : s) c = t.coin() ? char(std::toupper(c)) : char(std::tolower(c)); return s; }
static Str text(Tape& t) { Str s = vp::gen_str(t, "ab c'/=X&0", 0, t.chance(1, 4) ? 30 : 10); while (!s.empty() && s.back() == ' ') s.pop_back(); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s; }
static bool is(const Key& k, const Str& n) { return k.name == n; }
static void check_key(const impl::fits_impl::file_base& f, const std::vector<Key>& ks, const Str& n, Tape& t) {
    std::vector<const Key*> c; for (auto& k : ks) if (is(k, n)) { c.push_back(&k); break; } Str q = recase(t, n); CHECK(f.has_keyword(q) == !c.empty(), "has_keyword(", q, ") is wrong"); Str s = "unchanged"; bool r = f.read_keyword(q, s); CHECK(r == !c.empty(), "read_keyword(", q, ") returned ", r); if (!r) { CHECK(s == "unchanged", "read_keyword changed the value to ", s); double d = -7; CHECK(!f.read_keyword(q, d) && d == -7, "read_keyword changed the number"); return; }
    bool any = false; Str seen; for (auto k : c) { bool ok = false; switch (k->kind) { case 0: { ok = s == k->str; double d = -7.5; double tmp; bool can = from_string(k->str, tmp) || k->str == "T" || k->str == "F"; if (!can && c.size() == 1) CHECK(!f.read_keyword(q, d) && d == -7.5, "text read as a number: ", d); break; } case 1: { double d = -1e99; ok = f.read_keyword(q, d) && vp::near(d, k->num, 1e-14); seen += " " + vp::show(d); break; } case 2: { int_t d = -1; ok = f.read_keyword(q, d) && double(d) == k->num; seen += " " + vp::show(d); break; } case 3: { float d = -1; ok = f.read_keyword(q, d) && vp::near(d, k->num, 2e-6); break; } default: { bool d = k->num == 0; ok = f.read_keyword(q, d) && d == (k->num != 0); } } if (ok) any = true; }
    CHECK(any, "keyword ", n, " reads ", s, seen);
}
static void check_order(const impl::fits_impl::file_base& f, const std::vector<Key>& ks) { Str h = f.read_header(); CHECK(h.size() % 80 == 0, "header size ", h.size()); std::vector<Str> got, want; for (size_t i = 0; i + 80 <= h.size(); i += 80) { Str c = h.substr(i, 80); Str n = c.substr(0, 8) == "HIERARCH" ? c.substr(9, c.find('=') - 9) : c.substr(0, 8); while (!n.empty() && n.back() == ' ') n.pop_back(); if (n[0] == 'Q') got.push_back(n); } for (auto& k : ks) want.push_back(k.name); CHECK(got == want, "header lists ", got, " expected ", want); }
static void check_hdu(const impl::fits_impl::file_base& f, const Hdu& h) { int ty = f.hdu_type(); CHECK(ty == (h.type == 0 ? fits::empty_hdu : h.type == 1 ? fits::image_hdu : fits::table_hdu), "hdu_type ", ty, " expected ", h.type); CHECK(f.axis_count() == (h.type == 1 ? h.d.size() : 0), "axis_count ", f.axis_count()); CHECK(vp::tov(f.image_dims()) == (h.type == 1 ? h.d : std::vector<size_t>{}), "image_dims ", vp::tov(f.image_dims())); }
template<class F> static void check_data(F& f, const Hdu& h) { if (h.type == 1) { vec2d r; f.read(r); vp::expect(r, {{h.d[0], h.d[1]}}, h.v, "image"); } else if (h.type == 2) { vec1d r; auto s = f.read_column("DATA", r); CHECK(s.is_good(), "column lost: ", s.reason()); vp::expect1(r, h.v, "column"); } }
SUB("history", 8) {
    std::vector<Hdu> m(1); size_t cur = 0; ::unlink(path().c_str()); std::unique_ptr<fits::file> f; { fits::output_image o(path()); o.reach_hdu(0); } f.reset(new fits::file(path())); static const VS names = {"QA", "QB", "QABCDEFG", "QA1", "Q-LONG-NAME", "QLONGKEYWORD", "QLONGKEYWORD2", "Q_1"}; size_t ops = 2 + t.draw(14), changes = 0;
    auto K = [&]() -> fits::image& { return *f; };
    for (size_t q = 0; q < ops; ++q) { Hdu& h = m[cur]; CHECK(f->current_hdu() == cur, "current_hdu ", f->current_hdu(), " expected ", cur); CHECK(f->hdu_count() == m.size(), "hdu_count ", f->hdu_count(), " expected ", m.size());
        switch (t.draw(11)) {
        case 0: case 1: { size_t n = t.draw(m.size() + 1 + (t.chance(1, 3) ? 2 : 0)); t.note("reach ", n); f->reach_hdu(n); if (n >= m.size()) { m.resize(n + 1); ++changes; } cur = n; break; }
        case 2: { if (h.type != 0) { t.note("write over"); CHECK(errs([&] { f->write(vec2d(2, 2)); }), "image written over existing data"); break; } h.type = 1; h.d = {1 + t.draw(4), 1 + t.draw(4)}; h.v.resize(h.d[0]*h.d[1]); for (auto& x : h.v) x = double(t.range(-99, 99))/2; t.note("image ", vp::show(h.d)); f->write(mkv<double,2>({{h.d[0], h.d[1]}}, h.v)); ++changes; break; }
        case 3: { if (cur == 0 || h.type == 2 || (h.type == 0 && !h.keys.empty())) break; vec1d v; std::vector<double> a(1 + t.draw(5)); for (auto& x : a) x = double(t.range(-99, 99))/2; v = vp::mk<double>(a); if (h.type == 1) { t.note("table over image"); CHECK(errs([&] { f->write_column("DATA", v); }), "table written over an image"); break; } t.note("table ", a.size()); f->write_column("DATA", v); h.type = 2; h.v = a; ++changes; break; }
        case 4: { t.note("remove hdu ", cur); if (cur == 0) { CHECK(errs([&] { K().remove_hdu(); }), "primary HDU removed"); break; } K().remove_hdu(); bool last = cur + 1 == m.size(); m.erase(m.begin() + cur); if (last) --cur; ++changes; break; }
        case 5: case 6: case 7: { Key k; k.name = t.pick(names); bool add = t.chance(1, 4); size_t cnt = std::count_if(h.keys.begin(), h.keys.end(), [&](const Key& x) { return is(x, k.name); }); k.kind = int(t.draw(5)); Str nm = recase(t, k.name); if (k.kind == 0) k.str = text(t); auto put = [&](auto v) { if (add) K().add_keyword(nm, v); else if (t.coin()) K().write_keyword(nm, v); else K().write_keyword(nm, v, "comment"); }; switch (k.kind) { case 0: put(k.str); break; case 1: k.num = vp::gen_double(t); put(k.num); break; case 2: { int_t v = t.chance(1, 3) ? int_t(t.u64() >> 12) : t.range(-99, 99); k.num = double(v); put(v); break; } case 3: { float v = float(vp::gen_double(t)); k.num = v; put(v); break; } default: { bool v = t.coin(); k.num = v; put(v); } } t.note(add ? "add " : "write ", nm, " kind ", k.kind, " ", vp::show(k.str), " ", k.num); auto it = std::find_if(h.keys.begin(), h.keys.end(), [&](const Key& x) { return is(x, k.name); }); if (add || it == h.keys.end()) h.keys.push_back(k); else *it = k; ++changes; break; }
        case 8: { Str n = t.pick(names); t.note("remove key ", n); K().remove_keyword(recase(t, n)); auto it = std::find_if(h.keys.begin(), h.keys.end(), [&](const Key& x) { return is(x, n); }); if (it != h.keys.end()) h.keys.erase(it); break; }
        case 9: { t.note("reopen"); f.reset(); f.reset(new fits::file(path())); cur = 0; CHECK(f->current_hdu() == 0, "current_hdu after opening"); break; }
        default: if (t.coin() && h.type == 1) { for (auto& x : h.v) x = double(t.range(-99, 99)); t.note("update image"); f->update(mkv<double,2>({{h.d[0], h.d[1]}}, h.v)); } else if (t.coin()) { if (t.coin()) K().flush(); else K().flush_buffer(); } }
        check_hdu(*f, m[cur]); check_key(*f, m[cur].keys, t.pick(names), t); check_order(*f, m[cur].keys); if (t.coin()) check_data(*f, m[cur]); }
    f.reset(); fits::input_file r(path()); CHECK(r.hdu_count() == m.size(), "hdu_count ", r.hdu_count(), " expected ", m.size()); for (size_t i = 0; i < m.size(); ++i) { size_t h = t.coin() ? i : m.size() - 1 - i; r.reach_hdu(h); CHECK(r.current_hdu() == h, "current_hdu"); check_hdu(r, m[h]); check_data(r, m[h]); for (auto& n : names) check_key(r, m[h].keys, n, t); check_order(r, m[h].keys); }
    for (size_t h = 0; h < m.size(); ++h) { r.reach_hdu(h); check_hdu(r, m[h]); check_data(r, m[h]); for (auto& n : names) check_key(r, m[h].keys, n, t); } CHECK(errs([&] { r.reach_hdu(m.size() + t.draw(3)); }), "missing HDU reached in a read-only file"); if (changes > 1) t.nontrivial(); if (m.size() > 2) t.label("several HDUs");
}
SUB("closed", 1) { fits::image o; Str s = "v"; CHECK(errs([&] { o.hdu_count(); }) && errs([&] { o.current_hdu(); }) && errs([&] { o.hdu_type(); }) && errs([&] { o.reach_hdu(0); }) && errs([&] { o.axis_count(); }) && errs([&] { o.has_keyword("A"); }) && errs([&] { o.read_keyword("A", s); }) && errs([&] { o.write_keyword("A", s); }) && errs([&] { o.add_keyword("A", 1.0); }) && errs([&] { o.remove_keyword("A"); }) && errs([&] { o.remove_hdu(); }) && errs([&] { o.read_header(); }), "operation accepted without an open file"); CHECK(s == "v", "value changed"); }
KNOWN("K1", "hdu_count() of a newly created file is 0 instead of 1") { fits::output_image o(path()); return o.hdu_count() == 1; }
