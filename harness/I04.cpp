// I04: header text functions: set and get keywords, parse and serialize, carry a header from a file to another.
#include "fits_h.hpp"
using namespace fh; using VS = std::vector<Str>;
static Str path(int k = 0) { return vp::scratch() + "/k" + std::to_string(k) + ".fits"; }
static Str pad(Str s) { s.resize(80, ' '); return s; }
static Str rtrim(Str s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static Str text(Tape& t, size_t mx) { Str s = vp::gen_str(t, "ab c/=X&END0-", 0, mx); while (!s.empty() && s.back() == ' ') s.pop_back(); while (!s.empty() && s[0] == ' ') s.erase(0, 1); return s; }
static const VS& names() { static const VS n = {"QA", "QB", "QABCDEFG", "QA1", "QEND", "Q_1", "DATE-END", "QENDING"}; return n; }
struct Ent { Str key, raw, comment; }; // raw: the value as it stands in the card
static Str num(double v) { std::ostringstream o; o.precision(16); o << v; return o.str(); }
SUB("setget", 6) { // histories of setkey/getkey on a header
    fits::header h; std::vector<Ent> m; VS fixed; bool end = t.coin(); size_t pre = t.draw(4); for (size_t i = 0; i < pre; ++i) { Str c = t.pick({Str("COMMENT some text END"), Str("SIMPLE  =                    T / yes"), Str("HISTORY QA = 5"), Str("        "), Str("BITPIX  =                    8")}); h += pad(c); }
    size_t base = h.size(); if (end) h += pad("END"); Str prefix = h.substr(0, base); size_t ops = 1 + t.draw(8), sets = 0;
    for (size_t q = 0; q < ops; ++q) { Str k = t.pick(names()); auto it = std::find_if(m.begin(), m.end(), [&](const Ent& e) { return e.key == k; });
        if (t.coin()) { Ent e; e.key = k; bool r; Str before = h; size_t ty = t.draw(6); Str c = t.coin() ? text(t, t.chance(1, 6) ? 70 : 12) : ""; 
            switch (ty) { case 0: { double v = vp::gen_double(t); e.raw = num(v); r = c.empty() ? fits::setkey(h, k, v) : fits::setkey(h, k, v, c); break; } case 1: { int v = int(t.range(-9999, 9999)); e.raw = std::to_string(v); r = c.empty() ? fits::setkey(h, k, v) : fits::setkey(h, k, v, c); break; } case 2: { Str v = "'" + text(t, t.chance(1, 8) ? 75 : 15) + "'"; e.raw = v; r = c.empty() ? fits::setkey(h, k, v) : fits::setkey(h, k, v, c); break; } case 3: { uint_t v = t.draw(1000); e.raw = std::to_string(v); r = c.empty() ? fits::setkey(h, k, v) : fits::setkey(h, k, v, c); break; } case 4: { Str bad = "QTOOLONGNAME"; r = fits::setkey(h, bad, 5); CHECK(!r, "name of more than 8 characters accepted"); CHECK(h == before, "header changed"); continue; } default: { float v = float(t.range(-999, 999))/4; std::ostringstream o; o << v; e.raw = o.str(); r = c.empty() ? fits::setkey(h, k, v) : fits::setkey(h, k, v, c); } }
            t.note("set ", k, " = ", e.raw, " / ", c, " -> ", r); Str full = e.raw + (c.empty() ? "" : " / " + c); bool fits_ = 10 + full.size() <= 80; CHECK(r == fits_, r ? "entry that does not fit accepted" : "entry refused"); if (!r) { CHECK(h == before, "header changed by a refused entry"); continue; } e.comment = c; if (it != m.end()) { if (c.empty()) e.comment = it->comment; *it = e; } else m.push_back(e); ++sets; }
        else { t.note("get ", k); Str s = "unchanged"; bool r = fits::getkey(h, k, s); CHECK(r == (it != m.end()), "getkey(", k, ") returned ", r); if (!r) { CHECK(s == "unchanged", "value changed"); double d = -3; CHECK(!fits::getkey(h, k, d) && d == -3, "value changed"); } else if (it->raw[0] == '\'') { Str w = it->raw.substr(1, it->raw.size() - 2); CHECK(rtrim(s) == w, "text is ", s, " expected ", w); } else { CHECK(s == it->raw, "text is ", s, " expected ", it->raw); double d = -3, w = std::stod(it->raw); CHECK(fits::getkey(h, k, d) && d == w, "number is ", d, " expected ", w); } }
        // structure of the whole header
        CHECK(h.size() == base + 80*m.size() + (end ? 80 : 0), "header size ", h.size()); CHECK(h.substr(0, base) == prefix, "other entries changed"); if (end) CHECK(h.substr(h.size() - 80) == pad("END"), "END is not the last entry"); for (size_t i = 0; i < m.size(); ++i) { Str c = h.substr(base + 80*i, 80), want = m[i].key + Str(8 - m[i].key.size(), ' ') + "= " + m[i].raw; CHECK(c.substr(0, want.size()) == want, "entry ", i, " is ", c, " expected ", want); Str rest = rtrim(c.substr(want.size())); size_t p = rest.find_first_not_of(' '); rest = p == Str::npos ? "" : rest.substr(p); if (!m[i].comment.empty()) { Str room = rtrim(("/ " + m[i].comment).substr(0, 80 - std::min<size_t>(80, want.size() + 1))); Str amp = ("/ " + m[i].comment).substr(0, 80 - std::min<size_t>(80, want.size() + 1)); if (!amp.empty() && m[i].comment.back() == '&') amp.back() = '&'; CHECK(rest == room || rest == amp || rest == rtrim("/ " + m[i].comment), "comment of entry ", i, " is ", rest, " expected ", m[i].comment); if (rest != rtrim("/ " + m[i].comment)) { m[i].comment = rest.size() > 2 ? rest.substr(2) : ""; } } else CHECK(rest.empty() || rest == "/", "entry ", i, " has extra text ", rest); } }
    if (sets > 1) t.nontrivial();
}
SUB("parse", 5) {
    size_t n = 1 + t.draw(8); fits::header h; std::vector<Ent> want; std::vector<bool> nov; bool longv = false;
    for (size_t i = 0; i < n; ++i) { Ent e; size_t ty = t.draw(7); Str c = t.coin() ? "/ " + text(t, 12) : ""; c = rtrim(c); if (c == "/") c = ""; bool nv = false; Str card; switch (ty) {
        case 0: e.key = t.pick(names()); e.raw = std::to_string(t.range(-999, 999)); card = e.key + Str(8 - e.key.size(), ' ') + "= " + Str(t.draw(20), ' ') + e.raw; break;
        case 1: e.key = t.pick(names()); { Str s = text(t, 15); Str q; for (char ch : s) { q += ch; if (ch == 'X' && t.coin()) q += "''"; } e.raw = "'" + q + "'"; } card = e.key + Str(8 - e.key.size(), ' ') + "= " + e.raw; break;
        case 2: nv = true; e.key = t.pick({Str("HISTORY a = b / c"), Str("COMMENT some text here"), Str("HISTORY"), Str("HISTORY x")}); if (e.key == "HISTORY") e.key = "HISTORY y"; c = ""; card = e.key; break;
        case 3: e.key = "HIERARCH ESO " + t.pick(names()); e.raw = std::to_string(t.range(-99, 99)); card = e.key + " = " + e.raw; break;
        case 4: { e.key = t.pick(names()); Str a = text(t, 20), b = text(t, 20); while (!a.empty() && a.back() == '&') a.pop_back(); while (!b.empty() && b.back() == '&') b.pop_back(); b = rtrim(b); while (!b.empty() && (b.back() == '&' || b.back() == ' ')) b.pop_back(); if (b.empty()) b = "x"; c = ""; h += pad(e.key + Str(8 - e.key.size(), ' ') + "= '" + a + "&'"); card = "CONTINUE  '" + b + "'"; e.raw = "'" + a + b + "'"; break; }
        case 5: e.key = t.pick(names()); e.raw = t.pick({Str("T"), Str("F"), Str("1.5E-3"), Str("-2.25")}); card = e.key + Str(8 - e.key.size(), ' ') + "= " + Str(20 - e.raw.size(), ' ') + e.raw; break;
        default: nv = true; e.key = "END"; c = ""; card = "END"; if (i + 1 < n) { e.key = "QNOVALUE"; card = "QNOVALUE"; } }
        if (!c.empty()) card += " " + c; e.comment = c; if (card.size() > 80) throw vp::Discard(); h += pad(card); want.push_back(e); nov.push_back(nv); }
    t.note(h); auto check = [&](const fits::parsed_header& p, const char* what) { CHECK(p.size() == want.size(), what, ": ", p.size(), " entries expected ", want.size()); for (size_t i = 0; i < want.size(); ++i) { CHECK(p[i].key == want[i].key, what, ": key ", p[i].key, " expected ", want[i].key); CHECK(p[i].novalue == nov[i], what, ": novalue of ", want[i].key); CHECK(p[i].value == want[i].raw, what, ": value of ", want[i].key, " is ", p[i].value, " expected ", want[i].raw); CHECK(p[i].comment == want[i].comment, what, ": comment of ", want[i].key, " is ", p[i].comment, " expected ", want[i].comment); } };
    auto p = fits::parse_header(h); check(p, "parse"); fits::header h2 = fits::serialize_header(p); CHECK(h2.size() == 80*want.size(), "serialized size ", h2.size()); bool fit = true; for (auto& e : want) if (std::max<size_t>(30, std::max<size_t>(e.key.size() + 3, 10) + std::max<size_t>(20, e.raw.size())) + 1 + e.comment.size() > 80) fit = false; if (fit) check(fits::parse_header(h2), "parse after serialize"); if (n > 1) t.nontrivial();
}
SUB("carry", 2) { // read the header with the data of a file, write them to another
    size_t n = 1 + t.draw(8); std::vector<std::pair<Str,Str>> ks; std::vector<double> nums; vec2d img(1 + t.draw(3), 1 + t.draw(3)); img.data.assign(img.size(), 2.5); { fits::output_image o(path(0)); o.write(img); for (size_t i = 0; i < n; ++i) { Str k = "Q" + std::to_string(i) + (t.chance(1, 4) ? "LONGKEYWORD" : ""); if (t.coin()) { Str s = text(t, 20); o.write_keyword(k, s); ks.push_back({k, "s" + s}); } else { double d = double(t.range(-9999, 9999))/8; o.write_keyword(k, d); ks.push_back({k, "n" + num(d)}); } } }
    vec2d v; fits::header h; fits::read(path(0), v, h); size_t which = t.draw(ks.size()); bool edit = ks[which].first.size() <= 8 && t.coin(); if (edit) { CHECK(fits::setkey(h, ks[which].first, -77), "setkey refused"); ks[which].second = "n-77"; } vec2d w(t.draw(3) + 1, 4); fits::write(path(1), w, h); fits::input_image i(path(1)); CHECK(vp::tov(i.image_dims()) == vp::dimsv(w), "image dimensions changed by the header: ", vp::tov(i.image_dims())); for (auto& k : ks) { if (k.second[0] == 's') { Str s = "?"; CHECK(i.read_keyword(k.first, s) && s == k.second.substr(1), "keyword ", k.first, " is ", s, " expected ", k.second); } else { double d = -1; CHECK(i.read_keyword(k.first, d) && d == std::stod(k.second.substr(1)), "keyword ", k.first, " is ", d, " expected ", k.second); } }
    std::vector<Str> a, b; auto list = [](const Str& hh, std::vector<Str>& o) { for (size_t q = 0; q + 80 <= hh.size(); q += 80) { Str n = rtrim(hh.substr(q, 8)); if (n == "HIERARCH") n = rtrim(hh.substr(q + 9, hh.find('=', q) - q - 9)); if (n[0] == 'Q') o.push_back(n); } }; list(h, a); list(i.read_header(), b); CHECK(a == b, "keywords ", b, " expected ", a); if (n > 1) t.nontrivial();
}
