// S01: string functions (find, replace, split, trim, cut, wrap, collapse, align, case, erase, words,
// blocks) against independent reference implementations; vectorised forms equal the scalar ones.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
using namespace vif;
using vp::Tape;
using Str = std::string; using VS = std::vector<Str>;
static const Str AB = "ab ,;";
static bool at(const Str& s, size_t i, const Str& p) { if (i > s.size() || s.size() - i < p.size()) return false; for (size_t k = 0; k < p.size(); ++k) if (s[i+k] != p[k]) return false; return true; }
static bool in(char c, const Str& s) { for (char k : s) if (k == c) return true; return false; }
static size_t rfind(const Str& s, const Str& p, size_t from = 0) { for (size_t i = from; i + p.size() <= s.size(); ++i) if (at(s, i, p)) return i; return Str::npos; }
static VS rsplit(const Str& s, const Str& p) { VS r(1); for (size_t i = 0; i < s.size(); ) if (at(s, i, p)) { r.push_back(""); i += p.size(); } else r.back() += s[i++]; return r; }
static VS rwords(const Str& s, const Str& c) { VS r; bool inw = false; for (char k : s) { if (in(k, c)) inw = false; else { if (!inw) r.push_back(""); r.back() += k; inw = true; } } return r; }
static Str rjoin(const VS& v, const Str& sep) { Str r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += v[i]; } return r; }
template<class F, class... A> void vect(Tape& t, const Str& s, const char* what, F&& f) { // vectorised = scalar at each position
    VS x{s, vp::gen_str(t, AB, 0, 6), s + "b"}; vec1s v = vp::mk<Str>(x); auto r = f(v); CHECK(r.size() == 3 && r.dims[0] == 3, what); for (size_t i = 0; i < 3; ++i) CHECK(r.safe[i] == f(x[i]), "vectorised ", what, " at ", i); vp::expect1(v, x, what);
}
SUB("find-replace", 4) {
    Str s = vp::gen_str(t, "ab", 0, 14), p = vp::gen_str(t, "ab", 1, 4), r = vp::gen_str(t, "abc", 0, 5); t.note("s=", vp::quote(s), " p=", vp::quote(p), " r=", vp::quote(r));
    size_t w = rfind(s, p); CHECK(find(s, p) == (w == Str::npos ? npos : w), "find gives ", find(s, p)); CHECK(find(s, "") == 0);
    Str e; size_t nrep = 0; for (size_t i = 0; i < s.size(); ) if (at(s, i, p)) { e += r; i += p.size(); ++nrep; } else e += s[i++]; CHECK(replace(s, p, r) == e, "replace gives ", replace(s, p, r), " expected ", e);
    CHECK(begins_with(s, p) == at(s, 0, p), "begins_with"); CHECK(ends_with(s, p) == (s.size() >= p.size() && at(s, s.size() - p.size(), p)), "ends_with"); CHECK(begins_with(s, "") && ends_with(s, "") && begins_with(s, s) && ends_with(s, s)); CHECK(begins_with(s + p, s) && ends_with(p + s, s)); CHECK(!begins_with(s, s + "a") && !ends_with(s, "a" + s));
    Str o; bool eb = vp::errors([&] { o = erase_begin(s, p); }); CHECK(eb == !at(s, 0, p), "erase_begin error status"); if (!eb) CHECK(p + o == s, "erase_begin"); bool ee = vp::errors([&] { o = erase_end(s, p); }); CHECK(ee == !ends_with(s, p), "erase_end error status"); if (!ee) CHECK(o + p == s, "erase_end");
    uint_t n = t.draw(s.size() + 4); Str b = n >= s.size() ? "" : s.substr(n), f = n >= s.size() ? "" : s.substr(0, s.size() - n); CHECK(erase_begin(s, n) == b, "erase_begin(n)"); CHECK(erase_end(s, n) == f, "erase_end(n)"); CHECK(keep_first(s, n) == s.substr(0, std::min<size_t>(n, s.size())), "keep_first"); CHECK(keep_last(s, n) == (n >= s.size() ? s : s.substr(s.size() - n)), "keep_last");
    if (s.size()) { CHECK(keep_first(s) == s.substr(0, 1)); CHECK(keep_last(s) == s.substr(s.size() - 1)); } CHECK(length(s) == s.size() && empty(s) == (s.size() == 0));
    vect(t, s, "find", [&](auto const& q) { return find(q, p); }); vect(t, s, "replace", [&](auto const& q) { return replace(q, p, r); }); vect(t, s, "begins_with", [&](auto const& q) { return begins_with(q, p); }); vect(t, s, "ends_with", [&](auto const& q) { return ends_with(q, p); }); vect(t, s, "erase_begin", [&](auto const& q) { return erase_begin(q, n); }); vect(t, s, "erase_end", [&](auto const& q) { return erase_end(q, n); }); vect(t, s, "keep_first", [&](auto const& q) { return keep_first(q, n); }); vect(t, s, "keep_last", [&](auto const& q) { return keep_last(q, n); }); vect(t, s, "length", [&](auto const& q) { return length(q); }); vect(t, s, "empty", [&](auto const& q) { return empty(q); });
    if (nrep > 0 && s.size() > p.size()) t.nontrivial();
}
SUB("split-join", 4) {
    Str s = vp::gen_str(t, AB, 0, 16), p = t.coin() ? vp::gen_str(t, " ,;", 1, 2) : vp::gen_str(t, AB, 1, 3); t.note("s=", vp::quote(s), " p=", vp::quote(p));
    VS w = rsplit(s, p); auto v = split(s, p); vp::expect1(v, w, "split"); CHECK(collapse(v, p) == s, "collapse(split(s,p),p) is ", collapse(v, p)); CHECK(replace(s, p, "<>") == rjoin(w, "<>"));
    char c = AB[t.draw(AB.size())]; vp::expect1(split(s, Str(1, c)), rsplit(s, Str(1, c)), "split by one character");
    VS k = rwords(s, p); vp::expect1(split_any_of(s, p), k, "split_any_of"); 
    size_t n = t.size(0, 5); VS parts(n); for (auto& q : parts) q = vp::gen_str(t, "xyz", 0, 4); vec1s pv = vp::mk<Str>(parts); CHECK(collapse(pv) == rjoin(parts, ""), "collapse"); CHECK(collapse(pv, p) == rjoin(parts, p), "collapse with separator"); if (n > 0 && p.find_first_of("xyz") == p.npos) { vp::expect1(split(collapse(pv, p), p), parts, "split(collapse)"); }
    CHECK(collapse(pv[_], p) == rjoin(parts, p), "collapse(view)");
    if (w.size() > 1) t.nontrivial();
}
SUB("words", 2) {
    Str s = vp::gen_str(t, AB, 0, 16), c = vp::gen_str(t, " ,;", 1, 2); VS k = rwords(s, c); int n = int(t.range(-int64_t(k.size()) - 2, k.size() + 1)); t.note("s=", vp::quote(s), " chars=", vp::quote(c), " n=", n); Str o; bool err = vp::errors([&] { o = get_word(s, n, c); }); bool ok = n < 0 ? size_t(-n) <= k.size() : size_t(n) < k.size();
    CHECK(err == !ok, "get_word ", err ? "rejected" : "accepted", " with ", k.size(), " words"); if (ok) CHECK(o == k[n < 0 ? k.size() + n : n], "get_word gives ", o); if (k.size() > 1) t.nontrivial();
}
SUB("trim-case-align", 3) {
    Str s = vp::gen_str(t, "ab \t\n", 0, 12), c = vp::gen_str(t, "ab ", 0, 2); bool def = t.coin(); Str cc = def ? " \t\n\r" : c; t.note("s=", vp::quote(s), " c=", vp::quote(cc)); size_t i = 0, j = s.size(); while (i < j && in(s[i], cc)) ++i; while (j > i && in(s[j-1], cc)) --j; Str w = s.substr(i, j - i); Str g = def ? trim(s) : trim(s, c); CHECK(g == w, "trim gives ", g, " expected ", w); CHECK(trim(g, cc) == g); vect(t, s, "trim", [&](auto const& q) { return trim(q, cc); });
    Str m = s; for (auto& k : m) k = char(32 + t.draw(220)); Str u = m, l = m; for (auto& k : u) if (k >= 'a' && k <= 'z') k -= 32; for (auto& k : l) if (k >= 'A' && k <= 'Z') k += 32; CHECK(to_upper(m) == u, "to_upper"); CHECK(to_lower(m) == l, "to_lower"); vect(t, m, "to_upper", [&](auto const& q) { return to_upper(q); }); vect(t, m, "to_lower", [&](auto const& q) { return to_lower(q); });
    uint_t wd = t.draw(20); char f = t.coin() ? ' ' : '0'; size_t pad = wd > m.size() ? wd - m.size() : 0; CHECK(align_left(m, wd, f) == m + Str(pad, f), "align_left"); CHECK(align_right(m, wd, f) == Str(pad, f) + m, "align_right"); CHECK(align_center(m, wd, f) == Str(pad/2, f) + m + Str(pad - pad/2, f), "align_center gives ", align_center(m, wd, f)); vect(t, m, "align_left", [&](auto const& q) { return align_left(q, wd, f); }); vect(t, m, "align_right", [&](auto const& q) { return align_right(q, wd, f); }); vect(t, m, "align_center", [&](auto const& q) { return align_center(q, wd, f); });
    Str a = vp::gen_str(t, "ab", 0, 8), b = vp::gen_str(t, "ab", 0, 8); size_t d = std::max(a.size(), b.size()) - std::min(a.size(), b.size()); for (size_t k = 0; k < std::min(a.size(), b.size()); ++k) d += a[k] != b[k]; CHECK(distance(a, b) == d && distance(b, a) == d, "distance"); CHECK(distance(a, a) == 0);
    if (i > 0 || j < s.size() || pad) t.nontrivial();
}
SUB("cut", 2) { Str s = vp::gen_str(t, AB, 0, 40); size_t n = t.size(1, 12); t.note(vp::quote(s), " cut ", n); VS w; for (size_t i = 0; i < s.size(); i += n) w.push_back(s.substr(i, n)); vp::expect1(cut(s, n), w, "cut"); CHECK(collapse(cut(s, n)) == s, "cut loses characters"); if (s.size() > n) t.nontrivial(); }
SUB("wrap", 3) {
    Str ind(t.draw(4), '>'); size_t w = ind.size() + 4 + t.draw(16); bool ell = t.coin(); size_t nw = t.size(0, 9); bool multi = t.chance(1, 3); VS words; Str s; for (size_t i = 0; i < nw; ++i) { Str k = vp::gen_str(t, "ab.", 1, t.chance(1, 6) ? 30 : 8); if (i || (multi && t.coin())) s += Str(multi ? 1 + t.draw(3) : 1, ' '); s += k; words.push_back(k); } if (multi && t.coin()) s += " "; t.note(vp::quote(s), " wrap ", w, " indent ", ind.size(), ell ? " ellipse" : "");
    auto v = ind.empty() && !ell && t.coin() ? wrap(s, w) : wrap(s, w, ind, ell); VS got = vp::tov(v); vp::valid(v, "wrap"); VS body = got; for (size_t i = 1; i < got.size(); ++i) { CHECK(at(got[i], 0, ind), "line ", i, " is not indented: ", got[i]); body[i] = got[i].substr(ind.size()); }
    VS all; for (auto& b : body) for (auto& k : rwords(b, " ")) all.push_back(k); for (size_t i = 0; i < got.size(); ++i) CHECK(got[i].size() <= w || (!ell && body[i].find(' ') == Str::npos), "line ", i, " is too long: ", got[i]);
    CHECK(all.size() == words.size(), "wrap lost or cut words: ", got); for (size_t i = 0; i < words.size(); ++i) { if (all[i] == words[i]) continue; bool tr = ell && words[i].size() + 0 > w - ind.size() && all[i].size() >= 3 && all[i].substr(all[i].size() - 3) == "..." && at(words[i], 0, all[i].substr(0, all[i].size() - 3)); CHECK(tr, "word ", i, " became ", all[i]); }
    if (!multi) { VS ref; Str cur; bool has = false; for (auto& k : words) { size_t av = ref.empty() ? w : w - ind.size(); Str kk = k; auto put = [&](Str q) { size_t a2 = ref.empty() ? w : w - ind.size(); if (ell && q.size() > a2) q = q.substr(0, a2 - 3) + "..."; return q; }; if (!has) { cur = put(kk); has = true; } else if (cur.size() + 1 + kk.size() <= av) cur += " " + kk; else { ref.push_back(cur); cur = put(kk); } } if (has) ref.push_back(cur); for (size_t i = 1; i < ref.size(); ++i) ref[i] = ind + ref[i]; CHECK(got == ref, "wrap gives ", got, " expected ", ref); }
    if (got.size() > 1) t.nontrivial();
}
SUB("blocks", 2) {
    bool br = t.coin(); Str B = br ? "{" : "<b>", E = br ? "}" : "</b>", S = br ? "}{" : "|"; size_t n = t.size(0, 4); Str s, w, w1; VS seen; std::vector<VS> comps; bool sepout = t.coin();
    auto lit = [&] { return vp::gen_str(t, sepout && !br ? "xy |" : "xy ", br ? 1 : 0, 4); };
    s = w = lit(); for (size_t i = 0; i < n; ++i) { size_t k = 1 + t.draw(3); VS c(k); for (auto& q : c) q = vp::gen_str(t, "cd", 0, 3); comps.push_back(c); Str in_ = rjoin(c, S); s += B + in_ + E; w += "[" + rjoin(c, "+") + "]"; Str l = lit(); s += l; w += l; } t.note(vp::quote(s));
    size_t call = 0; Str g = replace_blocks(s, B, S, E, [&](vec1s c) { CHECK(call < comps.size()); CHECK(vp::tov(c) == comps[call], "components ", vp::tov(c), " expected ", comps[call]); ++call; return "[" + collapse(c, "+") + "]"; }); CHECK(g == w, "replace_blocks gives ", g, " expected ", w); CHECK(call == n);
    Str g1; Str ref; size_t p = 0; while (true) { size_t q = rfind(s, B, p); if (q == Str::npos) { ref += s.substr(p); break; } ref += s.substr(p, q - p); size_t e = rfind(s, E, q + B.size()); ref += "(" + s.substr(q + B.size(), e - q - B.size()) + ")"; p = e + E.size(); if (p > s.size()) break; } g1 = replace_block(s, B, E, [](Str q) { return "(" + q + ")"; }); CHECK(g1 == ref, "replace_block gives ", g1, " expected ", ref);
    CHECK(vp::errors([&] { replace_block(s + B + "x", B, E, [](Str q) { return q; }); }), "unterminated block accepted"); CHECK(vp::errors([&] { replace_blocks(s + B + "x", B, S, E, [](vec1s q) { return Str(); }); }), "unterminated block accepted by replace_blocks"); if (n) t.nontrivial();
}
