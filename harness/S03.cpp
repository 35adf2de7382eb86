// S03: regular expression matching, extraction and replacement report every successive leftmost-longest
// match once, with the right groups, keep the unmatched text, terminate, and refuse invalid expressions.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
#include <regex.h>
using namespace vif;
using vp::Tape; using Str = std::string; using VS = std::vector<Str>;
// generated expression with its known number of groups
struct G { Str p; size_t groups = 0; };
static void atom(Tape& t, G& g, int depth, bool noq = false) { // no nested quantifiers: the C library is exponential on them
    const char* q = ""; if (!noq) switch (t.draw(7)) { case 1: q = "+"; break; case 2: q = "?"; break; case 3: q = "*"; break; case 4: q = "{2}"; break; default: break; } if (*q) noq = true;
    switch (t.draw(depth > 0 ? 9 : 6)) { case 0: case 1: g.p += "abc"[t.draw(3)]; break; case 2: g.p += "[ab]"; break; case 3: g.p += "[^a(]"; break; case 4: g.p += "\\("; break; case 5: g.p += t.coin() ? "[(]" : "\\."; break;
    default: { g.p += "("; ++g.groups; size_t n = 1 + t.draw(2); for (size_t i = 0; i < n; ++i) { atom(t, g, depth - 1, noq); } if (t.chance(1, 3)) { g.p += "|"; atom(t, g, depth - 1, noq); } g.p += ")"; } }
    g.p += q;
}
static G pattern(Tape& t) { G g; if (t.chance(1, 8)) g.p += "^"; size_t n = 1 + t.draw(3); for (size_t i = 0; i < n; ++i) atom(t, g, 2); if (t.chance(1, 8)) g.p += "$"; return g; }
struct M { size_t b, e; VS g; };
// successive matches through the "sub-range of the string" interface of the C library
static std::vector<M> matches(const Str& s, const G& g, bool& nullable) {
    regex_t re; CHECK(regcomp(&re, g.p.c_str(), REG_EXTENDED) == 0, "generator produced an invalid expression ", g.p); CHECK(re.re_nsub == g.groups, "generator group count"); std::vector<M> r; size_t off = 0; nullable = false; std::vector<regmatch_t> m(g.groups + 1);
    while (off <= s.size()) { m[0].rm_so = off; m[0].rm_eo = s.size(); if (regexec(&re, s.c_str(), m.size(), m.data(), REG_STARTEND | (off ? REG_NOTBOL : 0)) != 0) break; M k; k.b = m[0].rm_so; k.e = m[0].rm_eo; for (size_t i = 1; i < m.size(); ++i) k.g.push_back(m[i].rm_so < 0 ? Str() : s.substr(m[i].rm_so, m[i].rm_eo - m[i].rm_so)); if (k.b == k.e) { nullable = true; off = k.e + 1; } else off = k.e; r.push_back(k); }
    regfree(&re); return r;
}
SUB("extract-replace", 6) {
    G g = pattern(t); Str s = vp::gen_str(t, "abc(.", 0, 12); t.note("s=", vp::quote(s), " regex=", g.p); bool nullable; auto ms = matches(s, g, nullable); 
    CHECK(regex_match(s, g.p) == !ms.empty(), "regex_match says ", ms.empty());
    vec2s x = regex_extract(s, g.p); vp::valid(x, "regex_extract"); size_t call = 0; Str w, gone; size_t p = 0; for (auto& m : ms) { w += s.substr(p, m.b - p); gone += s.substr(p, m.b - p); w += "<"; for (auto& k : m.g) w += k + ";"; w += ">"; p = m.e; } w += s.substr(p); gone += s.substr(p);
    CHECK(regex_replace(s, g.p, [](vec1s) { return Str(); }) == gone, "removing the matches gives ", regex_replace(s, g.p, [](vec1s) { return Str(); }), " expected ", gone);
    if (nullable) { t.label("nullable"); if (g.groups) { size_t k = 0; for (auto& m : ms) if (m.b != m.e) ++k; CHECK(x.dims[0] >= k && x.dims[0] <= s.size() + 1 + k); } return; } // the number of empty matches is not specified
    if (g.groups == 0 || ms.empty()) CHECK(x.empty(), "extraction without group or match is not empty"); else { CHECK(x.dims[0] == ms.size() && x.dims[1] == g.groups, "regex_extract dims ", vp::dimsv(x), " expected ", ms.size(), "x", g.groups); for (size_t i = 0; i < ms.size(); ++i) for (size_t k = 0; k < g.groups; ++k) CHECK(x(i, k) == ms[i].g[k], "match ", i, " group ", k, " is ", x(i, k), " expected ", ms[i].g[k]); }
    Str r = regex_replace(s, g.p, [&](vec1s m) { CHECK(call < ms.size(), "called too often"); CHECK(vp::tov(m) == ms[call].g, "groups of match ", call, " are ", vp::tov(m), " expected ", ms[call].g); ++call; Str q = "<"; for (auto& k : m) q += k + ";"; return q + ">"; }); CHECK(r == w, "regex_replace gives ", r, " expected ", w); CHECK(call == ms.size(), "replacement called ", call, " times for ", ms.size(), " matches");
    if (ms.size() > 1) t.label("several matches"); if (!ms.empty()) t.nontrivial();
}
SUB("plain", 2) { // an expression without special characters is a plain text search
    Str p = vp::gen_str(t, "ab", 1, 3), s = vp::gen_str(t, "ab", 0, 14), r = vp::gen_str(t, "abx", 0, 3); t.note(vp::quote(s), " / ", vp::quote(p)); CHECK(regex_match(s, p) == (s.find(p) != s.npos)); CHECK(regex_replace(s, p, [&](vec1s m) { CHECK(m.empty()); return r; }) == replace(s, p, r), "regex_replace differs from replace"); CHECK(regex_match(s, "^" + p) == begins_with(s, p)); CHECK(regex_match(s, p + "$") == ends_with(s, p)); CHECK(regex_match(s, "^" + p + "$") == (s == p)); size_t n = split(s, p).size() - 1; auto x = regex_extract(s, "(" + p + ")"); CHECK(x.size() == n, "found ", x.size(), " occurrences instead of ", n); for (auto& q : x) CHECK(q == p); if (n) t.nontrivial();
}
SUB("vector", 1) {
    G g = pattern(t); VS v(t.size(0, 5)); for (auto& s : v) s = vp::gen_str(t, "abc(.", 0, 6); auto vv = vp::mk<Str>(v); auto r = regex_match(vv, g.p); CHECK(r.size() == v.size()); for (size_t i = 0; i < v.size(); ++i) CHECK(r[i] == regex_match(v[i], g.p), "vectorised regex_match at ", i); G h = pattern(t); Str s = vp::gen_str(t, "abc(.", 0, 6); vec1s ps = {g.p, h.p}; auto q = regex_match(s, ps); CHECK(q.size() == 2 && q[0] == regex_match(s, g.p) && q[1] == regex_match(s, h.p), "regex_match(string, vector)"); t.note(vp::show(v), " ", g.p); if (v.size() > 1) t.nontrivial();
    Str bad = t.pick({Str("(a"), Str("[a"), Str("a{2"), Str("*("), Str("a\\")}); CHECK(vp::errors([&] { regex_match(s, bad); }), "invalid expression accepted: ", bad); CHECK(vp::errors([&] { regex_extract(s, bad); })); CHECK(vp::errors([&] { regex_replace(s, bad, [](vec1s) { return Str(); }); }));
}
