// A01: command line arguments reach exactly the variables they name, with the value they spell.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
#include <vif/utility/argv.hpp>
using namespace vif;
using vp::Tape; using Str = std::string; using VS = std::vector<Str>;
struct Vars { int n = -7; long nab = 11; uint_t ab = 3; double pw = 0.5; bool flag = false; Str s = "def"; vec1i vi = {1, 2}; vec1d vd = {0.5}; vec1s vs = {"q"}; double hidden = 4; };
static bool eq(const Vars& a, const Vars& b, Str& why) {
    auto c = [&](bool ok, const char* nm) { if (!ok) why += Str(" ") + nm; };
    c(a.n == b.n, "n"); c(a.nab == b.nab, "nab"); c(a.ab == b.ab, "ab"); c(a.pw == b.pw, "pw"); c(a.flag == b.flag, "flag"); c(a.s == b.s, "s"); c(vp::tov(a.vi) == vp::tov(b.vi) && a.vi.dims == b.vi.dims, "vi"); c(vp::tov(a.vd) == vp::tov(b.vd) && a.vd.dims == b.vd.dims, "vd"); c(vp::tov(a.vs) == vp::tov(b.vs) && a.vs.dims == b.vs.dims, "vs"); c(a.hidden == b.hidden, "hidden"); return why.empty();
}
static void read(const VS& args, Vars& v, int style) {
    std::vector<std::vector<char>> buf; buf.push_back({'p', 0}); for (auto& a : args) { std::vector<char> b(a.begin(), a.end()); b.push_back(0); buf.push_back(b); } std::vector<char*> av; for (auto& b : buf) av.push_back(b.data()); av.push_back(nullptr);
    int n = v.n; long nab = v.nab; uint_t ab = v.ab; bool flag = v.flag; Str s = v.s; vec1i vi = v.vi; vec1d vd = v.vd; vec1s vs = v.vs;
    switch (style) {
    case 0: read_args(buf.size(), av.data(), arg_list(n, nab, ab, name(v.pw, "pow"), flag, s, vi, vd, name(vs, "list"))); break;
    case 1: read_args(buf.size(), av.data(), arg_list(name(vs, "list"), vd, v.hidden, vi, s, flag, name(v.pw, "pow"), ab, nab, n)); break;
    default: { program_arguments pa(buf.size(), av.data()); pa.read(arg_list(nab, n)); pa.read(arg_list(ab, flag, s)); pa.read(arg_list(name(v.pw, "pow"), vi, vd, name(vs, "list"))); } }
    v.n = n; v.nab = nab; v.ab = ab; v.flag = flag; v.s = s; v.vi = vi; v.vd = vd; v.vs = vs;
}
static Str word(Tape& t) { return vp::gen_str(t, "abn=_.x", 1, 6); }
SUB("read", 6) {
    Vars v, m; VS args; int style = int(t.draw(3)); size_t used = 0, bad = 0; static const VS names = {"n", "nab", "ab", "pow", "flag", "s", "vi", "vd", "list"}; std::vector<size_t> ord; for (size_t i = 0; i < names.size(); ++i) if (t.chance(1, 2)) ord.push_back(i); for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i-1], ord[t.draw(i)]);
    for (size_t k : ord) { Str val; bool wrong = t.chance(1, 5), noval = t.chance(1, 6); Str q; auto quote = [&](Str x) { if (t.chance(1, 4)) return "\"" + x + "\""; if (t.chance(1, 6)) return "'" + x + "'"; return x; };
        auto list = [&](auto gen) { Str r = "["; size_t c = t.size(0, 4); for (size_t i = 0; i < c; ++i) { if (i) r += t.chance(1, 4) ? ", " : ","; r += gen(); } return r + "]"; };
        if (noval) { wrong = false; switch (k) { case 0: m.n = 1; break; case 1: m.nab = 1; break; case 2: m.ab = 1; break; case 3: m.pw = 1; break; case 4: m.flag = true; break; case 5: m.s = "1"; break; case 6: m.vi = {1}; break; case 7: m.vd = {1.0}; break; default: m.vs = {"1"}; } }
        else switch (k) {
        case 0: { int x = int(t.range(-500, 500)); val = std::to_string(x); if (wrong) val = t.pick({val + "x", Str("n"), Str(""), val + ".5", Str("99999999999")}); else m.n = x; val = quote(val); break; }
        case 1: { long x = t.range(-500, 500); val = std::to_string(x); if (wrong) val = t.pick({val + "n", Str("ab"), Str("n=5")}); else m.nab = x; break; }
        case 2: { uint_t x = t.draw(100000); val = std::to_string(x); if (wrong) val = t.pick({val + "q", Str("nab")}); else m.ab = x; break; }
        case 3: { double x = t.range(-99, 99)/8.0; val = to_string(x); if (wrong) val = t.pick({val + "x", Str("one")}); else m.pw = x; val = quote(val); break; }
        case 4: { bool x = t.coin(); val = x ? "1" : "0"; if (wrong) val = t.pick({Str("yes"), Str("2")}); else m.flag = x; break; }
        case 5: { wrong = false; m.s = word(t); val = quote(m.s); break; }
        case 6: { if (t.chance(1, 4) && !wrong) { int x = int(t.range(-50, 50)); m.vi = {x}; val = std::to_string(x); } else { vec1i r; val = list([&] { int x = int(t.range(-50, 50)); r.push_back(x); return std::to_string(x); }); if (wrong) val = t.pick({Str("[1,z,3]"), Str("[1,,2]"), Str("[1,2"), Str("abc")}); else m.vi = r; } break; }
        case 7: { if (t.chance(1, 4) && !wrong) { double x = t.range(-50, 50)/4.0; m.vd = {x}; val = to_string(x); } else { vec1d r; val = list([&] { double x = t.range(-50, 50)/4.0; r.push_back(x); return to_string(x); }); if (wrong) val = t.pick({Str("[0.5,z]"), Str("[1,2")}); else m.vd = r; } break; }
        default: { wrong = false; vec1s r; val = list([&] { Str x = vp::gen_str(t, "abn.x", 1, 4); r.push_back(x); return t.chance(1, 3) ? "'" + x + "'" : x; }); m.vs = r; } }
        Str a = t.pick({Str(), Str(), Str("-"), Str("--")}) + names[k]; if (!noval) { if (t.chance(1, 8)) a += " "; a += "="; if (t.chance(1, 8)) a += " "; a += val; } if (t.chance(1, 10)) a = " " + a + " "; args.push_back(a); if (wrong) ++bad; else ++used; }
    size_t junk = t.draw(3); VS unk; for (size_t i = 0; i < junk; ++i) { Str j = t.pick({Str("unknown=5"), Str("nabx=3"), Str("xn=4"), Str("n2=6"), Str("pw=9"), Str("p=1"), Str("vs=[a]"), Str("-x"), Str("other")}); unk.push_back(j); args.insert(args.begin() + t.draw(args.size() + 1), j); }
    t.note("style ", style, " args ", vp::show(args)); std::ostringstream os; auto* ob = std::cout.rdbuf(os.rdbuf()); try { read(args, v, style); } catch (...) { std::cout.rdbuf(ob); throw; } std::cout.rdbuf(ob); Str why; CHECK(eq(v, m, why), "wrong value for", why, " after ", args); { Str o = os.str(); size_t nw = 0; for (size_t q = o.find("warning: "); q != Str::npos; q = o.find("warning: ", q + 1)) ++nw; CHECK(nw == junk + bad, nw, " warnings for ", junk, " unknown and ", bad, " malformed arguments ", args, ": ", o); for (auto& j : unk) CHECK(o.find("'" + j + "'") != Str::npos, "unknown argument ", j, " is not reported: ", o); } if (used) t.nontrivial(); if (bad) t.label("malformed");
}
SUB("serialize", 2) { // what is written can be read back
    int n = int(t.range(-500, 500)); bool flag = t.coin(); Str s = vp::gen_str(t, "abx._", 1, 6); std::vector<int> x = vp::ints<int>(t, t.size(0, 4), -9, 9); vec1i vi = vp::mk<int>(x); double pw = t.range(-99, 99)/4.0; program_arguments pa(vec1s{}); pa.write(arg_list(n, flag, s, vi)); program_arguments pb(vec1s{}); pb.write(arg_list(name(pw, "pow"))); pa.merge(pb); Str txt = pa.serialize(); t.note(txt); auto words = split(txt, " "); CHECK(words.size() == 5, "serialized as ", txt);
    program_arguments pc(words); int on = n, n2; bool of = flag; Str os = s; { int n = 999; bool flag = true; Str s = "zz"; vec1i vi = {7, 7, 7, 7, 7}; double p = -1e3; pc.read(arg_list(s, n, name(p, "pow"), vi, flag)); n2 = n; CHECK(s == os, "s is ", s); CHECK(flag == of, "flag"); CHECK(p == pw, "pow is ", p); CHECK(vp::tov(vi) == std::vector<int_t>(x.begin(), x.end()), "vector is ", vp::tov(vi)); } CHECK(n2 == on, "n is ", n2); t.nontrivial();
}
