// S05: durations, progress reports, messages, command lines and environment values
#include "vif_h.hpp"
#include <vif/utility/string.hpp>
#include <vif/utility/time.hpp>
#include <vif/utility/os.hpp>
#include <vif/utility/argv.hpp>
#include <fstream>
using namespace vif; using vp::Tape; using Str = std::string; using VS = std::vector<Str>;
struct Cap { std::ostringstream o; std::streambuf* b; Cap() { b = std::cout.rdbuf(o.rdbuf()); } ~Cap() { std::cout.rdbuf(b); } };
// parse "1d02h03m04s" or "12ms034us": number, unit pairs; -1 if malformed
static double parse(const Str& s, const std::vector<std::pair<Str,double>>& units, bool& ok) {
    double r = 0; size_t i = 0, last = 0; ok = !s.empty(); while (i < s.size() && ok) { size_t j = i; while (j < s.size() && std::isdigit(s[j])) ++j; if (j == i) { ok = false; break; } double v = std::stod(s.substr(i, j - i)); size_t k = j; while (k < s.size() && !std::isdigit(s[k])) ++k; Str u = s.substr(j, k - j); bool f = false; for (size_t q = last; q < units.size(); ++q) if (units[q].first == u) { r += v*units[q].second; last = q + 1; f = true; if (i > 0 && j - i < (u.size() == 2 ? 3u : 2u)) ok = false; break; } if (!f) ok = false; i = k; } return r;
}
SUB("time_str", 4) {
    double t0; switch (t.draw(5)) { case 0: t0 = t.unit(); break; case 1: t0 = std::pow(10.0, -9 + 9*t.unit()); break; case 2: t0 = double(t.range(1, 400000)); break; case 3: t0 = double(t.pick({60, 3600, 86400, 3599, 86399, 59, 1, 90000, 3660, 86460, 172800})) + (t.coin() ? 0.5 : 0); break; default: t0 = 1 + 200000*t.unit(); } Str s = time_str(t0); t.note(t0, " ", s); bool ok;
    if (t0 < 1) { double v = parse(s, {{"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}}, ok); CHECK(ok, "malformed ", s); double res = s.find("ms") != Str::npos ? 1e-3 : s.find("us") != Str::npos ? 1e-6 : 1e-9; CHECK(std::fabs(v - t0) <= 0.5001*res, "duration ", t0, " is ", s); CHECK(t0 < 1.001e-9 || res <= t0*1.0001 , "duration ", t0, " is given as ", s); }
    else { double v = parse(s, {{"d", 86400}, {"h", 3600}, {"m", 60}, {"s", 1}}, ok); CHECK(ok && s.back() == 's', "malformed ", s); CHECK(v == std::floor(t0), "duration ", t0, " is ", s); CHECK(s[0] != '0' || s == "0s", "leading zero in ", s); } if (t0 > 60) t.nontrivial();
}
SUB("seconds_str", 3) {
    uint64_t ns = t.coin() ? t.draw(1000000000ull) : t.draw(5000000000000ull); if (t.chance(1, 4)) ns = ns/1000*1000; if (t.chance(1, 6)) ns = ns/1000000*1000000; double x = double(ns)*1e-9; Str s = seconds_str(x); t.note(x, " ", s); bool ok; double v = parse(s, {{"s", 1}, {"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}}, ok); CHECK(ok && s.size() > 2 && s.substr(s.size() - 2) == "ns", "malformed ", s); CHECK(std::fabs(v - x) <= 1.1e-9 + 1e-12*x, "duration ", x, " is ", s); CHECK(s[0] != '0' || s == "0ns", "leading zero in ", s); if (ns > 1000) t.nontrivial();
}
SUB("progress", 4) { // the bar counts every iteration up to the last, and ends with a line break
    size_t n = t.chance(1, 3) ? 1 + t.draw(5) : 1 + t.draw(120); int kind = int(t.draw(3)); size_t mod = 1 + t.draw(5); Str o; bool ended; { Cap c; auto p = progress_start(n); for (size_t i = 0; i < n; ++i) { if (kind == 0) progress(p, mod); else if (kind == 1) print_progress(p, i, mod); else progress_tick(p, 0.5*t.draw(3)); if (i + 1 < n) CHECK(!p.ended, "ended at iteration ", int(i), " of ", int(n)); } ended = p.ended; size_t len = c.o.str().size(); if (kind == 0) progress(p); else if (kind == 1) print_progress(p, n); else progress_tick(p, 0); CHECK(c.o.str().size() == len, "output after the end"); o = c.o.str(); } t.note(kind, " ", int(n), " ", int(mod)); CHECK(ended, "not ended"); CHECK(!o.empty() && o.back() == '\n' && o.find('\n') == o.size() - 1, "line breaks");
    size_t prev = 0, cnt = 0, maxl = 0; for (size_t b = o.find('\r'); b != Str::npos; b = o.find('\r', b + 1)) { size_t e = o.find('\r', b + 1); Str m = o.substr(b + 1, (e == Str::npos ? o.size() - 1 : e) - b - 1); size_t x = m.find(']'); CHECK(m[0] == '[' && x == 33, "bar ", m); size_t dash = 0; while (dash < 32 && m[1 + dash] == '-') ++dash; CHECK(m.substr(1 + dash, 32 - dash) == Str(32 - dash, ' '), "bar ", m); size_t it = std::stoul(m.substr(x + 1)); CHECK(it >= 1 && it <= n && it > prev - (kind == 2 && prev ? 1 : 0), "count ", int(it), " after ", int(prev), " of ", int(n)); CHECK(dash == 32*it/n, "bar of ", int(dash), " at ", int(it), " of ", int(n)); size_t pc = m.find('%'); CHECK(pc != Str::npos && std::stoul(m.substr(pc - 3, 3)) == 100*it/n, "percentage ", m); CHECK(m.size() >= maxl, "shorter than the line it replaces"); maxl = m.size(); prev = it; ++cnt; }
    CHECK(prev == n, "last count is ", int(prev), " of ", int(n)); if (kind < 2) { size_t w = 0; for (size_t i = 0; i < n; ++i) w += i % mod == 0 || i == n - 1; CHECK(cnt == w, "number of updates ", int(cnt), " expected ", int(w)); } if (n > 2) t.nontrivial();
}
SUB("messages", 2) { Str a = vp::gen_str(t, "ab c\t", 0, 8); int b = int(t.range(-99, 99)); double d = double(t.range(-99, 99))/4; vec1i v = {b, 2}; Cap c; Str w = a + std::to_string(b) + to_string(d); std::ostringstream q; q << a << b << d; switch (t.draw(4)) { case 0: print(a, b, d); CHECK(c.o.str() == q.str() + "\n", "print"); break; case 1: error(a, b, d); CHECK(c.o.str() == "error: " + q.str() + "\n", "error"); break; case 2: warning(a, b, d); CHECK(c.o.str() == "warning: " + q.str() + "\n", "warning"); break; default: note(a, b, d); CHECK(c.o.str() == "note: " + q.str() + "\n", "note"); } t.nontrivial(); }
SUB("prompt", 1) { size_t bad = t.draw(3); Str in; for (size_t i = 0; i < bad; ++i) in += t.pick({Str("abc"), Str("1 2"), Str("3x"), Str("")}) + "\n"; int w = int(t.range(-999, 999)); in += Str(t.draw(2), ' ') + std::to_string(w) + Str(t.draw(2), ' ') + "\n"; std::istringstream s(in); auto* b = std::cin.rdbuf(s.rdbuf()); std::cin.clear(); int v = 12345; Str o; { Cap c; prompt("value? ", v, "try again"); o = c.o.str(); } std::cin.rdbuf(b); CHECK(v == w, "answer ", v, " expected ", w); size_t k = 0; for (size_t p = o.find("try again"); p != Str::npos; p = o.find("try again", p + 1)) ++k; CHECK(k == bad, "asked again ", int(k), " times instead of ", int(bad)); if (bad) t.nontrivial(); }
SUB("environment", 2) { Str n = "VPTESTVAR" + std::to_string(t.draw(3)); unsetenv(n.c_str()); int def = int(t.range(-9, 9)); CHECK(system_var<int>(n, def) == def && system_var(n, "dd") == "dd" && system_var(n, Str("ee")) == "ee", "default of an unset variable"); Str s = vp::gen_str(t, "ab= 1-", 0, 6); setenv(n.c_str(), s.c_str(), 1); CHECK(system_var(n, "dd") == s && system_var(n, Str("dd")) == s, "value of a variable"); int v = int(t.range(-9999, 9999)); setenv(n.c_str(), std::to_string(v).c_str(), 1); CHECK(system_var<int>(n, def) == v, "number in a variable"); CHECK(system_var<double>(n, 0.5) == double(v), "number in a variable"); setenv(n.c_str(), "zz", 1); CHECK(system_var<int>(n, def) == def, "default of a malformed variable"); unsetenv(n.c_str()); t.nontrivial(); }
SUB("command", 3) { // a command line can be given back to a shell
    size_t n = t.draw(5); VS a = {"prog"}; for (size_t i = 0; i < n; ++i) a.push_back(t.coin() ? vp::gen_str(t, "abc1.", 1, 5) : t.coin() ? vp::gen_str(t, "ab", 1, 3) + "=" + vp::gen_str(t, "ab \t=,[]1", 0, 8) : vp::gen_str(t, "ab c", 1, 8)); std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); Str c = make_cmd(int(av.size()), av.data()); t.note(vp::show(a), " ", c); VS g; Str cur; bool in = false, q = false; for (char ch : c) { if (ch == '"') { q = !q; in = true; } else if (!q && (ch == ' ' || ch == '\t')) { if (in) g.push_back(cur); cur.clear(); in = false; } else { cur += ch; in = true; } } if (in) g.push_back(cur); CHECK(!q && g == a, "command ", c, " is split into ", g, " expected ", a);
    Str f = vp::scratch() + "/args"; save_args(f, "pp", int(av.size()), av.data()); std::ifstream s(f); Str line((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()), w = "pp"; for (size_t i = 1; i < a.size(); ++i) w += " " + a[i]; CHECK(line == w, "saved arguments ", line, " expected ", w); if (n) t.nontrivial();
}
// dates other than the one of the run
static bool fake = false; static tm fake_tm;
extern "C" tm* gmtime_r(const time_t*, tm*) noexcept;
extern "C" tm* localtime_r(const time_t* c, tm* r) noexcept { if (fake) *r = fake_tm; else gmtime_r(c, r); return r; }
extern "C" tm* localtime(const time_t* c) noexcept { static tm r; return localtime_r(c, &r); }
SUB("today", 1) { time_t q = time_t(t.draw(200*365))*86400 + time_t(t.draw(86400)); gmtime_r(&q, &fake_tm); char b[20]; strftime(b, 20, "%Y%m%d", &fake_tm); fake = true; Str a = today(); fake = false; t.note(a); CHECK(a == b, "date ", a, " expected ", b); t.nontrivial(); }
SUB("profile", 1) { size_t n = t.draw(6), k = 0; double d = profile([&] { ++k; }, n); CHECK(k == n, "ran ", int(k), " times instead of ", int(n)); CHECK(d >= 0 && d < 5, "time ", d); profile([&] { ++k; }); CHECK(k == n + 1, "ran"); Str a = today(); time_t q = time(nullptr); tm* m = localtime(&q); char b[20]; strftime(b, 20, "%Y%m%d", m); Str c = today(); CHECK(a == b || c == b, "today is ", a); Str f = vp::scratch() + "/sp"; ::unlink(f.c_str()); CHECK(spawn("touch " + f) && ::access(f.c_str(), F_OK) == 0, "spawn"); CHECK(!spawn("test -e " + f + "none"), "failed command not reported"); if (n) t.nontrivial(); }
