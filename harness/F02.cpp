// F02: file operations have the documented effect on the tree, and only that one: after every call the
// whole scratch tree equals a reference model, and the returned status tells what really happened.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/string.hpp>
#include <vif/io/filesystem.hpp>
#include <fnmatch.h>
using namespace vif;
using vp::Tape; using Str = std::string; using VS = std::vector<Str>;
struct Node { bool dir; Str data; };
using Tree = std::map<Str, Node>; // path relative to the root
static void wipe(const Str& p, const Str& root) { if (p.size() < 10 || p.compare(0, root.size(), root) != 0) return; struct stat st; if (lstat(p.c_str(), &st)) return; if (S_ISDIR(st.st_mode)) { DIR* d = opendir(p.c_str()); if (d) { VS n; while (dirent* e = readdir(d)) { Str k = e->d_name; if (k != "." && k != "..") n.push_back(k); } closedir(d); for (auto& k : n) wipe(p + "/" + k, root); } ::rmdir(p.c_str()); } else ::unlink(p.c_str()); }
static void walk(const Str& p, const Str& rel, Tree& r) { DIR* d = opendir(p.c_str()); if (!d) return; VS n; while (dirent* e = readdir(d)) { Str k = e->d_name; if (k != "." && k != "..") n.push_back(k); } closedir(d); for (auto& k : n) { Str q = p + "/" + k, rr = rel.empty() ? k : rel + "/" + k; struct stat st; lstat(q.c_str(), &st); if (S_ISDIR(st.st_mode)) { r[rr] = Node{true, ""}; walk(q, rr, r); } else { std::ifstream f(q, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); r[rr] = Node{false, ss.str()}; } } }
static Str dump(const Tree& t) { Str r; for (auto& k : t) r += k.first + (k.second.dir ? "/ " : "=" + vp::quote(k.second.data) + " "); return r; }
static void same(const Str& root, const Tree& m, const Str& what) { Tree g; walk(root, "", g); bool ok = g.size() == m.size(); if (ok) for (auto& k : m) { auto i = g.find(k.first); if (i == g.end() || i->second.dir != k.second.dir || i->second.data != k.second.data) ok = false; } CHECK(ok, what, ": tree is ", dump(g), " expected ", dump(m)); }
static Str squeeze_(Str s) { Str r; for (char c : s) if (c != (char)47 || r.empty() || r.back() != (char)47) r += c; return r; }
static Str parent(const Str& p) { auto k = p.find_last_of('/'); return k == p.npos ? Str() : p.substr(0, k); }
static bool isdir(const Tree& m, const Str& p) { if (p.empty()) return true; auto i = m.find(p); return i != m.end() && i->second.dir; }
static bool isfile(const Tree& m, const Str& p) { auto i = m.find(p); return i != m.end() && !i->second.dir; }
static bool haschild(const Tree& m, const Str& p) { for (auto& k : m) if (k.first.compare(0, p.size() + 1, p + "/") == 0) return true; return false; }
static Str gen_path(Tape& t) { static const VS names = {"a", "b", "c.txt", "a.txt", ".h", "with space"}; Str p; size_t n = 1 + t.draw(3); for (size_t i = 0; i < n; ++i) { if (i) p += "/"; p += names[t.draw(names.size())]; } return p; }
static Str content(Tape& t) { size_t n = t.pick({size_t(0), size_t(1), size_t(t.draw(20)), size_t(9000)}); Str s(n, 0); uint64_t k = t.draw(1000); for (size_t i = 0; i < n; ++i) s[i] = char((i*31 + k*7 + (i >> 8)) & 255); return s; }
struct Root { Str p; Root() { static int n = 0; p = vp::scratch() + "/t" + std::to_string(n++); ::mkdir(p.c_str(), 0755); } ~Root() { wipe(p, vp::scratch()); } };
SUB("operations", 6) {
    Root R; Tree m; size_t n = 1 + t.draw(12), eff = 0; 
    for (size_t s = 0; s < n; ++s) { Str p = gen_path(t), q = gen_path(t); Str P = R.p + "/" + p, Q = R.p + "/" + q; Str what;
        switch (t.draw(8)) {
        case 0: case 1: { what = "write " + p; Str d = content(t); std::ofstream f(P, std::ios::binary); bool ok = isdir(m, parent(p)) && !isdir(m, p); if (ok) { f << d; m[p] = Node{false, d}; } break; }
        case 2: case 3: { Str tail = t.chance(1, 5) ? "/" : ""; what = "mkdir " + p; bool ok = true; Str q2; for (auto& c : vp::tov(split(p, "/"))) { q2 += (q2.empty() ? "" : "/") + c; if (isfile(m, q2)) { ok = false; break; } if (!isdir(m, q2)) { m[q2] = Node{true, ""}; ++eff; } } t.note(what); CHECK(file::mkdir(P + tail) == ok, what, " returned ", !ok, " in ", dump(m)); break; }
        case 4: { what = "copy " + p + " -> " + q; t.note(what); bool self = p == q; if (isdir(m, p)) break; bool ok = isfile(m, p) && isdir(m, parent(q)) && !isdir(m, q); bool r = file::copy(P, Q); CHECK(r == ok, what, " returned ", r, " in ", dump(m)); if (ok && !self) { m[q] = m[p]; ++eff; } break; }
        case 5: { what = "remove " + p; t.note(what); if (isdir(m, p) && haschild(m, p)) { bool r = file::remove(P); if (r) { for (auto i = m.begin(); i != m.end(); ) if (i->first == p || i->first.compare(0, p.size() + 1, p + "/") == 0) i = m.erase(i); else ++i; } } else { bool r = file::remove(P); CHECK(r, what, " failed in ", dump(m)); if (m.erase(p)) ++eff; } break; }
        case 6: { what = "move " + p + " -> " + q; t.note(what); bool ok; if (isfile(m, p)) ok = isdir(m, parent(q)) && !isdir(m, q); else if (isdir(m, p)) { if (m.count(q) || q.compare(0, p.size() + 1, p + "/") == 0) break; ok = isdir(m, parent(q)); } else ok = false; bool r = file::move(P, Q); CHECK(r == ok, what, " returned ", r, " in ", dump(m)); if (ok && p != q) { Tree o; for (auto& k : m) { if (k.first == p) o[q] = k.second; else if (k.first.compare(0, p.size() + 1, p + "/") == 0) o[q + k.first.substr(p.size())] = k.second; else if (k.first != q) o[k.first] = k.second; } m = o; ++eff; } break; }
        default: { what = "read " + p; if (isdir(m, p)) break; CHECK(file::to_string(P) == (isfile(m, p) ? m[p].data : Str()), "to_string(", p, ") differs from the content"); } }
        same(R.p, m, what); CHECK(file::exists(P) == (m.count(p) > 0), "exists(", p, ") is ", file::exists(P), " in ", dump(m)); t.evals(2);
    }
    vec1s ps; for (auto& k : m) ps.push_back(R.p + "/" + k.first); ps.push_back(R.p + "/nope"); auto ex = file::exists(ps); for (size_t i = 0; i < ps.size(); ++i) CHECK(ex[i] == (i + 1 < ps.size()), "vectorised exists"); CHECK(!file::exists("")); if (eff > 1) t.nontrivial();
}
SUB("listing", 4) {
    Root R; Tree m; size_t n = t.size(0, 7); static const VS names = {"a.txt", "b.txt", "ab.fits", "c", ".hidden", ".hd", "sub", "sub2", "x y.txt", "..z"}; for (size_t i = 0; i < n; ++i) { Str k = names[t.draw(names.size())]; if (m.count(k)) continue; bool d = t.chance(2, 5); Str dat = d ? "" : Str(t.draw(30), 'x'); m[k] = Node{d, dat}; if (d) ::mkdir((R.p + "/" + k).c_str(), 0755); else std::ofstream(R.p + "/" + k) << dat; if (d && t.coin()) std::ofstream(R.p + "/" + k + "/inner.txt") << 1; }
    Str pat = t.pick({Str(""), Str("*"), Str("*.txt"), Str("a*"), Str("s*"), Str("*b*"), Str("zz*"), Str("*2")}); Str dir = R.p + (t.coin() ? "/" : ""); t.note("pattern ", vp::quote(pat), " in ", dump(m)); std::set<Str> wf, wd, wa; for (auto& k : m) { bool mt = pat.empty() || pat == "*" || fnmatch(pat.c_str(), k.first.c_str(), 0) == 0; if (!mt) continue; wa.insert(k.first); if (k.first[0] == '.') continue; (k.second.dir ? wd : wf).insert(k.first); }
    auto f = pat == "*" && t.coin() ? file::list_files(dir) : file::list_files(dir, pat); auto d = pat == "*" && t.coin() ? file::list_directories(dir) : file::list_directories(dir, pat); vp::valid(f, "list_files"); auto fv = vp::tov(f), dv = vp::tov(d); CHECK(std::set<Str>(fv.begin(), fv.end()) == wf && fv.size() == wf.size(), "list_files gives ", fv); CHECK(std::set<Str>(dv.begin(), dv.end()) == wd && dv.size() == wd.size(), "list_directories gives ", dv);
    file::explorer e; size_t reps = 1 + t.draw(3); for (size_t r = 0; r < reps; ++r) { bool ok = e.open(R.p, pat); CHECK(ok, "explorer cannot open"); std::set<Str> got; file::explorer::file_data fd; size_t stop = t.chance(1, 3) ? t.draw(3) : 1000; bool full = stop == 1000; while (stop-- > 0 && e.find_next(fd)) { if (fd.name == "." || fd.name == "..") continue; CHECK(got.insert(fd.name).second, "listed twice: ", fd.name); CHECK(m.count(fd.name), "lists a file that does not exist: ", fd.name); auto& k = m[fd.name]; CHECK(fd.is_dir == k.dir, "is_dir of ", fd.name); CHECK(fd.is_hidden == (fd.name[0] == '.'), "is_hidden of ", fd.name); if (!k.dir) CHECK(fd.size == k.data.size(), "size of ", fd.name, " is ", fd.size); CHECK(squeeze_(fd.full_path) == R.p + "/" + fd.name, "full_path ", fd.full_path); } if (full) CHECK(got == wa, "explorer misses entries"); if (t.coin()) { e.close(); CHECK(!e.find_next(fd), "closed explorer still lists"); if (t.coin()) e.close(); } }
    bool bad = e.open(R.p + "/nope", pat); file::explorer::file_data fd; CHECK(!bad && !e.find_next(fd), "missing directory listed"); CHECK(file::list_files(R.p + "/nope", pat).empty() && file::list_directories(R.p + "/nope").empty()); if (wf.size() + wd.size() > 1) t.nontrivial();
}
SUB("older", 1) {
    Root R; Str a = R.p + "/a", b = R.p + "/b"; std::ofstream(a) << 1; std::ofstream(b) << 2; long ta = 1000000000 + t.range(-5, 5)*100, tb = 1000000000 + t.range(-5, 5)*100; struct timeval va[2] = {{2000000000 - ta, 0}, {ta, 0}}, vb[2] = {{2000000000 - tb, 0}, {tb, 0}}; ::utimes(b.c_str(), vb); ::utimes(a.c_str(), va); t.note(ta, " ", tb); CHECK(file::is_older(a, b) == (ta < tb), "is_older"); CHECK(file::is_older(b, a) == (tb < ta)); CHECK(!file::is_older(a, a)); CHECK(!file::is_older(a, R.p + "/n") && !file::is_older(R.p + "/n", a)); vec1s v = {a, b}; auto r = file::is_older(v, b); CHECK(r[0] == (ta < tb) && !r[1]); if (ta != tb) t.nontrivial();
}
SUB("faults", 1) { // destinations that cannot be written
    Root R; Str a = R.p + "/a"; Str d = content(t); std::ofstream(a, std::ios::binary) << d; std::ofstream(R.p + "/f") << 1; Str to = t.pick({Str("/dev/full"), R.p + "/no/x", R.p + "/f/x", R.p}); t.note(to, " ", d.size()); bool r = file::copy(a, to); CHECK(r == (to == "/dev/full" && d.empty()), "copy of ", d.size(), " bytes to ", to, " returned ", r); CHECK(file::to_string(a) == d, "source modified"); CHECK(!file::copy(R.p + "/none", R.p + "/y") && !file::exists(R.p + "/y"), "copy of a missing file left something"); CHECK(!file::mkdir(R.p + "/f/x") && !file::mkdir(R.p + "/f")); CHECK(file::to_string(R.p + "/f") == "1"); CHECK(file::mkdir("")); if (d.size()) t.nontrivial();
}
KNOWN("K1", "file::remove() on a directory that is not empty returns false and removes nothing, while it is documented as equivalent to rm -rf") { Root R; ::mkdir((R.p + "/d").c_str(), 0755); std::ofstream(R.p + "/d/x") << 1; return file::remove(R.p + "/d") && !file::exists(R.p + "/d"); }
