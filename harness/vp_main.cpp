// Runner of the property-based testing engine: parallel generation, crash isolation,
// shrinking, replay and evidence. Knows nothing about the code under test.
#include "vp.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <cerrno>
#include <atomic>
#include <cstdio>

namespace vp {
std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
std::vector<Known>& knowns() { static std::vector<Known> s; return s; }
static std::string g_scratch; static bool g_quick = true;
bool quick() { return g_quick; }
static pid_t g_scratch_pid = 0; static std::string g_scratch_sub;
std::string scratch() {
    if (g_scratch_pid != getpid()) {
        g_scratch_pid = getpid();
        g_scratch_sub = g_scratch + "/p" + std::to_string(getpid());
        ::mkdir(g_scratch_sub.c_str(), 0755);
    }
    return g_scratch_sub;
}
}
using namespace vp;

static void rmtree(const std::string& p) {
    if (p.compare(0, 8, "/tmp/vp-") != 0) return; // only ever our own scratch directory
    struct stat st; if (lstat(p.c_str(), &st) != 0) return;
    if (S_ISDIR(st.st_mode)) {
        chmod(p.c_str(), 0755);
        if (DIR* d = opendir(p.c_str())) {
            while (auto* e = readdir(d)) {
                std::string n = e->d_name; if (n == "." || n == "..") continue;
                rmtree(p + "/" + n);
            }
            closedir(d);
        }
        ::rmdir(p.c_str());
    } else ::unlink(p.c_str());
}

static double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9*ts.tv_nsec; }

enum Outcome { pass = 0, discarded = 1, failed = 3, crashed = 4, hung = 5 };

// stream buffer that swallows everything the library prints
struct NullBuf : std::streambuf { int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static NullBuf nullbuf;

static std::vector<unsigned> pick_table;
static void build_table() { for (size_t i = 0; i < subs().size(); ++i) for (unsigned k = 0; k < subs()[i].weight; ++k) pick_table.push_back(i); }
static int only_sub = -1;

static Outcome run_tape(Tape& t, std::string& msg, int& sub) {
    unsigned k = t.draw(pick_table.size());
    sub = pick_table[k];
    if (only_sub >= 0 && sub != only_sub) return discarded;
    try { subs()[sub].fn(t); return pass; }
    catch (Discard&) { return discarded; }
    catch (Fail& f) { msg = f.m; return failed; }
    catch (Exited& e) { msg = "the library reported a fatal error on a valid input"; return failed; }
    catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return failed; }
    catch (...) { msg = "unexpected exception of unknown type"; return failed; }
}

static const size_t MAXT = 1 << 18;
struct Shared {
    std::atomic<int> stop;
    struct W { std::atomic<uint64_t> cur, done, nontriv, disc, inner; std::atomic<double> start; std::atomic<int> active; } w[64];
    std::atomic<uint64_t> distinct;
    std::atomic<uint64_t> subcount[128], subnt[128];
    char msg[64][4096];
    // used by isolated runs
    uint64_t tn; uint64_t tape[MAXT]; char imsg[8192]; char inotes[1 << 16]; int isub;
};
static Shared* sh; static std::atomic<uint64_t>* table; static const uint64_t TBITS = 24;

static bool insert_hash(uint64_t h) {
    if (!h) h = 1;
    uint64_t m = (uint64_t(1) << TBITS) - 1;
    for (uint64_t k = 0; k < 64; ++k) {
        auto& s = table[(h + k) & m]; uint64_t e = s.load();
        if (e == h) return false;
        if (e == 0) { uint64_t z = 0; if (s.compare_exchange_strong(z, h)) return true; if (z == h) return false; }
    }
    return false;
}
static uint64_t hash_tape(const std::vector<uint64_t>& v) { uint64_t h = 88172645463325252ull; for (auto x : v) h = mix(h ^ x) + 0x1234567; return h; }

static void put(char* dst, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(dst, s.data(), k); dst[k] = 0; }

static double hang_s = 25;

// Run one tape in a child process. Notes/message/canonical tape come back through shared memory.
static Outcome isolated(const std::vector<uint64_t>& in, bool noting, std::vector<uint64_t>& out, std::string& msg, std::string& notes, int& sub, unsigned repeat = 1) {
    sh->tn = 0; sh->imsg[0] = 0; sh->inotes[0] = 0; sh->isub = -1;
    pid_t p = fork();
    if (p == 0) {
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
        if (!getenv("VP_STDERR")) dup2(nul, 2);
        Outcome o = pass; std::string m; int s = -1;
        for (unsigned r = 0; r < repeat && o != failed; ++r) {
            Tape t = Tape::replay(in); t.noting = noting; sh->tn = 0; t.live = sh->tape; t.live_n = &sh->tn; t.live_max = MAXT; t.live_notes = sh->inotes; t.live_notes_max = sizeof sh->inotes;
            if (!in.empty() && in[0] < pick_table.size()) sh->isub = pick_table[in[0]];
            o = run_tape(t, m, s);
            sh->isub = s;
            put(sh->imsg, sizeof sh->imsg, m); put(sh->inotes, sizeof sh->inotes, t.notes);
        }
        _exit(o);
    }
    double t0 = now(); int st = 0; Outcome o;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > hang_s) { kill(p, SIGKILL); waitpid(p, &st, 0); msg = "case does not terminate"; sub = sh->isub; out = in; return hung; }
        usleep(300);
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == pass || WEXITSTATUS(st) == discarded)) o = Outcome(WEXITSTATUS(st));
    else if (WIFEXITED(st) && WEXITSTATUS(st) == failed) o = failed;
    else o = crashed;
    sub = sh->isub; msg = sh->imsg; notes = sh->inotes;
    if (o == crashed) {
        msg = WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st)) + " (memory error, arithmetic trap or uncaught exception)"
                              : "process ended with status " + std::to_string(WEXITSTATUS(st)) + " (memory error detected by AddressSanitizer, or exit from the library)";
        out.assign(sh->tape, sh->tape + sh->tn);
    } else out.assign(sh->tape, sh->tape + sh->tn);
    return o;
}
static bool bad(Outcome o) { return o == failed || o == crashed || o == hung; }

static std::vector<uint64_t> shrink(std::vector<uint64_t> cur, int sub0, unsigned repeat) {
    double t0 = now(); size_t execs = 0;
    auto left = [&] { return now() - t0 < 45 && execs < 6000; };
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (!left()) return false;
        ++execs;
        std::vector<uint64_t> o; std::string m, n; int s;
        Outcome r = isolated(c, false, o, m, n, s, repeat);
        if (!bad(r) || r == hung || s != sub0) return false;
        if (o.size() < c.size() || (o.size() == c.size())) { cur = o; }
        else cur = c;
        return true;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        // delete blocks
        for (size_t blk : {32u, 16u, 8u, 4u, 2u, 1u}) {
            if (cur.size() <= blk) continue;
            for (size_t i = cur.size() - blk; i >= 1 && left(); --i) {
                if (i + blk > cur.size()) continue;
                std::vector<uint64_t> c(cur.begin(), cur.begin() + i);
                c.insert(c.end(), cur.begin() + i + blk, cur.end());
                if (attempt(c)) progress = true;
            }
        }
        // zero blocks and minimise values
        for (size_t i = 1; i < cur.size() && left(); ++i) {
            if (cur[i] == 0) continue;
            auto c = cur; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = cur[i];
            while (lo + 1 < hi && left()) {
                uint64_t mid = lo + (hi - lo)/2; c = cur; if (i >= c.size()) break; c[i] = mid;
                if (attempt(c)) { hi = mid; progress = true; if (i >= cur.size() || cur[i] != mid) break; } else lo = mid;
            }
        }
        // delete one while decrementing an earlier one (lengths)
        for (size_t i = 1; i < cur.size() && left(); ++i) {
            if (cur[i] == 0 || cur.size() > 400) continue;
            for (size_t j = i + 1; j < cur.size() && j < i + 12 && left(); ++j) {
                auto c = cur; --c[i]; c.erase(c.begin() + j);
                if (attempt(c)) { progress = true; break; }
            }
        }
    }
    return cur;
}

static std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static std::vector<uint64_t> read_tape(const std::string& f) {
    std::ifstream in(f); std::string line; std::vector<uint64_t> v;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream is(line); uint64_t x; while (is >> x) v.push_back(x);
    }
    return v;
}

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:exitcode=77:handle_sigfpe=1:detect_stack_use_after_return=0:allow_user_segv_handler=0:quarantine_size_mb=16:detect_container_overflow=1";
}

#ifdef VP_FUZZ
// Coverage guided driver: same property functions, choices decoded from the fuzzer's bytes.
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    build_table();
    char tmp[] = "/tmp/vp-XXXXXX"; g_scratch = mkdtemp(tmp);
    const char* root = getenv("VP_FUZZ_SCRATCH"); if (root) { ::rmdir(tmp); g_scratch = root; }
    std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    Tape t = Tape::from_bytes(d, n); std::string m; int s;
    // the choices are written before running so that a crash leaves them behind
    Outcome o = run_tape(t, m, s);
    if (o == failed) {
        const char* f = getenv("VP_FUZZ_OUT");
        std::ofstream of(f ? f : "fuzz-fail.tape"); for (auto x : t.out) of << x << "\n"; of.close();
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char** argv) {
    std::map<std::string,std::string> opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0) { std::string v = (i + 1 < argc) ? argv[i+1] : ""; opt[a.substr(2)] = v; ++i; }
    }
    auto get = [&](const char* k, const std::string& d) { auto it = opt.find(k); return it == opt.end() ? d : it->second; };
    std::string prop = get("prop", "X00"), tier = get("tier", "quick"), rule = get("rule", "");
    g_quick = tier == "quick";
    uint64_t seed = strtoull(get("seed", "1").c_str(), nullptr, 10);
    uint64_t ncases = strtoull(get("cases", "100000").c_str(), nullptr, 10);
    double maxtime = atof(get("maxtime", "90").c_str());
    int jobs = atoi(get("jobs", "8").c_str());
    if (opt.count("hang")) hang_s = atof(get("hang", "25").c_str());
    std::string evidence = get("evidence", ""), replaydir = get("replaydir", "."), sub = get("sub", "");
    build_table();
    if (!sub.empty()) for (size_t i = 0; i < subs().size(); ++i) if (subs()[i].name == sub) only_sub = i;
    if (!sub.empty()) { if (only_sub < 0) { std::cerr << "no such sub-test\n"; return 2; } pick_table.clear(); for (size_t i = 0; i < subs().size(); ++i) for (unsigned k = 0; k < subs()[i].weight; ++k) pick_table.push_back(i); }

    char tmp[] = "/tmp/vp-XXXXXX";
    if (!mkdtemp(tmp)) { perror("mkdtemp"); return 2; }
    g_scratch = tmp;
    std::string scratch_root = tmp;

    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    table = (std::atomic<uint64_t>*)mmap(nullptr, sizeof(uint64_t) << TBITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 2; }

    auto* out_buf = std::cout.rdbuf(); auto* err_buf = std::cerr.rdbuf();

    if (opt.count("replay")) {
        std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf);
        std::vector<uint64_t> in = read_tape(opt["replay"]), o; std::string m, n; int s;
        unsigned rep = 1;
        if (!in.empty()) rep = subs()[pick_table[in[0] % pick_table.size()]].repeat;
        Outcome r = isolated(in, true, o, m, n, s, rep);
        std::cout.rdbuf(out_buf); std::cerr.rdbuf(err_buf);
        std::cout << "sub-test: " << (s >= 0 ? subs()[s].name : "?") << "\n" << n << (bad(r) ? "FAILED: " : "held ") << m << std::endl;
        rmtree(scratch_root);
        return bad(r) ? 1 : 0;
    }
    if (opt.count("list")) { for (auto& s : subs()) std::cout << s.name << " " << s.weight << "\n"; rmtree(scratch_root); return 0; }

    double t0 = now();
    for (auto& w : sh->w) { w.cur = 0; w.active = 0; }
    std::vector<pid_t> pids(jobs, 0);
    std::vector<uint64_t> next(jobs);
    for (int j = 0; j < jobs; ++j) next[j] = j;

    auto case_seed = [&](uint64_t i) { return mix(seed*0x9e3779b97f4a7c15ull ^ mix(i + 1)); };

    auto spawn = [&](int j) {
        pid_t p = fork();
        if (p == 0) {
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); if (!getenv("VP_STDERR")) dup2(nul, 2);
            std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf);
            auto& W = sh->w[j];
            for (uint64_t i = next[j]; i < ncases; i += jobs) {
                if (sh->stop.load() || now() - t0 > maxtime) break;
                W.cur = i; W.start = now(); W.active = 1;
                Tape t = Tape::random(case_seed(i)); std::string m; int s = -1;
                Outcome o = run_tape(t, m, s);
                W.active = 0;
                if (o == failed) { put(sh->msg[j], 4096, m); _exit(failed); }
                ++W.done; W.inner += t.inner;
                if (o == discarded) ++W.disc;
                else {
                    ++sh->subcount[s];
                    if (t.nontriv) { ++sh->subnt[s]; ++W.nontriv; if (insert_hash(hash_tape(t.out))) ++sh->distinct; }
                }
            }
            _exit(0);
        }
        pids[j] = p;
    };
    for (int j = 0; j < jobs; ++j) spawn(j);

    int violations = 0; uint64_t unrepro = 0, hang_n = 0; std::string vline;
    int live = jobs;
    while (live > 0) {
        for (int j = 0; j < jobs; ++j) {
            if (!pids[j]) continue;
            int st; pid_t r = waitpid(pids[j], &st, WNOHANG);
            bool failure = false; bool hang = false;
            if (r == pids[j]) {
                pids[j] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --live; continue; }
                failure = true;
            } else if (sh->w[j].active.load() && now() - sh->w[j].start.load() > hang_s) {
                kill(pids[j], SIGKILL); waitpid(pids[j], &st, 0); pids[j] = 0; failure = true; hang = true; ++hang_n;
            }
            if (!failure) continue;
            uint64_t ci = sh->w[j].cur.load();
            sh->w[j].active = 0;
            if (violations) { --live; continue; }
            sh->stop = 1;
            // regenerate the tape of the failing case: in-process generation may crash, so the
            // choices are recorded by a child that writes them as it goes
            std::vector<uint64_t> tape;
            {
                sh->tn = 0;
                pid_t p = fork();
                if (p == 0) {
                    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
                    std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf);
                    struct T2 { };
                    Tape t = Tape::random(case_seed(ci));
                    // generous pre-drawn tape: same generator stream, raw 64 bit values are reduced on use
                    std::vector<uint64_t> raws(MAXT/4);
                    for (auto& x : raws) x = t.raw64();
                    memcpy(sh->tape, raws.data(), raws.size()*8); sh->tn = raws.size();
                    _exit(0);
                }
                waitpid(p, &st, 0);
                tape.assign(sh->tape, sh->tape + sh->tn);
                // the sub-test index is drawn first
                if (!tape.empty()) tape[0] %= pick_table.size();
            }
            std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf);
            std::vector<uint64_t> o; std::string m, n; int s = -1;
            unsigned rep = subs()[pick_table[tape[0]]].repeat;
            Outcome oc = isolated(tape, false, o, m, n, s, rep);
            bool confirmed = false; std::string path;
            if (bad(oc)) {
                std::vector<uint64_t> small = (oc == hung) ? tape : o;
                if (oc != hung) small = shrink(small, s, rep);
                else small.resize(std::min<size_t>(small.size(), 4096));
                mkdir(replaydir.c_str(), 0755);
                path = replaydir + "/" + prop + "-" + subs()[s >= 0 ? s : 0].name + ".tape";
                auto write = [&](const std::string& msg, const std::string& notes) {
                    std::ofstream f(path);
                    f << "# property " << prop << " sub-test " << (s >= 0 ? subs()[s].name : "?") << "\n";
                    std::istringstream a(msg + "\n" + notes); std::string l; while (std::getline(a, l)) f << "# " << l << "\n";
                    for (auto x : small) f << x << "\n";
                };
                write(m, n);
                int ok = 0; std::string m3, n3;
                for (int k = 0; k < 3; ++k) {
                    std::vector<uint64_t> o3; int s3; std::string mm, nn;
                    Outcome r3 = isolated(read_tape(path), true, o3, mm, nn, s3, rep*3);
                    if (bad(r3)) { ++ok; m3 = mm; n3 = nn; }
                    // a sub-test whose outcome depends on the scheduler is repeated anyway: one
                    // more failure of the same case settles it
                    if (ok == 1 && rep > 1) { ok = 3; break; }
                    if (!ok && r3 != hung && now() - t0 > maxtime + 240) break;
                }
                // independent cases that failed without a deterministic replay: the failures are
                // still observed ones; several of them are not an accident of this machine
                if (!ok && oc == failed && unrepro >= 4) { ok = 3; m3 = m; n3 = n; }
                if (hang && oc == hung && unrepro >= 2) { ok = 3; m3 = m; n3 = n; }
                if (ok == 3) { confirmed = true; write(m3, n3); m = m3; n = n3; }
            }
            std::cout.rdbuf(out_buf); std::cerr.rdbuf(err_buf);
            if (confirmed) {
                ++violations;
                std::cout << "sub-test " << subs()[s >= 0 ? s : 0].name << ": " << m << "\n" << n << std::endl;
                std::cout << "VIOLATION property=" << prop << " replay=" << path << std::endl;
                for (int k = 0; k < jobs; ++k) if (pids[k]) { kill(pids[k], SIGKILL); waitpid(pids[k], &st, 0); pids[k] = 0; }
                live = 0; break;
            } else {
                ++unrepro;
                std::cout << "note: case " << ci << " failed once but not on replay (" << m << (hang ? ", watchdog" : "") << "); inconclusive" << std::endl;
                if (unrepro > 20 || now() - t0 > maxtime + 300) { --live; continue; }
                sh->stop = 0; next[j] = ci + jobs; spawn(j);
                for (int k = 0; k < jobs; ++k) if (!pids[k] && k != j) { next[k] = sh->w[k].cur.load() + jobs; if (next[k] < ncases) { spawn(k); ++live; } }
            }
        }
        usleep(5000);
    }

    // known findings listed for this property
    std::string kf = get("known", "");
    std::set<std::string> listed;
    { std::istringstream is(kf); std::string x; while (std::getline(is, x, ',')) if (!x.empty()) listed.insert(x); }
    for (auto& k : knowns()) {
        pid_t p = fork();
        if (p == 0) {
            int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf);
            bool r = false; try { r = k.fn(); } catch (...) { r = false; }
            _exit(r ? 0 : 3);
        }
        int st; double k0 = now(); bool killed = false;
        for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (now() - k0 > 30) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; } usleep(1000); }
        bool holds = !killed && WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!holds) {
            if (listed.count(k.id)) std::cout << "KNOWN-FINDING: property=" << prop << " " << k.id << ": " << k.what << std::endl;
            else {
                ++violations; mkdir(replaydir.c_str(), 0755);
                std::string path = replaydir + "/" + prop + "-" + k.id + ".txt"; std::ofstream(path) << k.what << "\n";
                std::cout << "VIOLATION property=" << prop << " replay=" << path << std::endl;
            }
        }
    }

    uint64_t done = 0, nt = 0, disc = 0, inner = 0;
    for (auto& w : sh->w) { done += w.done; nt += w.nontriv; disc += w.disc; inner += w.inner; }
    // samples: rerun a few non-trivial cases with notes
    std::vector<std::string> samples;
    {
        std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf);
        std::map<int,int> per; int tries = 0; double s0 = now(); if (violations) hang_s = 2;
        for (uint64_t i = 0; i < ncases && samples.size() < std::min<size_t>(12, subs().size()) && tries < 300 && now() - s0 < (violations ? 4 : 40); ++i, ++tries) {
            Tape tt = Tape::random(case_seed(i)); std::vector<uint64_t> raws(4096); for (auto& x : raws) x = tt.raw64();
            raws[0] %= pick_table.size();
            int sidx = pick_table[raws[0]]; if (per[sidx]) continue;
            std::vector<uint64_t> o; std::string m, n; int s;
            if (isolated(raws, true, o, m, n, s) == pass && !n.empty()) { per[sidx] = 1; samples.push_back(subs()[s].name + ": " + n.substr(0, 900)); }
        }
        std::cout.rdbuf(out_buf); std::cerr.rdbuf(err_buf);
    }
    double wall = now() - t0;
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << json_str(prop) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << done << ",\n  \"distinct_nontrivial\": " << sh->distinct.load()
          << ",\n  \"rule\": " << json_str(rule) << ",\n  \"nontrivial_total\": " << nt << ",\n  \"discarded\": " << disc
          << ",\n  \"oracle_comparisons_inside_cases\": " << inner << ",\n  \"unreproducible\": " << unrepro << ",\n  \"requested\": " << ncases
          << ",\n  \"per_subtest\": {";
        for (size_t i = 0; i < subs().size(); ++i) f << (i ? ", " : "") << json_str(subs()[i].name) << ": [" << sh->subcount[i].load() << ", " << sh->subnt[i].load() << "]";
        f << "},\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? ",\n   " : "\n   ") << json_str(samples[i]);
        f << "]\n },\n \"assumptions\": [" << json_str(get("assume", "")) << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    std::cout << prop << ": " << done << "/" << ncases << " cases, " << nt << " non-trivial (" << sh->distinct.load() << " distinct), " << disc << " discarded, "
              << unrepro << " unreproducible, " << wall << " s, violations=" << violations << std::endl;
    if (opt.count("stats")) for (size_t i = 0; i < subs().size(); ++i) std::cout << "  " << subs()[i].name << ": " << sh->subcount[i].load() << " run, " << sh->subnt[i].load() << " non-trivial\n";
    rmtree(scratch_root);
    return violations ? 1 : 0;
}
#endif
