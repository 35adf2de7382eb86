// P01: parallel_for calls the function once for each index.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/time.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
#include <vif/utility/thread.hpp>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
struct Quiet { std::streambuf* o; std::ostringstream s; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
static void once(Tape& t, thread::parallel_for& p, size_t first, size_t last, bool two, bool slow) {
    size_t n = last - first; V<std::atomic<int>> c(n + 40); for (auto& x : c) x = 0; std::atomic<int> out{0}; std::atomic<size_t> live{0}; unsigned sd = unsigned(t.draw(1000)); auto f = [&](size_t i) { ++live; if (slow && (i*7 + sd) % 5 == 0) { if (sd % 2) std::this_thread::yield(); else { volatile int z = 0; for (int k = 0; k < int((i*13 + sd) % 400); ++k) z = z + 1; } } if (i < first || i >= last) ++out; else ++c[i - first]; --live; };
    if (two) p.execute(f, first, last); else p.execute(f, last); CHECK(live == 0, "execute() returned before the end of the calls"); CHECK(out == 0, out.load(), " calls outside of the range"); for (size_t i = 0; i < n; ++i) CHECK(c[i] == 1, "index ", first + i, " called ", c[i].load(), " times");
}
SUBR("range", 5, 30) {
    size_t nt = t.draw(9), n = t.chance(1, 3) ? t.draw(2000) : t.draw(40), first = t.coin() ? 0 : t.draw(50); thread::parallel_for p(nt); CHECK(p.size() == nt, "number of threads"); p.chunk_size = t.coin() ? 0 : 1 + t.draw(t.coin() ? 5 : 200); t.note("threads ", nt, " range ", first, " ", first + n, " chunk ", p.chunk_size); bool slow = t.coin(); size_t rep = 1 + t.draw(3); for (size_t k = 0; k < rep; ++k) { once(t, p, first, first + n, first != 0 || t.coin(), slow); if (t.coin()) n = t.draw(60); } if (nt > 1 && n > 1) t.nontrivial();
}
SUBR("fine", 3, 30) { // many tiny chunks: the threads compete for the chunks
    size_t nt = 2 + t.draw(7), n = 200 + t.draw(3000), first = t.coin() ? 0 : t.draw(50); thread::parallel_for p(nt); p.chunk_size = 1 + t.draw(2); t.note("threads ", nt, " range ", first, " ", first + n, " chunk ", p.chunk_size); once(t, p, first, first + n, true, false); t.nontrivial();
}
SUBR("values", 2, 30) { // typical use: fill a vector, accumulate with a lock
    size_t nt = 1 + t.draw(8), n = t.draw(300); V<int> in = vp::ints<int>(t, std::min<size_t>(n, 60), -9, 9); vec1i v(n), r(n); for (size_t i = 0; i < n; ++i) v[i] = in[i % in.size()]; thread::parallel_for p(nt); t.note("threads ", nt, " n ", n); std::mutex m; long sum = 0, e = 0; p.execute([&](size_t i) { r[i] = v[i]*v[i]; std::lock_guard<std::mutex> l(m); sum += v[i]; }, n); for (size_t i = 0; i < n; ++i) { CHECK(r[i] == v[i]*v[i], "element ", i); e += v[i]; } CHECK(sum == e, "sum"); if (nt > 1 && n > 1) t.nontrivial();
}
SUBR("verbose", 1, 5) { // progress bar: same calls, and execute() returns
    Quiet q; size_t nt = t.draw(5), n = 1 + t.draw(30), first = t.coin() ? 0 : t.draw(20); thread::parallel_for p(nt); p.verbose = true; p.update_rate = 1e-4; p.progress_step = 1 + t.draw(3); t.note("threads ", nt, " range ", first, " ", first + n); once(t, p, first, first + n, true, false); t.nontrivial();
}
