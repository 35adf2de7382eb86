// P02: queues, workers and pools of workers deliver each item once, in order.
#include "vif_h.hpp"
#include <vif/utility/generic.hpp>
#include <vif/utility/time.hpp>
#include <vif/math/base.hpp>
#include <vif/math/reduce.hpp>
#include <vif/utility/thread.hpp>
#include <deque>
using namespace vif;
using vp::Tape; using vp::errors;
template<class T> using V = std::vector<T>;
static void spin(unsigned k) { if (k % 7 == 0) std::this_thread::yield(); volatile unsigned z = 0; for (unsigned i = 0; i < k % 200; ++i) z = z + 1; }
// an item that owns memory and counts its copies
static std::atomic<int> alive{0};
struct Item { std::unique_ptr<int> p; Item() { ++alive; } explicit Item(int v) : p(new int(v)) { ++alive; } Item(Item&& o) : p(std::move(o.p)) { ++alive; } Item& operator=(Item&& o) { p = std::move(o.p); return *this; } ~Item() { --alive; } };
SUB("sequential", 4) { // one thread: the queue is a std::deque
    { thread::lock_free_queue<Item> q; std::deque<int> m; size_t n = t.size(0, 60); bool moved = false; for (size_t k = 0; k < n; ++k) { int op = int(t.draw(10)); if (op < 5) { q.push(Item(int(k))); m.push_back(int(k)); t.note("push ", k); } else if (op < 9) { Item i; bool r = q.pop(i); t.note("pop"); CHECK(r == !m.empty(), "pop gave ", r); if (r) { CHECK(i.p && *i.p == m.front(), "wrong element, expected ", m.front()); m.pop_front(); moved = true; } } else if (t.chance(1, 3)) { q.clear(); m.clear(); t.note("clear"); } CHECK(q.size() == m.size(), "size ", q.size(), " expected ", m.size()); CHECK(q.empty() == m.empty(), "empty"); } if (moved && n > 4) t.nontrivial(); } CHECK(alive == 0, "elements leaked");
}
SUBR("spsc", 4, 30) { // one producer, one consumer
    size_t n = t.draw(3000); unsigned sd = unsigned(t.draw(1000)); bool pc = t.coin(), pp = t.coin(); t.note(n); V<int> got; size_t big = 0; { thread::lock_free_queue<Item> q; std::atomic<bool> done{false}; std::thread cons([&] { Item i; while (true) { bool d = done; if (q.pop(i)) { got.push_back(i.p ? *i.p : -1); if (pc) spin(sd + unsigned(got.size())); } else if (d) break; else { if (q.size() > n) ++big; } } }); for (size_t k = 0; k < n; ++k) { q.push(Item(int(k))); if (pp) spin(sd*3 + unsigned(k)); } done = true; cons.join(); CHECK(q.empty() && q.size() == 0, "queue not empty"); } CHECK(got.size() == n, got.size(), " elements received of ", n); for (size_t k = 0; k < n; ++k) CHECK(got[k] == int(k), "element ", k, " received in place of ", got[k]); CHECK(big == 0, "size larger than the number of elements"); CHECK(alive == 0, "elements leaked"); if (n > 10) t.nontrivial();
}
SUBR("pool", 4, 20) {
    size_t nt = 1 + t.draw(6), n = t.draw(400); unsigned sd = unsigned(t.draw(1000)); bool slow = t.coin(), ws = t.coin(), dir = t.coin(); t.note("workers ", nt, " items ", n); V<std::atomic<int>> c(n); for (auto& x : c) x = 0; struct W { V<int>* p; explicit W(V<int>* q) : p(q) {} V<int> mine; }; std::mutex mu; V<V<int>> per(nt), seq(nt); std::map<std::thread::id,V<int>> by; auto rec = [&](int i) { if (slow) spin(sd + unsigned(i)); ++c[size_t(i)]; std::lock_guard<std::mutex> l(mu); by[std::this_thread::get_id()].push_back(i); };
    auto feed = [&](auto& p) { for (size_t k = 0; k < n; ++k) { if (dir) { size_t w = (k*sd + k/3) % nt; seq[w].push_back(int(k)); p.process(w, int(k)); } else { seq[k % nt].push_back(int(k)); p.process(int(k)); } if (slow) spin(sd*5 + unsigned(k)); } CHECK(p.size() == nt, "number of workers"); p.consume_all(); CHECK(p.remaining() == 0, "items remain after consume_all()"); p.join(); };
    if (ws) { V<int> sink; std::atomic<int> wrong{0}; thread::worker_pool<int,W> p(nt, [&](W& w, int i) { if (w.p != &sink || (!w.mine.empty() && w.mine.back() > i)) ++wrong; w.mine.push_back(i); rec(i); }, &sink); feed(p); CHECK(wrong == 0, "workspace shared or order of the items"); for (size_t w = 0; w < nt; ++w) CHECK(p.workers[w]->wsp.mine == seq[w], "items of worker ", w); } else { thread::worker_pool<int> p; p.start(nt, [&](int i) { rec(i); }); feed(p); }
    for (size_t i = 0; i < n; ++i) CHECK(c[i] == 1, "item ", i, " processed ", c[i].load(), " times"); CHECK(by.size() <= nt, "more threads than workers"); V<V<int>> a; for (auto& b : by) a.push_back(b.second); for (auto& s : seq) if (!s.empty()) CHECK(std::find(a.begin(), a.end(), s) != a.end(), "items of a worker lost or out of order"); if (nt > 1 && n > 4) t.nontrivial();
}
SUBR("worker", 1, 5) { // jobs in order; wait() returns when all are done; reusable
    size_t r = 1 + t.draw(2); V<int> done; { thread::worker w; w.wait(); size_t k = 0; for (size_t j = 0; j < r; ++j) { size_t n = t.draw(20); t.note(n); size_t st = k; for (size_t i = 0; i < n; ++i, ++k) { int v = int(k); w.push([&done, v] { spin(unsigned(v)*31); done.push_back(v); }); } if (j + 1 < r || t.coin()) { w.wait(); CHECK(done.size() == k, done.size(), " of ", k, " jobs done after wait()"); } (void)st; } } for (size_t i = 0; i < done.size(); ++i) CHECK(done[i] == int(i), "jobs out of order"); t.nontrivial();
}
SUBR("threads", 1, 10) { size_t n = t.draw(8); auto p = thread::pool(n); CHECK(p.size() == n); V<std::atomic<int>> c(n); for (auto& x : c) x = 0; for (size_t i = 0; i < n; ++i) p[i].start([&](size_t k, int v) { spin(unsigned(k)*50); c[k] += v; }, i, int(i) + 1); for (auto& x : p) x.join(); for (size_t i = 0; i < n; ++i) CHECK(c[i] == int(i) + 1, "thread ", i); double s = 1e-4*double(t.draw(20)); auto t0 = std::chrono::steady_clock::now(); thread::sleep_for(s); CHECK(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() >= s*0.999, "sleep_for returned too early"); if (n > 1) t.nontrivial(); }
