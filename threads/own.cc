#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>
#include "vt.h"
namespace {
std::mutex m;
std::condition_variable cv;
std::once_flag once;
int inited, turn, total;
std::atomic<int> hits{0};
std::atomic<unsigned> mask{0};
thread_local int mine = 2;
int& counter() { static int c = 40; return c; }
struct Acc { std::mutex mu; long v = 0; void add(long x) { std::lock_guard<std::mutex> g(mu); v += x; if (v > 5000) { v %= 4999; } } };
long work(int id, Acc& a) {
  std::call_once(once, [] { inited++; });
  long s = 0;
  for (int i = 0; i < 30; ++i) {
    mine += id; s += mine & 15;
    hits++; mask |= 1u << id; a.add(i);
    std::unique_lock<std::mutex> l(m);
    total += counter() > 3 ? 1 : 2;
  }
  return s;
}
}
void vt_main() {
  Acc a;
  std::vector<long> res(5);
  std::vector<std::thread> ts;
  for (int i = 0; i < 5; ++i)
    ts.emplace_back([&a, &res, i] {
      long s = work(i, a);
      std::unique_lock<std::mutex> l(m);
      cv.wait(l, [i] { return turn == i; });
      res[i] = s + turn; out_i(10 + i, s); turn++;
      cv.notify_all();
    });
  for (auto& t : ts) t.join();
  out_i(1, inited); out_i(2, total); out_i(3, hits); out_i(4, mask); out_i(5, a.v);
  for (auto r : res) out_i(6, r);
}
