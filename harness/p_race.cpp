// Watchers in many threads: callbacks are one at a time, and there are no data
// races (ThreadSanitizer is watching).
#include "core.hpp"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace core;
using std::string;

#if __has_feature(thread_sanitizer) || defined(__SANITIZE_THREAD__)
// ThreadSanitizer doesn't know that the kernel writes to the buffer.
#include <sys/epoll.h>
extern "C" int __interceptor_epoll_wait(int, epoll_event*, int, int);
extern "C" int epoll_wait(int fd, epoll_event* e, int n, int ms)
{
  int r = __interceptor_epoll_wait(fd, e, n, ms);
  for (int i = 0; i < r; ++i) {
    auto volatile* p = (char volatile*)&e[i];
    for (size_t k = 0; k < sizeof *e; ++k) p[k] = p[k];
  }
  return r;
}
#endif

namespace {

struct One {
  std::unique_ptr<sut::Watcher> w;
  // Not synchronized: the watcher has to do that
  struct Data {
    long n = 0;
    bool live = false, dead = false;
    string last;
    std::vector<string> texts;
    std::atomic<int> inside{0};
    std::atomic<int> overlaps{0};
    std::atomic<bool> is_live{false};
    std::atomic<long> seen{0};
  };
  std::shared_ptr<Data> d = std::make_shared<Data>();
  string root;
};

void touch(string const& p)
{
  int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
  if (fd >= 0) (void)! ::write(fd, "x", 1), ::close(fd);
}

Outcome run_race(Case const& c, Info& info)
{
  Scratch scratch;
  auto base = scratch.path;
  for (auto d : {"/a", "/a/b", "/c"}) mkdir((base + d).c_str(), 0700);
  static char const* const roots[] = {"/a", "/a/b", "/c", "/nothing"};
  unsigned const n_t = 2 + c.cfg[0] % 3;
  sut::with_text = c.cfg[1] % 2;

  // Watchers wait here to be taken over by some thread
  std::mutex m;
  std::vector<std::unique_ptr<One>> pool;
  std::vector<string> errors;
  std::atomic<long> opened{0}, closed{0}, events{0};
  std::atomic<unsigned> ready{0};

  auto open = [&](Op const& o) {
    auto one = std::make_unique<One>();
    one->root = base + roots[o[2] % 8 < 7 ? o[2] % 3 : 3];
    auto d = one->d;
    bool slow = o[3] % 4 == 0;
    one->w = sut::open(one->root, [d, slow](sut::Ev const& e) {
      if (d->inside.fetch_add(1, std::memory_order_relaxed) > 0) d->overlaps.fetch_add(1, std::memory_order_relaxed);
      ++d->n;
      d->last = e.path;
      if (! e.text.empty() && d->texts.size() < 50) d->texts.push_back(e.text);
      if (e.pt == sut::watcher && e.et == sut::create) d->live = true, d->is_live.store(true, std::memory_order_relaxed);
      if (e.pt == sut::watcher && e.et == sut::destroy) d->dead = true;
      d->seen.fetch_add(1, std::memory_order_relaxed);
      if (slow) std::this_thread::yield();
      d->inside.fetch_sub(1, std::memory_order_relaxed);
    });
    ++opened;
    return one;
  };
  auto end = [&](std::unique_ptr<One> one, u32 how) {
    bool ok = false;
    if (how % 3) {
      ok = one->w->close();
      if (how % 3 == 2 && one->w->close()) { std::lock_guard g{m}; errors.push_back("close() is true again"); }
    }
    else one->w.reset();
    // Nothing but closing was between us and the callback
    auto& d = *one->d;
    string e;
    if (! d.live || ! d.dead) e = "closed, but there's no live or die message";
    if (d.overlaps) e = "the callback was called concurrently with itself";
    if (ok && d.last.compare(0, 11, "s/self/die@") != 0) e = "close() is true, but the last event is " + show(d.last);
    events += d.n;
    ++closed;
    if (! e.empty()) { std::lock_guard g{m}; errors.push_back(e); }
  };
  auto work = [&](unsigned me) {
    ++ready;
    while (ready < n_t) std::this_thread::yield();
    for (auto& o : c.ops) {
      if (o[1] % n_t != me) continue;
      auto dir = base + roots[o[2] % 3];
      auto p = dir + "/f" + std::to_string(o[3] % 4);
      switch (o[0] % 10) {
        case 0: case 1: {
          auto one = open(o);
          std::lock_guard g{m};
          pool.push_back(std::move(one));
          break;
        }
        case 2: case 3: {
          std::unique_ptr<One> one;
          {
            std::lock_guard g{m};
            if (! pool.empty()) {
              one = std::move(pool[o[4] % pool.size()]);
              pool.erase(pool.begin() + o[4] % pool.size());
            }
          }
          if (one) end(std::move(one), o[4]);
          break;
        }
        case 4: {  // a short life
          auto one = open(o);
          if (o[4] % 3 == 0) for (int i = 0; i < 2000 && ! one->d->is_live.load(std::memory_order_relaxed); ++i) usleep(100);
          if (o[4] % 3 == 1) usleep(o[3] % 800);
          end(std::move(one), o[3]);
          break;
        }
        case 5: touch(p); break;
        case 6: unlink(p.c_str()); break;
        case 7: mkdir((p + "d").c_str(), 0700), touch(p + "d/x"); break;
        case 8: rename((p + "d").c_str(), (dir + "/r" + std::to_string(o[4] % 3)).c_str()); break;
        default: for (int i = 0; i < 20; ++i) touch(p + std::to_string(i)); break;
      }
    }
  };
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < n_t; ++i) ts.emplace_back(work, i);
  for (auto& t : ts) t.join();
  while (! pool.empty()) {
    auto one = std::move(pool.back());
    pool.pop_back();
    end(std::move(one), c.cfg[2] + (u32)pool.size());
  }
  info.counts["watchers"] += opened;
  info.counts["events"] += events;
  info.counts["with texts"] += sut::with_text;
  info.nontrivial = opened >= 2 && events > 2 * opened;
  info.describe = std::to_string(n_t) + " threads, " + std::to_string(opened) + " watchers, " + std::to_string(events) + " events, " + std::to_string(c.ops.size()) + " operations";
  if (! errors.empty()) return Outcome::bad(errors[0]);
  return {};
}

}  // namespace

int main(int argc, char** argv)
{
  add({"race", run_race, 60, 10,
    "random operations (watchers opened, handed over, and closed; changes in the directories which they watch), spread over two to four threads; the callbacks "
    "use data without synchronization, which is looked at after closing; non-trivial: two watchers or more, with events other than their messages", 60});
  return core::main(argc, argv);
}
