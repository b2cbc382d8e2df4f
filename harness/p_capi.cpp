// The C interface, used as C programs use it: handles, contexts and callbacks of
// all kinds, opened and closed (once, again, at the same time) from several threads.
#include "core.hpp"
#include "ip.hpp"
#include "wtr/watcher-c.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace core;
using std::string;

namespace sut {
bool with_text = false;
char const* flavor() { return "capi"; }
std::unique_ptr<Watcher> open(std::string const&, Cb) { return nullptr; }
}

namespace {

struct Seen {
  string path, apath;
  bool assoc;
  int et, pt;
  int64_t t;
};

// One watcher, as the case has it
struct One {
  void* handle = nullptr;
  void* ctx = nullptr;
  int fn = 0;
  string path, root;
  bool is_dir = false;
  std::atomic<int> trues{0}, falses{0};
  std::atomic<bool> done{false}, taken{false};
  std::atomic<bool> hold{false}, held{false};
  std::mutex m;
  std::vector<Seen> evs;
  int late = 0;
  size_t seen_before = 0;  // closing
  string base_name;
  size_t n() { std::lock_guard g{m}; return evs.size(); }
};

// By callback and context: the one whose events they are
std::mutex reg_m;
std::map<std::pair<int, void*>, One*> reg;
std::vector<string> strays;

void got(int fn, struct wtr_watcher_event e, void* ctx)
{
  ip::Own own;
  One* o = nullptr;
  {
    std::lock_guard g{reg_m};
    auto it = reg.find({fn, ctx});
    if (it == reg.end()) {
      char t[64];
      snprintf(t, sizeof t, "callback #%d, context %p: ", fn, ctx);
      strays.push_back(t + string(e.path_name ? e.path_name : "<null>"));
      return;
    }
    o = it->second;
  }
  Seen s;
  s.path = e.path_name ? e.path_name : "<null>";
  s.assoc = e.associated_path_name != nullptr;
  if (s.assoc) s.apath = e.associated_path_name;
  s.et = e.effect_type, s.pt = e.path_type, s.t = e.effect_time;
  for (; o->hold; usleep(200)) o->held = true;
  std::lock_guard g{o->m};
  if (o->done) ++o->late;
  o->evs.push_back(std::move(s));
}

template<int N> void cb(struct wtr_watcher_event e, void* ctx) { got(N, e, ctx); }
wtr_watcher_callback const cbs[] = {cb<0>, cb<1>, cb<2>, cb<3>, cb<4>, cb<5>, cb<6>, cb<7>};

void touch(string const& p)
{
  int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
  if (fd >= 0) ::close(fd);
}

string show(Seen const& s)
{
  return core::show(s.path) + (s.assoc ? " -> " + core::show(s.apath) : "") + " effect " + std::to_string(s.et) + ", path type " + std::to_string(s.pt);
}

Outcome run(Case const& c, Info& info)
{
  ip::reset();
  Scratch scratch;
  string base = scratch.path;
  {
    std::lock_guard g{reg_m};
    reg.clear();
    strays.clear();
  }
  string deep = base + "/d";
  mkdir(deep.c_str(), 0755);
  for (u32 i = 0; i < c.cfg[3] % 8; ++i) deep += "/" + string(200 + i, 'D'), mkdir(deep.c_str(), 0755);
  std::vector<string> dirs = {base + "/a", base + "/b \"\\\xff", base + "/a/in", deep};
  for (auto& d : dirs) mkdir(d.c_str(), 0755);
  touch(base + "/file");
  (void)! symlink("a", (base + "/link").c_str());
  auto fds0 = fds();
  unsigned const n_t = 1 + c.cfg[0] % 3;

  std::mutex m;
  std::vector<std::unique_ptr<One>> all;
  std::vector<string> errors;
  int n_made = 0;
  long n_again = 0, n_same = 0, n_events = 0, n_paths = 0;
  auto err = [&](string e) { std::lock_guard g{m}; errors.push_back(std::move(e)); };
  static char targets[64];
  std::atomic<int> open_now{0};

  auto open = [&](Op const& o) -> One* {
    auto one = std::make_unique<One>();
    auto* p = one.get();
    switch (o[2] % 12) {
      case 0: p->path = base + "/nothing"; break;
      case 1: p->path = base + "/file"; break;
      case 2: p->path = ""; break;
      case 3: p->path = base + "/" + string(o[3] % 3 ? 300 : 5000, 'x'); break;
      case 4: p->path = base + "/link", p->root = dirs[0], p->is_dir = true; break;
      default: p->root = dirs[o[2] % dirs.size()], p->path = p->root + (o[3] % 7 == 0 ? "/" : o[3] % 7 == 1 ? "/./" : ""), p->is_dir = true; break;
    }
    {
      std::lock_guard g{reg_m};
      p->fn = (int)(o[4] % 8);
      p->base_name = "f" + std::to_string(++n_made);
      // Contexts are anything: null, numbers, pointers; they repeat, for another callback
      static uintptr_t const odd[] = {0, 1, ~(uintptr_t)0, 0x8000000000000000, 0xffffffff, 0x100000000};
      p->ctx = o[4] / 8 % 3 == 0 ? (void*)odd[o[4] / 24 % 6] : o[4] / 8 % 3 == 1 ? (void*)&targets[o[3] % 64] : (void*)p;
      while (reg.count({p->fn, p->ctx})) p->ctx = (void*)((uintptr_t)p->ctx + 1);
      reg[{p->fn, p->ctx}] = p;
    }
    {
      // What's given is ours again as soon as it's open
      string given = p->path;
      ip::Theirs t;
      p->handle = wtr_watcher_open(given.c_str(), cbs[p->fn], p->ctx);
      std::fill(given.begin(), given.end(), '#');
    }
    ++open_now;
    std::lock_guard g{m};
    if (! p->handle) errors.push_back("wtr_watcher_open gave null for " + core::show(p->path));
    for (auto& x : all) if (! x->taken && x->handle == p->handle) errors.push_back("two open watchers have the same handle");
    all.push_back(std::move(one));
    return p;
  };
  auto pick = [&](u32 x, bool closed) -> One* {
    std::lock_guard g{m};
    std::vector<One*> v;
    for (auto& o : all) if (o->done == closed && (closed || ! o->taken)) v.push_back(o.get());
    return v.empty() ? nullptr : v[x % v.size()];
  };
  auto has_die = [&](One& o) {
    std::lock_guard g{o.m};
    return ! o.evs.empty() && o.evs.back().path.find("/self/die@") == 1;
  };
  auto check_closed = [&](One& o, int t, int f, int want_f) {
    // (once: exactly one true if it worked, and the others are false)
    std::vector<Seen> evs;
    { std::lock_guard g{o.m}; evs = o.evs; }
    string who = "the watcher on " + core::show(o.path) + ": ";
    if (evs.size() < 2) return err(who + "closed, with " + std::to_string(evs.size()) + " events");
    // (Or it was closed before it began.)
    bool good = o.is_dir && ! (evs.size() == 2 && o.seen_before == 0 && evs[0].path == "e/self/live@" + o.path);
    string e = who;
    bool live = evs[0].path == "s/self/live@" + o.path, live_e = evs[0].path.compare(0, 2, "e/") == 0 || evs[0].path.compare(0, 2, "w/") == 0;
    if (evs.back().path != (good ? "s/self/die@" : "e/self/die@") + o.path) return err(who + "its last event is " + show(evs.back()));
    if (good && ! live) return err(who + "its first event is " + show(evs[0]));
    if (! good && ! live_e && evs[0].path != "s/self/live@" + o.path) return err(who + "its first event is " + show(evs[0]));
    if (evs.back().et != WTR_WATCHER_EFFECT_DESTROY || evs.back().pt != WTR_WATCHER_PATH_WATCHER || evs.back().assoc) return err(who + "its last event is " + show(evs.back()));
    if (t != (good ? 1 : 0)) return err(who + "closing gave true " + std::to_string(t) + " times, and false " + std::to_string(f) + " times");
    if (f < want_f) return err(who + "closing gave false only " + std::to_string(f) + " times");
    for (size_t i = 0; i < evs.size(); ++i) {
      auto& s = evs[i];
      if (s.t <= 0) return err(who + "no time: " + show(s));
      if (s.et < 0 || s.et > 5 || s.pt < 0 || s.pt > 5) return err(who + "what's " + show(s));
      if (s.assoc != (s.et == WTR_WATCHER_EFFECT_RENAME && s.pt != WTR_WATCHER_PATH_WATCHER) && s.assoc) return err(who + "an associated path for " + show(s));
      if (s.pt == WTR_WATCHER_PATH_WATCHER) continue;
      if (! good) return err(who + "reports " + show(s));
      if (s.path.compare(0, o.root.size() + 1, o.root + "/") != 0) return err(who + "an event which isn't its own: " + show(s));
    }
  };
  auto close = [&](One& o, int times_at_once) {
    bool expected = false;
    if (! o.taken.compare_exchange_strong(expected, true)) return;
    o.seen_before = o.n();
    std::vector<std::thread> ts;
    std::atomic<int> t{0}, f{0}, ready{0};
    auto one = [&] {
      ++ready;
      while (ready < times_at_once) std::this_thread::yield();
      bool r;
      {
        ip::Theirs th;
        r = wtr_watcher_close(o.handle);
      }
      (r ? t : f)++;
      // (Whoever got true knows that it's over. False may mean that somebody else is at it.)
      if (r || times_at_once == 1) { std::lock_guard g{o.m}; o.done = true; }
    };
    for (int i = 1; i < times_at_once; ++i) ts.emplace_back(one);
    one();
    for (auto& x : ts) x.join();
    { std::lock_guard g{o.m}; o.done = true; }
    --open_now;
    o.trues += t, o.falses += f;
    check_closed(o, t, f, times_at_once - 1);
    std::lock_guard g{m};
    if (times_at_once > 1) ++n_same;
  };
  auto again = [&](One& o) {
    if (! o.done) return;   // Someone else is closing it
    auto before = o.n();
    bool r;
    {
      ip::Theirs th;
      r = wtr_watcher_close(o.handle);
    }
    if (r) err("closing " + core::show(o.path) + " again is true");
    if (o.n() != before) err("closing " + core::show(o.path) + " again gives events");
    std::lock_guard g{m};
    ++n_again;
  };
  // Everything open reports a file of its own
  auto change = [&](u32 x) {
    auto* o = pick(x, false);
    if (! o || ! o->is_dir) return;
    // (Someone else may close it meanwhile.)
    // (It's watching once it reports anything.)
    auto t1 = now_s();
    static std::atomic<long> ns{0};
    for (int i = 0;; ++i) {
      if (o->taken) return;
      {
        std::lock_guard g{o->m};
        if (! o->evs.empty() && o->evs.back().pt != WTR_WATCHER_PATH_WATCHER) break;
      }
      if (now_s() - t1 > patience()) return err("the watcher on " + core::show(o->path) + " doesn't report anything");
      if (i % 20 == 0) touch(o->root + "/" + o->base_name + "-sync-" + std::to_string(++ns));
      usleep(500);
    }
    for (u32 k = 0; k < 1 + x % 5; ++k) {
      static std::atomic<long> n{0};
      auto p = o->root + "/" + o->base_name + "-" + std::to_string(++n) + (k % 2 ? "\"\n\x80" : "") + (k % 3 == 2 ? string(200, 'y') : "");
      // Made, and renamed: each of them arrives, or it's being closed
      touch(p);
      auto to = p + "R";
      rename(p.c_str(), to.c_str());
      auto seen = [&] {
        std::lock_guard g{o->m};
        for (auto& s : o->evs) if (s.et == WTR_WATCHER_EFFECT_RENAME && s.assoc && s.path == p && s.apath == to && s.pt == WTR_WATCHER_PATH_FILE) return true;
        return false;
      };
      auto made = [&] {
        std::lock_guard g{o->m};
        for (auto& s : o->evs) if (s.et == WTR_WATCHER_EFFECT_CREATE && ! s.assoc && s.path == p && s.pt == WTR_WATCHER_PATH_FILE) return true;
        return false;
      };
      auto t0 = now_s();
      while (! o->taken && ! seen() && now_s() - t0 < patience()) usleep(200);
      if (o->taken) return;
      if (! seen()) return err("the watcher on " + core::show(o->path) + " doesn't report " + core::show(p) + ", renamed");
      if (! made()) return err("the watcher on " + core::show(o->path) + " doesn't report " + core::show(p) + ", created");
      std::lock_guard g{m};
      ++n_paths;
    }
  };
  // One's callback takes its time while that's being closed: others aren't kept from anything
  long n_held = 0;
  auto meanwhile = [&](Op const& o) {
    auto* a = pick(o[2], false);
    if (! a || ! a->is_dir) return;
    a->hold = true;
    static std::atomic<long> n{0};
    auto t0 = now_s();
    for (int i = 0; ! a->held && ! a->taken && now_s() - t0 < patience(); ++i) {
      if (i % 20 == 0) touch(a->root + "/" + a->base_name + "-held-" + std::to_string(++n));
      usleep(500);
    }
    if (! a->held || a->taken) { a->hold = false; return; }
    std::thread closing{[&] { ip::Own own; close(*a, 1); }};
    std::atomic<bool> done{false};
    std::thread other{[&] {
      ip::Own own;
      usleep(o[3] % 3 * 1000);
      auto* b = open(o);
      if (o[3] % 2) change((u32)o[4]);
      close(*b, 1);
      again(*b);
      done = true;
    }};
    t0 = now_s();
    while (! done && now_s() - t0 < patience()) usleep(200);
    if (! done) err("while the watcher on " + core::show(a->path) + " was busy, and being closed, another couldn't be opened and closed");
    a->hold = false;
    closing.join(), other.join();
    std::lock_guard g{m};
    ++n_held;
  };
  std::atomic<unsigned> ready{0};
  auto work = [&](unsigned me) {
    ip::Own own;
    ++ready;
    while (ready < n_t) std::this_thread::yield();
    for (auto& o : c.ops) {
      if (o[1] % n_t != me) continue;
      { std::lock_guard g{m}; if (! errors.empty() || all.size() > 40) return; }
      bool full = open_now >= 8;
      switch (o[0] % 10) {
        case 0: case 1: case 2: if (! full) open(o); break;   // (There's a limit on inotify's instances.)
        case 3: if (auto* p = pick(o[2], false)) close(*p, 1); break;
        case 4: if (auto* p = pick(o[2], false)) close(*p, 2 + (int)(o[3] % 3)); break;
        case 5: if (auto* p = pick(o[2], true)) again(*p); break;
        case 6: {
          ip::Theirs t;
          if (wtr_watcher_close(nullptr)) err("closing null is true");
          break;
        }
        case 7: {
          if (full) break;
          auto* p = open(o);
          if (o[3] % 2) for (int i = 0; i < 2000 && ! p->n(); ++i) usleep(100);
          close(*p, 1 + (int)(o[2] / 12 % 3));
          if (o[3] % 3) again(*p);
          break;
        }
        case 8: if (n_t == 1 && ! full) meanwhile(o); break;
        default: change(o[2]); break;
      }
    }
  };
  {
    std::vector<std::thread> ts;
    for (unsigned i = 1; i < n_t; ++i) ts.emplace_back(work, i);
    work(0);
    for (auto& t : ts) t.join();
  }
  for (auto& o : all) if (! o->taken) close(*o, 1 + (int)(c.cfg[2] % 2));
  for (auto& o : all) if (errors.empty()) again(*o);
  (void)has_die;
  for (auto& o : all) {
    n_events += (long)o->n();
    if (o->late) errors.push_back("the watcher on " + core::show(o->path) + " reported after it was closed");
  }
  {
    std::lock_guard g{reg_m};
    if (! strays.empty()) errors.push_back("an event with a callback and context which don't belong together: " + strays[0]);
  }
  auto now = fds();
  for (auto& f : now) if (! fds0.count(f)) { errors.push_back("leaks " + f); break; }
  info.counts["watchers"] += (long)all.size();
  info.counts["events"] += n_events;
  info.counts["closed again"] += n_again;
  info.counts["closed by several threads at once"] += n_same;
  info.counts["renames checked"] += n_paths;
  info.counts["others opened and closed while one was busy and being closed"] += n_held;
  info.nontrivial = all.size() >= 2 && (n_same || n_paths);
  info.describe = std::to_string(n_t) + " threads, " + std::to_string(all.size()) + " watchers, " + std::to_string(n_paths) + " changes each way, " + std::to_string(n_same) + " closed several times at once, " + std::to_string(n_events) + " events";
  if (! errors.empty()) return Outcome::bad(errors[0] + " (" + std::to_string(errors.size()) + ")");
  return {};
}

}  // namespace

int main(int argc, char** argv)
{
  add({"capi", run, 40, 10,
    "programs for the C interface, in one to three threads: watchers on directories and on what can't be watched, with callbacks, contexts (null, numbers, pointers), "
    "changes, and handles closed once, again, or by several threads at once, with every event's callback, context and path checked; "
    "non-trivial: two watchers or more, and a change or simultaneous closing", 90});
  return core::main(argc, argv);
}
