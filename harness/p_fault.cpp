// What goes wrong: overflows and other warnings, interruptions, failing system interfaces.
#include "core.hpp"
#include "ip.hpp"
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>

using namespace core;
using namespace world;
using std::string;

namespace {

void touch(string const& p)
{
  int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
  if (fd >= 0) ::close(fd);
}

bool is_warning(sut::Ev const& e, char const* kind)
{ return e.pt == sut::watcher && e.path.compare(0, strlen(kind), kind) == 0; }

string history(World const& w)
{
  string h;
  size_t n = w.log.size();
  for (size_t i = n > 40 ? n - 40 : 0; i < n; ++i) h += "\n    " + core::show(w.log[i]);
  return h;
}

void summary(World const& w, Info& info)
{
  for (size_t i = 0; i < w.log.size() && i < 20; ++i) info.describe += " [" + core::show(w.log[i]) + "]";
}

void base_dirs(World& w)
{
  for (auto d : {"/w", "/wx", "/o", "/o/p"}) mkdir((w.base + d).c_str(), 0755);
  w.add(w.base + "/o/p", {'d', 0, 0});
  touch(w.base + "/o/f");
  w.add(w.base + "/o/f", {'f', 0, 0});
  w.roots = {w.base + "/w"};
}

bool hold(Recorder& rec, string const& root)
{
  static int n = 0;
  auto name = "/" + string(sync_prefix) + "hold-" + std::to_string(++n);
  {
    std::lock_guard g{rec.m};
    rec.hold_at = name;
  }
  touch(root + name);
  bool ok;
  {
    std::unique_lock g{rec.m};
    ok = rec.cv.wait_for(g, std::chrono::duration<double>(patience()), [&] { return rec.holding; });
  }
  unlink((root + name).c_str());
  return ok;
}

// Overflows, for real

long queue_limit()
{
  std::ifstream in{"/proc/sys/fs/inotify/max_queued_events"};
  long n = 0;
  in >> n;
  return n;
}

Outcome run_overflow(Case const& c, Info& info)
{
  static long const limit = queue_limit();
  if (limit < 16 || limit > 200000) return {};
  ip::reset();
  Scratch scratch;
  World w{scratch.path};
  base_dirs(w);
  auto root = w.roots[0];
  w.pick_names(c.cfg[0]);
  w.flush = [] { return Outcome{}; };
  bool did;
  Outcome r;
  auto sub = root + "/sub";
  mkdir(sub.c_str(), 0755);
  w.add(sub, {'d', 0, 0});
  for (auto f : {"/fa", "/fb", "/sub/fc"}) {
    touch(root + f);
    w.add(root + f, {'f', 0, 0});
  }
  auto rec = std::make_shared<Recorder>();
  auto t = core::open(root, rec);
  auto finish = [&](Outcome o) {
    rec->release();
    bool ok = core::close(*t);
    core::destroy(t);
    if (o.ok && ! ok) o = Outcome::bad("close() is false after an overflow");
    if (! o.ok) o.msg += "\n  history:" + history(w);
    return o;
  };
  if (! sync(*rec, root)) return finish(Outcome::bad("the watcher isn't reporting anything"));
  w.live = true;
  w.may_split = true;
  size_t from = rec->size();
  static int const files[] = {a_create, a_create_write, a_write, a_unlink, a_rename_file, a_link, a_truncate};
  static int const most[] = {a_create, a_write, a_mkdir, a_mkdirs, a_unlink, a_rename_file, a_rename_dir, a_movein_tree, a_rm_r};
  long overflows = 0;
  size_t i = 0;
  int rounds = 1 + (int)(c.cfg[1] % 2);
  auto settle = [&]() -> Outcome {
    if (! sync(*rec, root)) return Outcome::bad("the watcher stopped reporting");
    auto got = rec->since(from);
    from = rec->size();
    for (auto& e : got)
      if (e.pt == sut::watcher && (e.path != "w/sys/not_watched@" && e.path.compare(0, 18, "w/sys/not_watched@")))
        return Outcome::bad("a message, though nothing happened: " + core::show(e));
    auto o = match(view(w.raws, root, w.may_split), relevant(got));
    w.reset_burst();
    return o;
  };
  w.flush = settle;
  for (int round = 0; round < rounds; ++round) {
    size_t per = c.ops.size() / (size_t)(2 * rounds);
    w.may_split = true;
    if (! hold(*rec, root)) return finish(Outcome::bad("the watcher stopped reporting (hold)"));
    w.flush = [] { return Outcome{}; };
    w.may_split = false;
    for (size_t k = 0; k < per && i < c.ops.size(); ++k, ++i)
      if (r = w.act(files[c.ops[i][0] % 7], c.ops[i], root, did); ! r.ok) return finish(r);
    // Two files, by turns: equal changes would be merged
    std::vector<string> fs;
    for (auto f : {"/sub/fc", "/fb", "/fa"}) if (w.t.count(root + f) && fs.size() < 2) fs.push_back(root + f);
    while (fs.size() < 2) {
      auto p = root + "/flood" + std::to_string(fs.size()) + "-" + std::to_string(round);
      touch(p);
      w.add(p, {'f', 0, 0});
      w.raw(sut::create, 'f', p);
      fs.push_back(p);
    }
    int fa = ::open(fs[0].c_str(), O_WRONLY | O_CLOEXEC), fb = ::open(fs[1].c_str(), O_WRONLY | O_CLOEXEC);
    // Most often too many, sometimes just enough
    long n = c.cfg[2] % 5 == 0 ? limit - 200 - (long)(4 * per) : limit + 1 + (long)(c.cfg[2] % 400);
    for (long k = 0; k < n; ++k) {
      (void)! ::pwrite(k % 2 ? fa : fb, "x", 1, 0);
      w.raw(sut::modify, 'f', fs[k % 2 ? 0 : 1]);
    }
    ::close(fa), ::close(fb);
    w.say("modify two files, " + std::to_string(n) + " times");
    size_t const in_time = w.raws.size();
    for (size_t k = 0; k < 3 && i < c.ops.size(); ++k, ++i)
      if (r = w.act(files[c.ops[i][0] % 7], c.ops[i], root, did); ! r.ok) return finish(r);
    rec->release();
    // Sometimes nothing comes after it
    if (c.cfg[5] % 2)
      for (size_t was = 0, k = 0; k < 400; ++k, usleep(5000)) {
        auto now = rec->size();
        if (now == was && k > 4) break;
        was = now;
      }
    if (! sync(*rec, root)) return finish(Outcome::bad("the watcher stopped reporting after an overflow"));
    auto got = rec->since(from);
    from = rec->size();
    std::vector<sut::Ev> before;
    long warned = 0, delivered = 0;
    for (auto& e : got) {
      if (is_warning(e, "w/sys/q_overflow@")) {
        ++warned;
        if (e.et != sut::other_et || e.assoc) return finish(Outcome::bad("odd warning: " + core::show(e)));
        continue;
      }
      if (e.pt == sut::watcher) return finish(Outcome::bad("another message: " + core::show(e)));
      if (core::is_sync(e)) continue;
      if (warned) return finish(Outcome::bad("an event after the overflow which happened before it: " + core::show(e)));
      before.push_back(e);
      delivered += e.et == sut::rename_ && e.assoc ? 2 : 1;
    }
    bool over = n > limit;
    if (over) {
      if (warned != 1) return finish(Outcome::bad(std::to_string(warned) + " overflow warnings, not one"));
      r = match(view(w.raws, root, w.may_split), before, true);
      if (r.ok && delivered < limit - 8)
        r = Outcome::bad("only " + std::to_string(delivered) + " events, of the " + std::to_string(limit) + " which fit the queue");
    }
    else {
      if (warned) return finish(Outcome::bad("an overflow warning, without an overflow"));
      r = match(view(w.raws, root, w.may_split), before);
    }
    (void)in_time;
    if (! r.ok) return r.msg = "around an overflow: " + r.msg, finish(r);
    overflows += over;
    w.reset_burst();
    // As if nothing had happened
    w.flush = settle;
    w.may_split = true;
    for (size_t k = 0; k < per && i < c.ops.size(); ++k, ++i) {
      if (r = w.act(most[c.ops[i][0] % 9], c.ops[i], root, did); ! r.ok) return finish(r);
      if (did && c.cfg[3] % 2) r = settle();
      if (! r.ok) return r.msg = "after an overflow: " + r.msg, finish(r);
    }
    if (r = settle(); ! r.ok) return r.msg = "after an overflow: " + r.msg, finish(r);
  }
  info.counts["overflows"] += overflows;
  info.nontrivial = overflows > 0;
  summary(w, info);
  return finish({});
}

// Histories with a disturbance, which mustn't matter

enum Disturb { strays, interruptions };

void on_signal(int) {}

// Signals to all threads which aren't ours
struct Signals {
  std::atomic<bool> stop{false};
  std::atomic<long> n{0};
  std::set<int> mine;
  std::thread t;
  static std::set<int> tasks()
  {
    std::set<int> s;
    if (DIR* d = opendir("/proc/self/task")) {
      while (auto* e = readdir(d)) if (e->d_name[0] != '.') s.insert(atoi(e->d_name));
      closedir(d);
    }
    return s;
  }
  void start(unsigned us)
  {
    mine = tasks();
    t = std::thread([this, us] {
      ip::Own own;
      auto me = (int)syscall(SYS_gettid);
      while (! stop) {
        for (int x : tasks())
          if (x != me && ! mine.count(x) && syscall(SYS_tgkill, getpid(), x, SIGUSR1) == 0) ++n;
        usleep(us);
      }
    });
  }
  ~Signals()
  {
    stop = true;
    if (t.joinable()) t.join();
  }
};

Outcome run_disturbed(Disturb kind, Case const& c, Info& info)
{
  ip::reset();
  Scratch scratch;
  World w{scratch.path};
  base_dirs(w);
  auto root = w.roots[0];
  w.pick_names(c.cfg[0]);
  w.flush = [] { return Outcome{}; };
  static int const acts[] = {a_create, a_create, a_create_write, a_write, a_unlink, a_mkdir, a_mkdirs, a_rmdir, a_rm_r, a_rename_file, a_rename_file,
    a_rename_dir, a_move_out, a_move_in, a_movein_tree, a_moveout_dir, a_reuse, a_flush};
  bool did;
  Outcome r;
  size_t i = 0;
  for (; i < c.ops.size() * (c.cfg[1] % 3) / 6; ++i)
    if (r = w.act(acts[c.ops[i][0] % 18], c.ops[i], root, did); ! r.ok) return r;
  w.say("-- watch");

  bool steps = c.cfg[2] % 3 == 0;
  bool gated = ! steps && c.cfg[2] % 3 == 1 && kind == strays;
  w.may_split = ! gated;
  Signals sig;
  std::vector<ip::Fault> plan;
  if (kind == strays) {
    std::vector<unsigned> ks;
    for (u32 k = 0; k < 1 + c.cfg[3] % 7; ++k) ks.push_back((c.cfg[4] >> (2 * k)) % 4);
    ip::inject(ks);
  }
  else {
    static int const fns[] = {ip::f_read, ip::f_epoll_wait, ip::f_read, ip::f_poll};
    static int const errs[][3] = {{EAGAIN, EINTR, 0}, {EINTR, EINTR, 0}, {EINTR, EAGAIN, EAGAIN}, {EINTR, EINTR, 0}};
    int at = 1;
    for (u32 k = 0; k < c.cfg[3] % 9; ++k) {
      u32 x = c.cfg[4] / (k + 1) + c.cfg[5] * k;
      u32 f = x % 4;
      at += 1 + (int)(x / 4 % 4);
      if (f == 3) plan.push_back({fns[f], 1 + at % 3, EINTR, 1 + (int)(x / 48 % 8)});
      else plan.push_back({fns[f], at, errs[f][x / 16 % 3], 1 + (int)(x / 48 % 3)});
    }
    ip::plan(plan);
    if (c.cfg[6] % 3) {
      struct sigaction sa{};
      sa.sa_handler = on_signal;
      sigaction(SIGUSR1, &sa, nullptr);
      sig.start(20 + c.cfg[6] % 400);
    }
  }
  if (c.cfg[7] % 4 == 0) {
    std::vector<unsigned> segs;
    for (u32 k = 0; k < 1 + c.cfg[7] / 4 % 5; ++k) segs.push_back(800 + (c.cfg[5] * (k + 1) * 37) % 3300);
    ip::segment(segs);
  }
  auto rec = std::make_shared<Recorder>();
  auto t = core::open(root, rec);
  long flushes = 0;
  auto finish = [&](Outcome o) {
    rec->release();
    bool ok = core::close(*t);
    if (o.ok && ! ok) o = Outcome::bad("close() is false");
    core::destroy(t);
    if (o.ok) {
      std::lock_guard g{rec->m};
      unsigned over = 0, phantoms = 0;
      for (auto& e : rec->evs) {
        if (e.pt != sut::watcher) continue;
        if (e.path.compare(0, 2, "e/") == 0) o = Outcome::bad("an error: " + core::show(e));
        else if (e.path == "w/sys/q_overflow@") ++over;
        else if (e.path == "w/sys/phantom@") ++phantoms;
        // Directories may go before they're marked
        else if (! is_warning(e, "w/sys/not_watched@") && ! is_warning(e, "s/self/")) o = Outcome::bad("an odd message: " + core::show(e));
      }
      auto in = ip::injected();
      auto n1 = (unsigned)std::count(in.begin(), in.end(), 1u), n2 = (unsigned)std::count(in.begin(), in.end(), 2u);
      if (o.ok && over != n1) o = Outcome::bad(std::to_string(over) + " overflow warnings for " + std::to_string(n1) + " overflows");
      // What happens in a directory which just left may be one, too
      for (auto k : {"move-out-dir", "reuse"}) if (w.did.count(k)) n2 = ~0u;
      if (o.ok && phantoms > n2) o = Outcome::bad(std::to_string(phantoms) + " phantom warnings for " + std::to_string(n2) + " phantoms");
      info.counts["overflow events"] += n1;
      info.counts["phantom events"] += (long)std::count(in.begin(), in.end(), 2u);
      info.counts["stray ends of watches"] += (long)std::count(in.begin(), in.end(), 3u);
    }
    if (! o.ok) o.msg += "\n  interrupted: " + ip::log_fired() + "\n  history:" + history(w);
    return o;
  };
  if (! sync(*rec, root)) return finish(Outcome::bad("the watcher isn't reporting anything"));
  w.live = true;
  size_t from = rec->size();
  auto settle = [&]() -> Outcome {
    rec->release();
    auto want = view(w.raws, root, w.may_split);
    // (What's reported doesn't wait for something else to happen.)
    bool prompt = rec->wait(shrinking() ? 1 : 4, [&](auto& evs) { return match(want, relevant({evs.begin() + (long)std::min(from, evs.size()), evs.end()}, true)).ok; });
    if (! sync(*rec, root)) return Outcome::bad("the watcher stopped reporting");
    auto o = match(want, relevant(rec->since(from), true));
    if (o.ok && ! prompt) o = Outcome::bad("reported only when something else happened");
    from = rec->size();
    w.reset_burst();
    ++flushes;
    if (o.ok && gated && ! hold(*rec, root)) o = Outcome::bad("the watcher stopped reporting (hold)");
    return o;
  };
  w.flush = settle;
  if (gated && ! hold(*rec, root)) return finish(Outcome::bad("the watcher stopped reporting (hold)"));
  for (; i < c.ops.size(); ++i) {
    int a = acts[c.ops[i][0] % 18];
    r = a == a_flush ? settle() : w.act(a, c.ops[i], root, did);
    if (r.ok && steps && a != a_flush && did) r = settle();
    if (! r.ok) return finish(r);
  }
  r = settle();
  info.counts["flushes"] += flushes;
  if (kind == strays) info.nontrivial = ! ip::injected().empty();
  else {
    info.counts["interrupted calls"] += ip::fired();
    info.counts["signals"] += sig.n;
    info.nontrivial = ip::fired() > 0 || sig.n > 0;
  }
  info.describe = (steps ? "steps" : gated ? "gated" : "bursts") + string(", interrupted: ") + ip::log_fired() + std::to_string(sig.n) + " signals, " + std::to_string(ip::injected().size()) + " strays;";
  summary(w, info);
  return finish(r);
}

// Failures

Outcome run_faults(Case const& c, Info& info)
{
  ip::reset();
  Scratch scratch;
  World w{scratch.path};
  base_dirs(w);
  auto root = w.roots[0];
  w.pick_names(c.cfg[0]);
  w.flush = [] { return Outcome{}; };
  static int const acts[] = {a_create, a_create, a_create_write, a_write, a_unlink, a_mkdir, a_mkdir, a_mkdirs, a_mkdirs, a_rmdir, a_rm_r, a_rename_file,
    a_move_in, a_movein_tree, a_movein_tree, a_flush};
  bool did;
  Outcome r;
  size_t i = 0;
  for (; i < c.ops.size() * (c.cfg[1] % 4) / 6; ++i)
    if (r = w.act(acts[c.ops[i][0] % 16], c.ops[i], root, did); ! r.ok) return r;
  w.say("-- watch");

  static int const fns[] = {ip::f_eventfd, ip::f_inotify_init, ip::f_inotify_add_watch, ip::f_epoll_create, ip::f_epoll_ctl, ip::f_epoll_wait,
    ip::f_read, ip::f_realpath, ip::f_opendir, ip::f_inotify_add_watch, ip::f_inotify_add_watch, ip::f_opendir, ip::f_realpath};
  static int const errs[] = {ENOMEM, EMFILE, ENOSPC, EACCES, EIO, ENFILE, EBADF, EINVAL, EPERM, ENOSYS};
  bool const at_start = c.cfg[2] % 3 != 0;
  std::vector<ip::Fault> plan;
  for (u32 k = 0; k < 1 + c.cfg[2] / 3 % 2; ++k) {
    u32 x = c.cfg[3 + k];
    ip::Fault f;
    f.fn = fns[x % 13];
    f.nth = 1 + (int)(x / 13 % (f.fn == ip::f_epoll_ctl ? 2 : f.fn == ip::f_eventfd || f.fn == ip::f_inotify_init || f.fn == ip::f_epoll_create ? 1 : 6));
    f.err = errs[x / 78 % 10];
    f.times = x / 780 % 4 == 0 ? 1000000 : 1 + (int)(x / 3120 % 3);
    if (f.times > 3 && x / 3120 % 2) f.nth = 1;   // always
    plan.push_back(f);
  }
  auto fds0 = fds();
  int threads0 = threads();
  if (at_start) ip::plan(plan);
  auto rec = std::make_shared<Recorder>();
  auto t = core::open(root, rec);

  auto dead = [](std::vector<sut::Ev> const& e)
  { return ! e.empty() && e.back().pt == sut::watcher && e.back().path.find("/self/die@") == 1; };
  auto is_dead = [&] { std::lock_guard g{rec->m}; return dead(rec->evs); };
  // It's done starting when it waits, or dies
  auto limit = now_s() + 4;
  while (! is_dead() && ip::calls(ip::f_epoll_wait) == 0 && now_s() < limit) usleep(100);

  string log;
  auto finish = [&](Outcome o) {
    log = ip::log_fired();
    rec->release();
    bool ok = core::close(*t);
    bool died = false;  // it may have, as late as now
    {
      std::lock_guard g{rec->m};
      rec->done = true;
      died = dead(rec->evs) && rec->evs.back().path[0] == 'e';
    }
    if (o.ok && ok == died) o = Outcome::bad(string("close() is ") + (ok ? "true" : "false") + ", though the watcher " + (died ? "ended with an error" : "didn't end"));
    bool again = core::close(*t);
    core::destroy(t);
    std::lock_guard g{rec->m};
    auto& e = rec->evs;
    if (o.ok && again) o = Outcome::bad("close() is true again");
    if (o.ok && rec->late) o = Outcome::bad("events after the end");
    if (o.ok && e.size() < 2) o = Outcome::bad("fewer than two messages");
    if (o.ok && died) {
      // e/live, e/die; or s/live, ..., e/what, e/die
      auto& last = e.back();
      if (last.path != "e/self/die@" + root) o = Outcome::bad("the last message isn't an error: " + core::show(last));
      auto& why = e[e.size() - 2];
      bool err = why.pt == sut::watcher && why.path.compare(0, 2, "e/") == 0 && why.path.size() > root.size()
              && why.path.compare(why.path.size() - root.size() - 1, string::npos, "@" + root) == 0;
      if (o.ok && ! err) o = Outcome::bad("it ended without an error message, after: " + core::show(why));
    }
    long lives = 0, dies = 0, errors = 0;
    for (auto& v : e)
      if (v.pt == sut::watcher) {
        lives += v.path.find("/self/live@") == 1;
        dies += v.path.find("/self/die@") == 1;
        errors += v.path.compare(0, 2, "e/") == 0;
        if (o.ok && v.path.compare(0, 2, "w/") == 0 && ! is_warning(v, "w/sys/not_watched@")) o = Outcome::bad("a warning about something else: " + core::show(v));
      }
    if (o.ok && (lives != 1 || dies != 1)) o = Outcome::bad("not one live and one die message");
    if (o.ok && died && errors != 2) o = Outcome::bad(std::to_string(errors) + " error messages");
    if (o.ok && ! died && errors) o = Outcome::bad("an error message, but it went on");
    if (o.ok && ip::bad_closes()) o = Outcome::bad("a file descriptor was closed which wasn't open");
    auto now = fds();
    if (o.ok && now != fds0) {
      string m = "file descriptors differ afterwards:";
      for (auto& f : now) if (! fds0.count(f)) m += " +" + f;
      for (auto& f : fds0) if (! now.count(f)) m += " -" + f;
      o = Outcome::bad(m);
    }
    auto t0 = now_s();
    while (threads() > threads0 && now_s() - t0 < 3) usleep(500);
    if (o.ok && threads() > threads0) o = Outcome::bad("a thread is left over");
    if (! o.ok) {
      o.msg += "\n  failed: " + log + "\n  history:" + history(w) + "\n  events:";
      for (size_t k = 0; k < e.size() && k < 12; ++k) o.msg += "\n    " + core::show(e[k]);
    }
    return o;
  };

  // Directories which aren't watched, as far as we were told
  bool const by_opendir = std::any_of(plan.begin(), plan.end(), [](auto& f) { return f.fn == ip::f_opendir; });
  auto dark_of = [&]() {
    std::set<string> dark;
    std::lock_guard g{rec->m};
    for (auto& e : rec->evs)
      if (is_warning(e, "w/sys/not_watched@")) dark.insert(e.path.substr(18));
    return dark;
  };
  std::set<string> unseen;  // what appeared in those
  auto is_dark = [&](std::set<string> const& dark, string const& dir) {
    if (dark.count(dir)) return true;
    if (std::any_of(unseen.begin(), unseen.end(), [&](auto& u) { return dir == u || w.in(u, dir); })) return true;
    return by_opendir && std::any_of(dark.begin(), dark.end(), [&](auto& u) { return w.in(u, dir); });
  };
  auto up = [](string const& p) { return p.substr(0, p.rfind('/')); };
  for (auto& d : dark_of())
    if (d != root && ! w.t.count(d)) return finish(Outcome::bad("a warning about what isn't a directory of the tree: " + core::show(d)));

  size_t from = rec->size();
  bool ended = false;
  string where;
  auto learn = [&](std::set<string> const& dark) {
    auto want = view(w.raws, root, true);
    for (auto& x : want) {
      bool f = is_dark(dark, up(x.path)), g = x.assoc && is_dark(dark, up(x.apath));
      if (x.assoc ? (f || x.from_opt) && (g || x.to_opt) : f) x.opt = true;
      if (x.assoc && (f || g)) x.halves = true, x.max = 2;
      // Appeared where we don't look, or is itself not watched
      if (x.type == 'd' && x.et == sut::create && f) unseen.insert(x.path);
      if (x.type == 'd' && x.et == sut::rename_ && (x.assoc ? g : f)) unseen.insert(x.assoc ? x.apath : x.path);
    }
    return want;
  };
  auto settle = [&]() -> Outcome {
    if (ended) { w.reset_burst(); return {}; }
    auto stop = now_s() + patience();
    bool synced = false;
    // Some directory which is watched
    auto dark = dark_of();
    learn(dark);
    auto ds = w.all('d', root);
    ds.insert(ds.begin(), root);
    if (where.empty() || is_dark(dark, where) || std::find(ds.begin(), ds.end(), where) == ds.end()) {
      where.clear();
      for (auto& d : ds) if (where.empty() && d.size() < 3000 && ! is_dark(dark, d) && ! w.unsettled(d + "/x")) where = d;
    }
    if (where.empty()) {   // none is left
      usleep(20000);
      ended = is_dead();
      w.reset_burst();
      from = rec->size();
      return {};
    }
    while (! synced && ! (ended = is_dead()) && now_s() < stop) synced = sync(*rec, where, 0.3);
    if (! synced && ! ended) ended = is_dead();
    if (! synced && ! ended) return Outcome::bad("the watcher stopped reporting");
    dark = dark_of();
    auto want = learn(dark);
    auto evs = rec->since(from);
    from += evs.size();
    ended = ended || dead(evs);
    auto got = relevant(evs, true);
    // It might be between these two
    if (! ended && ! got.empty() && got.back().pt == sut::watcher && got.back().path.compare(0, 2, "e/") == 0)
      ended = rec->wait(patience(), dead);
    if (ended)
      got.erase(std::remove_if(got.begin(), got.end(), [](auto& e) { return e.pt == sut::watcher; }), got.end());
    auto o = match(want, got, ended);
    w.reset_burst();
    return o;
  };
  w.live = true;
  w.may_split = true;
  if (! at_start) {
    w.flush = settle;
    if (r = settle(); ! r.ok) return finish(r);
    ip::reset();
    ip::plan(plan);
  }
  w.flush = settle;
  if (r = settle(); ! r.ok) return finish(r);
  // One which can't watch anything is no watcher
  if (at_start && ! ended && std::any_of(plan.begin(), plan.end(), [](auto& f) { return f.fn == ip::f_inotify_add_watch && f.nth == 1 && f.times > 3; })) {
    ended = rec->wait(1, dead);
    if (! ended) return finish(Outcome::bad("nothing is watched, but the watcher didn't end"));
  }
  for (; i < c.ops.size(); ++i) {
    int a = acts[c.ops[i][0] % 16];
    r = a == a_flush ? settle() : w.act(a, c.ops[i], root, did);
    if (r.ok && a != a_flush && did && c.cfg[6] % 3 == 0) r = settle();
    if (! r.ok) return finish(r);
  }
  if (r = settle(); ! r.ok) return finish(r);
  // Not being able to watch some directory isn't fatal, unless it's all of them
  bool soft = std::all_of(plan.begin(), plan.end(), [](auto& f)
    { return f.fn == ip::f_inotify_add_watch || f.fn == ip::f_realpath || f.fn == ip::f_opendir; });
  if (ended && soft && ! at_start) return finish(Outcome::bad("the watcher ended because a directory couldn't be watched"));
  if (ended && ip::fired() == 0) return finish(Outcome::bad("the watcher ended for no reason"));
  info.nontrivial = ip::fired() > 0;
  for (auto& f : plan) ++info.counts[string("planned: ") + ip::fn_name(f.fn)];
  info.counts["failed calls"] += ip::fired();
  info.counts[ended ? "ended by it" : "survived it"]++;
  info.counts["directories not watched"] += (long)dark_of().size();
  info.describe = string(at_start ? "failing from the start: " : "failing later: ") + ip::log_fired().substr(0, 80) + (ended ? "(ended)" : "(survived)");
  summary(w, info);
  return finish({});
}

}  // namespace

int main(int argc, char** argv)
{
  add({"overflow", run_overflow, 40, 18,
    "histories in which the kernel's queue overflows while the callback blocks: what fit is delivered, in order, then one warning, and later changes "
    "exactly; non-trivial: it overflowed", 60});
  add({"strays", [](Case const& c, Info& i) { return run_disturbed(strays, c, i); }, 44, 18,
    "histories, with events which report overflows, unknown watches and their ends inserted between the kernel's at random: the others are "
    "as expected, and each overflow is a warning; non-trivial: some were inserted", 60});
  add({"interruptions", [](Case const& c, Info& i) { return run_disturbed(interruptions, c, i); }, 44, 18,
    "histories during which the watcher's reads and waits are interrupted, would block, or return nothing, at random (injected), and signals hit its thread "
    "(for real); non-trivial: there was at least one interruption or signal", 60});
  add({"faults", run_faults, 40, 16,
    "histories with one or two failing interfaces, at random (which, when, with what, how often): the watcher either goes on, reporting exactly what "
    "happens in all directories but those it warned about, or ends with an error; descriptors and threads are as before; non-trivial: something failed", 60});
  return core::main(argc, argv);
}
