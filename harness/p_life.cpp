// Lives of watchers: how they begin and end, what closing does, and what's
// left of them.
#include "core.hpp"
#include "ip.hpp"
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

#if __has_include(<sanitizer/allocator_interface.h>)
#include <sanitizer/allocator_interface.h>
#define ALLOCATED() __sanitizer_get_current_allocated_bytes()
#else
#define ALLOCATED() size_t(0)
#endif

using namespace core;
using std::string;

namespace {

enum Judge { brackets, verdicts, endings };

void touch(string const& p)
{
  int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
  if (fd >= 0) ::close(fd);
}

struct Churn {
  std::atomic<bool> stop{false};
  std::atomic<long> n{0};
  std::vector<std::thread> ts;
  void start(string dir, int threads)
  {
    for (int i = 0; i < threads; ++i)
      ts.emplace_back([this, dir, i] {
        ip::Own own;
        auto base = dir + "/churn" + std::to_string(i);
        for (long k = 0; ! stop; ++k) {
          auto p = base + "-" + std::to_string(k % 7);
          if (k % 11 == 5) mkdir((p + "d").c_str(), 0700);
          if (k % 11 == 9) rmdir((base + "-" + std::to_string((k - 4) % 7) + "d").c_str());
          if (k % 3 == 0) touch(p);
          else if (k % 3 == 1) rename((base + "-" + std::to_string((k - 1) % 7)).c_str(), (p + "r").c_str());
          else unlink((base + "-" + std::to_string((k - 1) % 7) + "r").c_str());
          ++n;
        }
      });
  }
  ~Churn()
  {
    stop = true;
    for (auto& t : ts) t.join();
  }
};

char const* const kinds[] = {"directory", "directory, by a symlink", "directory, relative", "directory, trailing slash", "directory, odd name",
  "file", "nothing", "dangling symlink", "fifo", "below a file", "name too long", "symlink loop", "empty path", "symlink to a file"};

Outcome run_life(Judge judge, Case const& c, Info& info)
{
  ip::reset();
  Scratch scratch;
  auto base = scratch.path;
  auto root = base + "/w";
  u32 kind = c.cfg[0] % 28;
  if (kind >= 14) kind = (kind - 14) % 5;
  bool const is_dir = kind < 5;
  if (kind == 4) {
    static char const* const odd[] = {"qu\"o\\te", "new\nline", "\xff\xfe", "a (deleted)", "s", "s/self", "@", " ", "%s", "\x01", "live@"};
    root = base + "/" + odd[c.cfg[5] % 11];
    if (root.find("s/self") != string::npos) mkdir((base + "/s").c_str(), 0700);
  }
  if (mkdir(root.c_str(), 0755) != 0) return Outcome::bad("harness: mkdir");
  string path = root;
  switch (kind) {
    case 1: path = base + "/l"; (void)! symlink("w", path.c_str()); break;
    case 2: path = c.cfg[5] % 2 ? "w" : "./w/../w"; break;
    case 3: path = root + (c.cfg[5] % 2 ? "/" : "/."); break;
    case 5: path = base + "/f"; touch(path); break;
    case 6: path = base + "/nothing"; break;
    case 7: path = base + "/l"; (void)! symlink("nothing", path.c_str()); break;
    case 8: path = base + "/p"; (void)! mkfifo(path.c_str(), 0600); break;
    case 9: path = base + "/f/x"; touch(base + "/f"); break;
    case 10: path = base + "/" + string(300, 'n'); break;
    case 11: path = base + "/l"; (void)! symlink("l", path.c_str()); break;
    case 12: path = ""; break;
    case 13: path = base + "/l"; touch(base + "/f"); (void)! symlink("f", path.c_str()); break;
    default: break;
  }
  string abs = path;
  if (kind == 2) {
    (void)! chdir(base.c_str());
    abs = base + "/" + path;
  }
  struct Back { ~Back() { (void)! chdir("/"); } } back;

  // What's there already
  int pre = (int)(c.cfg[5] / 16 % 4 == 3 ? c.cfg[5] % 60 : c.cfg[5] % 6);
  string d = root;
  for (int i = 0; i < pre; ++i) {
    auto p = (i % 3 ? d : root) + "/d" + std::to_string(i);
    mkdir(p.c_str(), 0700);
    d = p;
  }

  u32 n_w = 1 + (c.cfg[6] % 8 >= 6 ? c.cfg[6] % 3 : 0);
  u32 when = c.cfg[1] % 9;       // when to close
  u32 how = c.cfg[4] % 4;        // close once, or more often, or destroy
  u32 slow = c.cfg[3] % 4;       // the callback
  u32 threads = when == 5 || when == 6 ? 1 + c.cfg[2] % 3 : 0;
  bool const was_live = when >= 1 && when != 3;
  static char const* const whens[] = {"at once", "when live", "when settled", "a bit later", "with a backlog", "during changes", "during changes, after a while", "when its directory is gone", "after an error"};

  struct W {
    Rec rec = std::make_shared<Recorder>();
    std::unique_ptr<sut::Watcher> w;
    bool closed = false, ok = false;
    std::vector<bool> again;
    double took = 0;
    size_t at_stop = 0;
    long use = 0;
    size_t n = 0;
  };
  std::vector<W> ws(n_w);
  for (auto& w : ws) {
    if (slow >= 2) w.rec->also = [slow](sut::Ev const&) { usleep(slow == 2 ? 50 : 400); };
    w.w = core::open(path, w.rec);
  }
  auto stuck = [&](string const& m) {
    for (auto& w : ws) w.rec->release();
    return Outcome::bad(m + " (" + kinds[kind] + ", close " + whens[when] + ")");
  };
  if (was_live)
    for (auto& w : ws)
      if (! w.rec->wait(patience(), [](auto& e) { return ! e.empty(); })) return stuck("no live message");
  if (is_dir && was_live && when >= 2)
    for (auto& w : ws)
      if (! sync(*w.rec, root)) return stuck("the watcher isn't reporting anything");

  // Some changes
  long did = 0;
  for (auto& o : c.ops) {
    auto p = root + "/o" + std::to_string(o[1] % 5);
    switch (o[0] % 6) {
      case 0: touch(p); break;
      case 1: unlink(p.c_str()); break;
      case 2: mkdir((p + "d").c_str(), 0700); break;
      case 3: rename((p + "d").c_str(), (root + "/x" + std::to_string(o[2] % 4)).c_str()); break;
      case 4: rmdir((p + "d").c_str()); break;
      default: rename(p.c_str(), (root + "/y" + std::to_string(o[2] % 4)).c_str()); break;
    }
    ++did;
  }
  long backlog = 0;
  if (when == 4 && is_dir) {
    for (auto& w : ws) {
      {
        std::lock_guard g{w.rec->m};
        w.rec->hold_at = "/.wsync-hold";
      }
    }
    touch(root + "/.wsync-hold");
    for (auto& w : ws) {
      std::unique_lock g{w.rec->m};
      if (! w.rec->cv.wait_for(g, std::chrono::duration<double>(patience()), [&] { return w.rec->holding; })) {
        g.unlock();
        return stuck("the watcher stopped reporting (hold)");
      }
    }
    backlog = c.cfg[2] % 3 == 0 ? 6000 : 200;
    int a = ::open((root + "/a").c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
    int b = ::open((root + "/b").c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
    for (long i = 0; i < backlog; ++i) (void)! ::write(i % 2 ? a : b, "x", 1);
    ::close(a), ::close(b);
  }
  if (when == 7 && is_dir) rm_rf(base, root);
  bool broke = when == 8 && is_dir;
  if (broke) {
    // What it can't recover from
    static int const errs[] = {EBADF, EINVAL, EIO, ENOMEM};
    int fn = c.cfg[2] % 2 ? ip::f_epoll_wait : ip::f_read;
    ip::plan({{fn, ip::calls(fn) + 1, errs[c.cfg[2] / 2 % 4], 1 << 28}});
    for (int i = 0; i < 2000; ++i) {
      touch(root + "/broke" + std::to_string(i % 2));
      unlink((root + "/broke" + std::to_string(i % 2)).c_str());
      bool ended = true;
      for (auto& w : ws) ended = ended && w.rec->wait(0.005, [](auto& e) { return ! e.empty() && e.back().path.compare(0, 11, "e/self/die@") == 0; });
      if (ended) break;
    }
    broke = ip::fired() > 0;
    if (c.cfg[2] / 8 % 2) usleep(2000);
  }
  auto churn = std::make_unique<Churn>();
  if (is_dir) churn->start(root, (int)threads);
  if (when == 6) usleep(2000 + c.cfg[2] % 5 * 3000);
  if (when == 3) usleep(c.cfg[2] % 3000);

  // The end
  long const stops = ip::stops;
  auto end = [&](W& w) {
    ip::Own own;
    auto t0 = now_s();
    if (how != 3) {
      bool ok = core::close(*w.w);
      {
        std::lock_guard g{w.rec->m};
        w.rec->done = true;
        w.n = w.rec->evs.size();
      }
      w.took = now_s() - t0;
      w.ok = ok;
      w.closed = true;
      for (u32 i = 0; i < how; ++i) w.again.push_back(core::close(*w.w));
    }
    t0 = now_s();
    core::destroy(w.w);
    {
      std::lock_guard g{w.rec->m};
      w.rec->done = true;
      w.n = w.rec->evs.size();
    }
    w.took = std::max(w.took, now_s() - t0);
    w.use = w.rec.use_count();
  };
  std::vector<std::thread> enders;
  bool parallel = n_w > 1 && c.cfg[6] % 2;
  if (backlog) {
    for (auto& w : ws) {
      enders.emplace_back([&] { end(w); });
      auto t = now_s() + 2;
      while (ip::stops == stops && now_s() < t) usleep(200);
      {
        std::lock_guard g{w.rec->m};
        w.at_stop = w.rec->evs.size();
      }
      // However long the callback takes
      if (c.cfg[2] % 16 == 5 && &w == &ws[0]) usleep(3'000'000 + c.cfg[7] % 4 * 1'000'000);
      w.rec->release();
      if (! parallel) enders.back().join(), enders.pop_back();
    }
  }
  else
    for (auto& w : ws) {
      if (parallel) enders.emplace_back([&] { end(w); });
      else end(w);
    }
  for (auto& t : enders) t.join();
  // Changes go on, for a bit
  if (is_dir) touch(root + "/late");
  if (threads) usleep(3000);
  churn.reset();
  if (c.cfg[7] % 4 == 0) usleep(2000);

  string desc = string(kinds[kind]) + ", closed " + whens[when] + (how == 3 ? " by destruction" : how ? " and again" : "") + ", "
              + std::to_string(did) + " changes" + (backlog ? ", " + std::to_string(backlog) + " queued" : "")
              + (slow >= 2 ? ", slow callback" : "") + (n_w > 1 ? ", " + std::to_string(n_w) + " watchers" : "") + ", " + std::to_string(pre) + " directories";
  info.describe = desc;
  ++info.counts[kinds[kind]];
  ++info.counts[string("closed ") + whens[when]];
  info.nontrivial = true;

  for (auto& w : ws) {
    std::lock_guard g{w.rec->m};
    auto& e = w.rec->evs;
    auto bad = [&](string m) {
      m += "\n  (" + desc + ")\n  events:";
      for (size_t i = 0; i < e.size(); ++i)
        if (i < 8 || i + 8 > e.size()) m += "\n    " + core::show(e[i]);
      return Outcome::bad(m);
    };
    info.counts["events"] += (long)e.size();
    bool alive = ! e.empty() && e[0].path.compare(0, 7, "s/self/") == 0;
    if (judge == brackets) {
      if (e.size() < 2) return bad("fewer than two messages");
      auto msg = [&](sut::Ev const& v, char const* s, int et) {
        return v.pt == sut::watcher && v.et == et && ! v.assoc && v.path.compare(0, strlen(s), s) == 0;
      };
      bool s_live = msg(e[0], "s/self/live@", sut::create), e_live = msg(e[0], "e/self/live@", sut::create);
      bool s_die = msg(e.back(), "s/self/die@", sut::destroy), e_die = msg(e.back(), "e/self/die@", sut::destroy);
      if (! s_live && ! e_live) return bad("the first event isn't a live message");
      if (! s_die && ! e_die) return bad("the last event isn't a die message");
      if (kind != 12) {
        for (auto* v : {&e.front(), &e.back()})
          if (v->path.substr(v->path.find('@') + 1) != abs) return bad("a message names another path than " + core::show(abs));
      }
      for (size_t i = 1; i + 1 < e.size(); ++i)
        if (e[i].pt == sut::watcher && (e[i].path.find("/self/live@") == 1 || e[i].path.find("/self/die@") == 1))
          return bad("a live or die message in between");
      if (is_dir && was_live && ! s_live) return bad("an error instead of the live message");
      if (broke && s_die) return bad("no error at the end, though there was one");
      if (is_dir && was_live && ! broke && ! s_die) return bad("an error instead of the die message");
      if (! is_dir && (s_live || s_die)) return bad("success for something which isn't a directory");
      if (! is_dir && e.size() != 2) return bad("events about something which isn't a directory");
      if (s_live != s_die && ! (broke && s_live)) return bad("the messages disagree");
      for (auto& v : e)
        if (s_live && ! broke && v.pt == sut::watcher && v.path.compare(0, 2, "e/") == 0) return bad("an error without a reason");
    }
    if (judge == verdicts) {
      if (! w.closed) { info.nontrivial = n_w > 1; continue; }
      bool die_ok = ! e.empty() && e.back().path.compare(0, 11, "s/self/die@") == 0;
      if (w.ok != (alive && die_ok)) return bad(string("close() is ") + (w.ok ? "true" : "false") + ", against the last message");
      if (broke && w.ok) return bad("close() is true after an error");
      if (is_dir && was_live && ! broke && ! w.ok) return bad("close() is false for a watcher which worked");
      if (! is_dir && w.ok) return bad("close() is true for what isn't a directory");
      for (auto b : w.again) if (b) return bad("close() is true again");
      if (e.size() != w.n) return bad("closing again had an effect");
    }
    if (judge == endings) {
      if (w.took > 15) return bad("closing took " + std::to_string(w.took) + " s");
      if (w.rec->late) return bad(std::to_string(w.rec->late) + " events after the end");
      if (w.rec->inside) return bad("a callback is still running after the end");
      if (w.use != 1) return bad("the callback outlives its watcher (" + std::to_string(w.use - 1) + " copies)");
      if (backlog && w.n - w.at_stop > 1200 && backlog > 3000)
        return bad(std::to_string(w.n - w.at_stop) + " events were delivered after close() was called, with " + std::to_string(backlog) + " queued");
      info.nontrivial = when >= 3 || n_w > 1 || slow >= 2;
    }
  }
  return {};
}

// Kernel watches, of all of our inotify instances: inodes
std::vector<std::vector<unsigned long>> kernel_watches()
{
  std::vector<std::vector<unsigned long>> all;
  for (auto& f : fds()) {
    auto at = f.find(':');
    if (f.find("inotify", at) == string::npos) continue;
    std::ifstream in{"/proc/self/fdinfo/" + f.substr(0, at)};
    std::vector<unsigned long> v;
    string line;
    while (std::getline(in, line)) {
      auto i = line.find(" ino:");
      if (line.compare(0, 8, "inotify ") == 0 && i != string::npos) v.push_back(strtoul(line.c_str() + i + 5, nullptr, 16));
    }
    std::sort(v.begin(), v.end());
    all.push_back(v);
  }
  return all;
}

void inodes(string const& dir, std::vector<unsigned long>& v)
{
  struct stat st;
  if (lstat(dir.c_str(), &st) != 0) return;
  v.push_back(st.st_ino);
  DIR* d = opendir(dir.c_str());
  if (! d) return;
  while (auto* e = readdir(d)) {
    if (! strcmp(e->d_name, ".") || ! strcmp(e->d_name, "..") || e->d_type != DT_DIR) continue;
    inodes(dir + "/" + e->d_name, v);
  }
  closedir(d);
}

Outcome run_gives(Case const& c, Info& info)
{
  ip::reset();
  static bool warm = false;
  if (! warm) {  // whatever is allocated just once
    warm = true;
    Scratch s;
    auto rec = std::make_shared<Recorder>();
    auto w = core::open(s.path, rec);
    sync(*rec, s.path);
    destroy(w);
  }
  Scratch scratch;
  world::World w{scratch.path};
  auto root = w.base + "/w";
  for (auto d : {"/w", "/wx", "/o"}) mkdir((w.base + d).c_str(), 0755);
  w.roots = {root};
  w.pick_names(c.cfg[0]);
  w.flush = [] { return Outcome{}; };
  static int const acts[] = {world::a_mkdir, world::a_mkdirs, world::a_rmdir, world::a_rm_r, world::a_rename_dir, world::a_moveout_dir,
    world::a_movein_tree, world::a_reuse, world::a_create, world::a_write, world::a_rename_file, world::a_mkdir, world::a_moveout_dir, world::a_swap_names};
  bool did;
  Outcome r;
  size_t i = 0;
  for (; i < c.ops.size() * (c.cfg[1] % 4) / 8; ++i)
    if (r = w.act(acts[c.ops[i][0] % 14], c.ops[i], root, did); ! r.ok) return r;

  auto fds0 = fds();
  auto threads0 = threads();
  u32 n_w = 1 + c.cfg[2] % 3;
  u32 rounds = c.cfg[3] % 6 == 0 ? 6 : 1;   // the same again, looking at memory
  std::vector<size_t> mem;
  long checked = 0;
  string desc;
  for (u32 round = 0; round < rounds; ++round) {
    struct W { Rec rec = std::make_shared<Recorder>(); std::unique_ptr<sut::Watcher> w; };
    std::vector<W> ws(n_w);
    bool odd = c.cfg[4] % 4 == 0;  // some of them can't watch anything
    for (u32 k = 0; k < n_w; ++k)
      ws[k].w = core::open(odd && k ? w.base + (k % 2 ? "/nothing" : "/o/../nothing") : root, ws[k].rec);
    auto done = [&](Outcome o) {
      for (auto& x : ws) x.rec->release();
      return o;
    };
    for (u32 k = 0; k < n_w; ++k)
      if (! (odd && k) && ! sync(*ws[k].rec, root)) return done(Outcome::bad("the watcher isn't reporting anything"));
    auto held = fds().size();
    auto look = [&]() -> Outcome {
      for (u32 k = 0; k < n_w; ++k)
        if (! (odd && k) && ! sync(*ws[k].rec, root)) return Outcome::bad("the watcher stopped reporting");
      auto n = fds().size();
      for (auto& f : fds())
        if (! fds0.count(f) && ! (fcntl(atoi(f.c_str()), F_GETFD) & FD_CLOEXEC)) return Outcome::bad("a descriptor which other programs inherit: " + f);
      if (n != held) return Outcome::bad(std::to_string(n) + " file descriptors while watching, " + std::to_string(held) + " at first");
      std::vector<unsigned long> want;
      inodes(root, want);
      std::sort(want.begin(), want.end());
      auto got = kernel_watches();
      u32 expect = odd ? 1 : n_w;
      if (got.size() != expect) return Outcome::bad("harness: " + std::to_string(got.size()) + " inotify instances, for " + std::to_string(expect) + " watchers");
      for (auto& g : got)
        if (g != want)
          return Outcome::bad(std::to_string(g.size()) + " kernel watches, for " + std::to_string(want.size()) + " directories"
            + (g.size() == want.size() ? " (and not the same ones)" : ""));
      ++checked;
      return {};
    };
    if (rounds == 1) {
      w.live = true;
      w.flush = [&]() -> Outcome { auto r = look(); w.reset_burst(); return r; };
      r = look();
      for (; r.ok && i < c.ops.size(); ++i) {
        r = w.act(acts[c.ops[i][0] % 14], c.ops[i], root, did);
        if (r.ok && c.ops[i][4] % 3 == 0) r = w.flush();
      }
      if (r.ok) r = w.flush();
      if (! r.ok) {
        for (auto& x : ws) x.rec->release();
        r.msg += "\n  history:";
        size_t n = w.log.size();
        for (size_t k = n > 30 ? n - 30 : 0; k < n; ++k) r.msg += "\n    " + core::show(w.log[k]);
        ws.clear();
        return r;
      }
    }
    else {
      // The same little history each time
      for (int k = 0; k < 20; ++k) {
        auto p = root + "/mem" + std::to_string(k % 4);
        mkdir(p.c_str(), 0700);
        touch(p + "/f");
        rename(p.c_str(), (p + "r").c_str());
        unlink((p + "r/f").c_str());
        rmdir((p + "r").c_str());
      }
      for (u32 k = 0; k < n_w; ++k)
        if (! (odd && k) && ! sync(*ws[k].rec, root)) return done(Outcome::bad("the watcher stopped reporting"));
    }
    for (u32 k = 0; k < n_w; ++k) {
      if (c.cfg[5] >> k & 1) core::close(*ws[k].w);
      core::destroy(ws[k].w);
    }
    ws.clear();
    ws.shrink_to_fit();
    mem.push_back(ALLOCATED());
  }
  auto t0 = now_s();
  auto now = fds();
  while (threads() > threads0 && now_s() - t0 < 3) usleep(500);
  info.counts["looks at kernel watches"] += checked;
  info.counts["rounds"] += rounds;
  info.counts["watchers"] += n_w * rounds;
  info.nontrivial = checked > 1 || rounds > 1;
  for (size_t k = 0; k < w.log.size() && k < 20; ++k) info.describe += " [" + core::show(w.log[k]) + "]";
  info.describe += " " + std::to_string(n_w) + " watchers x" + std::to_string(rounds);
  if (now != fds0) {
    string m = "file descriptors differ afterwards:";
    for (auto& f : now) if (! fds0.count(f)) m += " +" + f;
    for (auto& f : fds0) if (! now.count(f)) m += " -" + f;
    return Outcome::bad(m);
  }
  if (threads() > threads0) return Outcome::bad(std::to_string(threads() - threads0) + " threads are left over");
  if (ip::bad_closes()) return Outcome::bad("a file descriptor was closed which wasn't open");
  if (rounds > 1) {
    bool grows = true;
    for (size_t k = 2; k < mem.size(); ++k) grows = grows && mem[k] > mem[k - 1];
    if (grows) {
      string m = "memory grows with every watcher:";
      for (auto x : mem) m += " " + std::to_string(x);
      return Outcome::bad(m);
    }
    ++info.counts["memory compared"];
  }
  return {};
}

}  // namespace

int main(int argc, char** argv)
{
  char const* const lives = "random lives (what the path is, how deep the tree below it, changes, backlogs and slow callbacks meanwhile, when and how it is closed); ";
  for (auto [name, j, rule] : {std::tuple{"brackets", brackets, "each counts"}, {"verdicts", verdicts, "non-trivial: closed explicitly"},
                              {"endings", endings, "non-trivial: something was going on when it was closed"}})
    add({name, [j = j](Case const& c, Info& i) { return run_life(j, c, i); }, 12, 6, string(lives) + rule, 60});
  add({"gives", run_gives, 24, 14, "random histories of directories, with one to three watchers; at each settled point: kernel watches are "
    "those of the tree's directories (by inode) and no file descriptors were taken; at the end: descriptors, threads and memory are as before; "
    "non-trivial: at least two looks, or repeated lives", 60});
  return core::main(argc, argv);
}
