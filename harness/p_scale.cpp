// Big trees, deep trees, long names, bursts from several writers, slow callbacks.
#include "core.hpp"
#include "ip.hpp"
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace core;
using namespace world;
using std::string;

namespace {

constexpr size_t most_path = 3600;
constexpr long most_events = 12000;   // in the kernel's queue at once; it holds 16384

int random_of(u32& s) { return (int)((s = s * 1664525u + 1013904223u) >> 8); }

struct Scale {
  string base, root;
  std::set<string> dirs;        // below the root, settled
  std::vector<string> out;      // directories outside of it, which were in it
  std::vector<Raw> raws;
  Rec rec;
  size_t from = 0;
  bool live = false, may_split = true;
  long n_events = 0, n_dirs = 0, n_probes = 0, deepest = 0, longest = 0;
  string log;
  int n = 0;

  void say(string const& s) { log += " [" + s + "]"; }
  void raw(int et, char type, string const& p, string const& to = {}, int max = 1, bool opt = false)
  {
    if (! live) return;
    Raw r;
    r.et = et, r.type = type, r.path = p, r.to = to, r.max = max, r.opt = opt;
    raws.push_back(r);
  }
  string pick(u32 x) const
  {
    if (dirs.empty() || x % 5 == 0) return root;
    auto i = dirs.begin();
    std::advance(i, x % dirs.size());
    return *i;
  }
  string fresh(char const* s) { return s + std::to_string(++n); }
  static bool within(string const& p, string const& d) { return p == d || (p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/'); }

  Outcome settle()
  {
    rec->release();
    if (! sync(*rec, root, 40)) return Outcome::bad("the watcher stopped reporting");
    auto o = match(view(raws, root, may_split), got());
    raws.clear();
    return o;
  }
  std::vector<sut::Ev> got()
  {
    auto all = rec->since(from);
    from += all.size();
    n_events += (long)all.size();
    std::vector<sut::Ev> r;
    // Warnings count here: nothing warrants one, but that a directory was gone before it was looked into.
    string const gone = "w/sys/not_watched@";
    for (auto& e : all) {
      if (is_sync(e) || e.path.compare(0, 11, "s/self/live") == 0) continue;
      if (e.path.compare(0, gone.size(), gone) == 0 && access(e.path.c_str() + gone.size(), F_OK) != 0) continue;
      r.push_back(e);
    }
    return r;
  }
  // A file in every directory, or in some of them
  Outcome probe(u32 x)
  {
    size_t step = dirs.size() <= 400 ? 1 : 1 + dirs.size() / 400, i = x % 7;
    std::vector<string> at{root};
    for (auto& d : dirs) if (i++ % step == 0 && d.size() <= 4095 - 3) at.push_back(d);
    for (auto& d : at) {
      auto p = d + "/P";
      int fd = ::open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0600);
      if (fd < 0) return Outcome::bad("harness: a directory isn't there: " + core::show(d));
      ::close(fd);
      raw(sut::create, 'f', p);
      unlink(p.c_str());
      raw(sut::destroy, 'f', p);
      ++n_probes;
    }
    auto o = settle();
    if (! o.ok) o.msg = "looking into every directory: " + o.msg;
    return o;
  }
};

// One writer's changes, in a directory of its own
void writer(string const& dir, u32 seed, int ops, std::vector<Raw>& raws)
{
  ip::Own own;
  u32 s = seed;
  std::vector<string> files;
  std::vector<string> subs;   // empty directories
  int n = 0;
  auto raw = [&](int et, char type, string const& p, string const& to = {}, int max = 1) {
    Raw r;
    r.et = et, r.type = type, r.path = p, r.to = to, r.max = max;
    raws.push_back(r);
  };
  static char const* const ds[] = {"/x", "/y", "/x/deeper"};
  auto name = [&] {
    auto v = dir + (random_of(s) % 2 ? "" : ds[random_of(s) % 3]) + "/" + std::to_string(n++);
    return random_of(s) % 40 == 0 ? v + string(240, 'n') : v;
  };
  for (int i = 0; i < ops; ++i) {
    auto x = random_of(s) % 10;
    if (files.empty() || x < 3) {
      auto p = name();
      int fd = ::open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0600);
      if (fd < 0) continue;
      raw(sut::create, 'f', p);
      if (x == 0 && write(fd, "x", 1) == 1) raw(sut::modify, 'f', p);
      ::close(fd);
      files.push_back(p);
      continue;
    }
    auto k = (size_t)random_of(s) % files.size();
    auto& f = files[k];
    if (x < 5) {
      int fd = ::open(f.c_str(), O_WRONLY | O_APPEND | O_CLOEXEC);
      if (fd >= 0 && write(fd, "y", 1) == 1) raw(sut::modify, 'f', f);
      if (fd >= 0) ::close(fd);
    }
    else if (x < 7) {
      auto to = name();
      if (rename(f.c_str(), to.c_str()) == 0) raw(sut::rename_, 'f', f, to), f = to;
    }
    else if (x < 9) {
      if (unlink(f.c_str()) == 0) raw(sut::destroy, 'f', f);
      files.erase(files.begin() + (long)k);
    }
    else if (subs.size() < 4) {
      auto p = dir + "/d" + std::to_string(n++);
      if (mkdir(p.c_str(), 0755) == 0) raw(sut::create, 'd', p), subs.push_back(p);
    }
    else {
      // (Only as it was made: a rename of a directory which just appeared may be seen in parts.)
      if (rmdir(subs[0].c_str()) == 0) raw(sut::destroy, 'd', subs[0]);
      subs.erase(subs.begin());
    }
  }
}

Outcome run_scale(Case const& c, Info& info)
{
  ip::reset();
  Scratch scratch;
  Scale w;
  w.base = scratch.path;
  w.root = w.base + "/w";
  mkdir(w.root.c_str(), 0755), mkdir((w.base + "/o").c_str(), 0755);
  w.rec = std::make_shared<Recorder>();
  auto rec = w.rec;
  std::unique_ptr<sut::Watcher> t;
  Outcome r;
  long budget = 1500;    // directories
  int slow = c.cfg[1] % 3 == 0 ? (int)(c.cfg[1] / 3 % 200) : 0;   // µs, for a while
  std::atomic<int> slow_left{0};
  rec->also = [&](sut::Ev const&) { if (slow_left > 0) --slow_left, usleep((unsigned)slow); };

  auto tree = [&](string const& at, u32 n, u32 fan, std::vector<string>& made) {
    // A tree with n directories, each with up to `fan` in it
    std::vector<string> q{at};
    size_t k = 0;
    for (u32 i = 0; i < n && k < q.size(); ++i) {
      auto p = q[k] + "/" + std::to_string(i);
      if (p.size() > most_path || mkdir(p.c_str(), 0755) != 0) break;
      made.push_back(p), q.push_back(p);
      if (fan > 1 ? i % fan == fan - 1 : true) ++k;
    }
  };
  auto op = [&](Op const& o) -> Outcome {
    u32 k = o[0] % 12;
    auto at = w.pick(o[1]);
    if (k <= 1 && budget > 0) {
      // Many in one directory
      u32 n = std::min<u32>(o[3] % 3 == 0 ? 1100 + o[2] % 400 : 20 + o[2] % 700, (u32)budget);
      if (at.size() > most_path) return {};
      auto d = at + "/" + w.fresh("wide");
      if (mkdir(d.c_str(), 0755) != 0) return {};
      w.raw(sut::create, 'd', d);
      w.dirs.insert(d);
      if (w.live) if (r = w.settle(); ! r.ok) return r;
      w.say("mkdir " + std::to_string(n));
      for (u32 i = 0; i < n; ++i) {
        auto p = d + "/" + std::to_string(i);
        mkdir(p.c_str(), 0755);
        w.raw(sut::create, 'd', p);
        w.dirs.insert(p);
      }
      budget -= n;
      return {};
    }
    if (k <= 4 && budget > 0) {
      // A tree, wide or deep, made elsewhere and moved in; or made in place
      auto d = w.base + "/o/" + w.fresh("t");
      bool chain = k == 4 || o[3] % 3 == 0, in_place = o[4] % 3 == 0;
      std::vector<string> made;
      auto to = at + "/" + w.fresh("tree");
      if (to.size() > most_path) return {};
      if (in_place || ! w.live) d = to;
      if (mkdir(d.c_str(), 0755) != 0) return {};
      made.push_back(d);
      if (chain) {
        // Deep, or with long names
        auto len = o[3] % 4 == 0 ? 250 : 1 + o[3] % 12;
        auto p = d;
        auto depth = std::min<u32>(5 + o[2] % 196, (u32)budget);
        for (u32 i = 0; i < depth; ++i) {
          p += "/" + string(len, (char)('a' + i % 26));
          if (p.size() + to.size() - d.size() > most_path + 300 || mkdir(p.c_str(), 0755) != 0) break;
          made.push_back(p);
        }
        w.deepest = std::max(w.deepest, (long)made.size());
      }
      else tree(d, std::min<u32>(20 + o[2] % 500, (u32)budget), 1 + o[3] % 30, made);
      w.say(string(chain ? "a chain of " : "a tree of ") + std::to_string(made.size()) + (d == to ? " made" : " moved in"));
      budget -= (long)made.size();
      if (d != to) {
        if (rename(d.c_str(), to.c_str()) != 0) return Outcome::bad("harness: rename");
        w.raw(sut::rename_, 'd', d, to);
        for (auto& m : made) m = to + m.substr(d.size());
      }
      else
        // Those which were made before their directory was looked into aren't reported
        for (size_t i = 0; i < made.size(); ++i) w.raw(sut::create, 'd', made[i], {}, 1, i > 0);
      for (auto& m : made) w.dirs.insert(m), w.longest = std::max(w.longest, (long)m.size());
      return w.live ? w.settle() : Outcome{};
    }
    if (! w.live) return {};
    if (k <= 8) {
      // Writers
      u32 n = 1 + o[1] % 6;
      int each = (int)std::min<long>(20 + o[2] % 3000, most_events / 2 / n);
      bool held = o[3] % 2;
      std::vector<string> homes;
      for (u32 i = 0; i < n; ++i) {
        auto in = w.pick(o[4] + i * 31);
        if (in.size() + 300 > most_path) in = w.root;
        for (auto& x : homes) if (Scale::within(in, x)) in = w.root;
        auto h = in + "/" + w.fresh("writer");
        for (auto s : {"", "/x", "/x/deeper", "/y"}) {
          if (mkdir((h + s).c_str(), 0755) != 0) return Outcome::bad("harness: mkdir");
          w.raw(sut::create, 'd', h + s);
          w.dirs.insert(h + s);
          if (r = w.settle(); ! r.ok) return r;
        }
        homes.push_back(h);
      }
      w.say(std::to_string(n) + " writers, each " + std::to_string(each) + (held ? ", unread" : "") + (slow ? ", slow" : ""));
      if (held) {
        auto name = string("/") + sync_prefix + w.fresh("hold");
        {
          std::lock_guard g{rec->m};
          rec->hold_at = name;
        }
        auto p = w.root + name;
        ::close(::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600));
        std::unique_lock g{rec->m};
        if (! rec->cv.wait_for(g, std::chrono::duration<double>(patience()), [&] { return rec->holding; })) return Outcome::bad("the watcher stopped reporting");
      }
      else if (slow) slow_left = 3000;
      std::vector<std::vector<Raw>> raws(n);
      std::vector<std::thread> ts;
      for (u32 i = 0; i < n; ++i) ts.emplace_back([&, i] { writer(homes[i], o[3] + i * 977 + o[2], each, raws[i]); });
      for (auto& x : ts) x.join();
      rec->release();
      if (! sync(*rec, w.root, 40)) return Outcome::bad("the watcher stopped reporting");
      slow_left = 0;
      auto got = w.got();
      size_t seen = 0;
      for (u32 i = 0; i < n; ++i) {
        std::vector<sut::Ev> mine;
        for (auto& e : got) if (Scale::within(e.path, homes[i])) mine.push_back(e);
        seen += mine.size();
        // (Several writers' renames may be between each other's parts in any case.)
        if (r = match(view(raws[i], w.root, ! held || n > 1), mine); ! r.ok) return r.msg = "writer " + std::to_string(i) + ": " + r.msg, r;
      }
      if (seen != got.size())
        for (auto& e : got) {
          bool any = false;
          for (auto& h : homes) any = any || Scale::within(e.path, h);
          if (! any) return Outcome::bad("unexpected: " + core::show(e));
        }
      // What they left (its directories are the only ones that matter)
      for (u32 i = 0; i < n; ++i)
        for (auto& x : raws[i])
          if (x.type == 'd') { if (x.et == sut::create) w.dirs.insert(x.path); else w.dirs.erase(x.path); }
      return {};
    }
    if (w.dirs.empty()) return {};
    auto d = w.pick(o[1] | 1);
    if (d == w.root) return {};
    auto below = [&](string const& top) {
      std::vector<string> v;
      for (auto i = w.dirs.lower_bound(top); i != w.dirs.end() && i->compare(0, top.size(), top) == 0; ++i) if (Scale::within(*i, top)) v.push_back(*i);
      return v;
    };
    if (k == 9 || (k == 10 && o[2] % 2 == 0)) {
      // Rename a directory, with all that's in it
      auto in = w.pick(o[2]);
      bool away = k == 10;
      if (Scale::within(in, d)) in = w.root;
      auto to = away ? w.base + "/o/" + w.fresh("away") : in + "/" + w.fresh("renamed");
      auto v = below(d);
      for (auto& x : v) if (x.size() - d.size() + to.size() > most_path + 300) return {};
      if (rename(d.c_str(), to.c_str()) != 0) return {};
      w.raw(sut::rename_, 'd', d, to);
      w.say(string(away ? "move away " : "rename ") + std::to_string(v.size()));
      for (auto& x : v) {
        w.dirs.erase(x);
        if (! away) w.dirs.insert(to + x.substr(d.size()));
      }
      if (r = w.settle(); ! r.ok) return r;
      if (away)
        // No news from there
        for (size_t i = 0; i < v.size() && i < 200; ++i) {
          auto p = to + v[i].substr(d.size()) + "/P";
          ::close(::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600));
          unlink(p.c_str());
        }
      return w.settle();
    }
    // Remove one
    auto v = below(d);
    if (v.size() > 3000) return {};
    rm_rf(w.base, d);   // (What else is in there is none of ours.)
    w.say("remove " + std::to_string(v.size()));
    for (auto& x : v) w.dirs.erase(x);
    if (! sync(*rec, w.root, 40)) return Outcome::bad("the watcher stopped reporting");
    // Each directory once, those within others first
    std::set<string> gone;
    for (auto& e : w.got()) {
      if (e.et != sut::destroy || ! Scale::within(e.path, d)) return Outcome::bad("unexpected: " + core::show(e));
      if (e.pt == sut::dir && ! gone.insert(e.path).second) return Outcome::bad("again: " + core::show(e));
      if (e.pt == sut::dir)
        for (auto p = e.path; p.size() >= d.size(); p = p.substr(0, p.rfind('/')))
          if (p != e.path && gone.count(p)) return Outcome::bad("after its directory: " + core::show(e));
    }
    for (auto& x : v) if (! gone.count(x)) return Outcome::bad("its removal is missing: " + core::show(x));
    return {};
  };

  size_t pre = c.cfg[2] % 3 == 0 ? 0 : std::min<size_t>(c.ops.size() / 2, 2);
  for (size_t i = 0; i < pre; ++i) if (r = op(c.ops[i]); ! r.ok) return r;
  w.say("watch");
  auto fds0 = fds();
  t = core::open(w.root, rec);
  auto finish = [&](Outcome o) {
    rec->release();
    slow_left = 0;
    bool ok = core::close(*t);
    core::destroy(t);
    if (o.ok && ! ok) o = Outcome::bad("close() is false");
    if (o.ok && rec->late) o = Outcome::bad("events after the end");
    if (o.ok && fds() != fds0) o = Outcome::bad("file descriptors differ afterwards");
    info.describe = w.log;
    if (! o.ok) o.msg += "\n  history:" + w.log;
    return o;
  };
  if (! sync(*rec, w.root, 60)) return finish(Outcome::bad("the watcher isn't reporting anything"));
  w.got();
  w.live = true;
  r = w.probe(c.cfg[3]);
  for (size_t i = pre; r.ok && i < c.ops.size(); ++i) {
    r = op(c.ops[i]);
    if (r.ok) r = w.settle();
    if (r.ok && c.ops[i][4] % 3 == 0) r = w.probe(c.ops[i][4]);
  }
  if (r.ok) r = w.probe(c.cfg[4]);
  auto depth = [](long x) { return x < 30 ? "up to 30" : x < 100 ? "up to 100" : "more than 100"; };
  info.counts["events"] += w.n_events;
  info.counts["probes"] += w.n_probes;
  info.counts[string("directories: ") + (w.dirs.size() < 100 ? "up to 100" : w.dirs.size() < 500 ? "up to 500" : "more than 500")]++;
  info.counts[string("depth: ") + depth(w.deepest)]++;
  info.counts["longest path: " + string(w.longest < 1000 ? "up to 1000" : w.longest < 3000 ? "up to 3000" : "more than 3000")]++;
  info.nontrivial = w.n_events > 500 || w.dirs.size() > 256 || w.deepest > 50 || w.longest > 1000;
  return finish(r);
}

}  // namespace

int main(int argc, char** argv)
{
  add({"scale", run_scale, 8, 12,
    "histories with trees of up to 1500 directories, up to 200 levels, paths of up to 3900 bytes, bursts of up to 6000 operations by up to 6 writers, "
    "read at once or slowly: every change is reported, each writer's in order, from every directory; non-trivial: more than 500 events or 256 directories or 50 levels or 1000 bytes of path", 160});
  return core::main(argc, argv);
}
