#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <unistd.h>

#ifndef RENAME_EXCHANGE
#define RENAME_EXCHANGE 2
#endif

namespace world {

static string dirof(string const& p) { return p.substr(0, p.rfind('/')); }

World::World(string b)
    : base{std::move(b)}
{}

void World::pick_names(u32 seed)
{
  static std::vector<string> const pool = {
    "a", "b", "c", "ab", "a.b", ".hidden", "with space", "qu\"ote", "back\\slash",
    "new\nline", "tab\there", "\xc3\xbcml\xc3\xa4ut", "\xff\xfe\x80", string(255, 'L'),
    "x (deleted)", "-n", "w", "wx", "a@b", "%s%n", "\xe2\x82\xac", "{}", "'", string(128, 'M'),
    "...", "~", "#f#", "\x01\x1f", "abc", string(254, 'K'), "*", "s_self_live@",
  };
  names.clear();
  size_t n = 3 + seed % 6, at = seed / 7;
  for (size_t i = 0; i < n; ++i) names.push_back(pool[(at + i * 5) % pool.size()]);
}

bool World::in(string const& dir, string const& p) const
{ return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'; }

std::vector<string> World::all(char type, string const& under) const
{
  std::vector<string> v;
  for (auto& [p, n] : t)
    if ((type == '*' || n.type == type || (type == '!' && n.type != 'd')) && in(under, p))
      v.push_back(p);
  return v;
}

string World::pick_dir(u32 x, string const& under) const
{
  auto v = all('d', under);
  v.push_back(under);
  std::sort(v.begin(), v.end());
  // Keep the trees from getting too deep for a path
  v.erase(std::remove_if(v.begin(), v.end(), [&](auto& p) { return p.size() > 2600; }), v.end());
  return v.empty() ? under : v[x % v.size()];
}

bool World::is_root(string const& p) const
{ return std::find(roots.begin(), roots.end(), p) != roots.end(); }

bool World::holds_root(string const& p) const
{
  if (is_root(p)) return true;
  for (auto& r : roots) if (in(p, r)) return true;
  return false;
}

bool World::conflicts(string const& p) const
{
  if (chaos) return false;
  for (auto& q : touched) if (p == q || in(p, q) || in(q, p)) return true;
  return false;
}

bool World::unsettled(string const& p) const
{
  auto d = dirof(p);
  for (auto& q : fresh) if (d == q || in(q, d)) return true;
  return false;
}

bool World::add(string const& p, Node n)
{
  if (! n.ino) n.ino = ++inode;
  return t.emplace(p, n).second;
}

void World::raw(int et, char type, string const& p, string const& to, int max)
{
  ++mutations;
  if (! live) return;
  Raw r;
  r.et = et;
  r.type = type;
  r.path = p;
  r.to = to;
  r.max = max;
  r.opt = unsettled(p);
  r.from_opt = r.opt;
  r.to_opt = ! to.empty() && unsettled(to);
  raws.push_back(r);
}

string World::rel(string const& p) const
{ return in(base, p) ? p.substr(base.size() + 1) : p; }

void World::say(string s) { log.push_back(std::move(s)); }

void World::reset_burst()
{
  raws.clear();
  touched.clear();
  fresh.clear();
}

string World::new_name(u32 x, string const& dir) const
{
  // Mostly one of the case's names; with a number if that's taken
  auto p = dir + "/" + names[x % names.size()];
  if (! t.count(p)) return p;
  for (int i = 1;; ++i) {
    auto q = dir + "/n" + std::to_string(i);
    if (! t.count(q)) return q;
  }
}

void World::move_nodes(string const& from, string const& to)
{
  std::map<string, Node> moved;
  for (auto i = t.begin(); i != t.end();)
    if (i->first == from || in(from, i->first)) {
      moved[to + i->first.substr(from.size())] = i->second;
      i = t.erase(i);
    }
    else ++i;
  for (auto& [p, n] : moved) t[p] = n;
}

static Outcome sys(string const& what, string const& p)
{ return Outcome::bad("harness: " + what + " " + core::show(p) + ": " + strerror(errno)); }

Outcome World::do_rename(string const& from, string const& to, unsigned flags, bool& ok)
{
  ok = false;
  auto f = t.find(from);
  if (f == t.end() || from == to || in(from, to) || holds_root(from)) return {};
  auto g = t.find(to);
  char ft = f->second.type;
  if (flags & RENAME_EXCHANGE) {
    if (g == t.end() || in(to, from) || holds_root(to)) return {};
    if (g->second.ino == f->second.ino) return {};
    char gt = g->second.type;
    // (What one leaves and the other enters are neighbours.)
    if (fan && std::any_of(roots.begin(), roots.end(), [&](auto& r) { return in(r, from) != in(r, to); })) return {};
    bool dirs = ft == 'd' || gt == 'd';
    if (live && ! chaos && (unsettled(from) || unsettled(to) || (dirs && (fan || conflicts(from) || conflicts(to))))) {
      auto r = flush();
      if (! r.ok) return r;
    }
    if (syscall(SYS_renameat2, AT_FDCWD, from.c_str(), AT_FDCWD, to.c_str(), flags) != 0)
      return errno == EINVAL || errno == ENOSYS ? Outcome{} : sys("exchange", from);
    move_nodes(from, base + "\1");
    move_nodes(to, from);
    move_nodes(base + "\1", to);
    say(string("exchange ") + ft + gt + " " + rel(from) + " <-> " + rel(to));
    raw(sut::rename_, ft, from, to);
    raw(sut::rename_, gt, to, from);
    if (dirs) for (auto& p : {from, to}) touched.insert(p), fresh.insert(p);
    if (dirs) ++did["exchange-dir"];
    return ok = true, Outcome{};
  }
  if (g != t.end()) {
    if ((ft == 'd') != (g->second.type == 'd')) return {};
    if (g->second.type == 'd' && ! all('*', to).empty()) return {};
    if (holds_root(to) || g->second.ino == f->second.ino) return {};
  }
  // (fanotify's parts of renames don't say which belong together.)
  if (fan && live && ! chaos && (ft == 'd' || unsettled(from) || unsettled(to))) {
    auto r = flush();
    if (! r.ok) return r;
  }
  if (ft == 'd' && live) {
    if (conflicts(from) || conflicts(to)) {
      auto r = flush();
      if (! r.ok) return r;
    }
  }
  if (rename(from.c_str(), to.c_str()) != 0) return sys("rename", from);
  t.erase(to);
  move_nodes(from, to);
  say("rename " + string(1, ft) + " " + rel(from) + " -> " + rel(to));
  // Whose are they before and after? That decides what "appeared" means.
  raw(sut::rename_, ft, from, to);
  if (ft == 'd') {
    touched.insert(from);
    touched.insert(to);
    // New to some watcher? Or new for a moment, between its rename's halves?
    bool new_to_some = may_split;
    for (auto& r : roots) new_to_some = new_to_some || (in(r, to) && ! in(r, from));
    if (new_to_some) fresh.insert(to);
  }
  ok = true;
  if (fan && live && ! chaos)
    for (auto& r : roots)
      if (in(r, from) != in(r, to)) return flush();
  return {};
}

Outcome World::act(int a, Op const& o, string const& under, bool& did_it)
{
  did_it = false;
  auto files = [&] { return all('f', under); };
  auto any = [&](std::vector<string> const& v, u32 x) -> string const* {
    return v.empty() ? nullptr : &v[x % v.size()];
  };
  auto mutated = [&](string const& k) { ++did[k]; did_it = true; };
  auto write_to = [&](string const& p, int flags, long n, int times) -> bool {
    int fd = ::open(p.c_str(), flags | O_CLOEXEC, 0644);
    if (fd < 0) return false;
    string s((size_t)n, 'x');
    bool ok = true;
    for (int i = 0; i < times; ++i) ok = ok && ::write(fd, s.data(), s.size()) == n;
    return ::close(fd), ok;
  };

  switch (a) {
    case a_create: {
      auto p = new_name(o[2], pick_dir(o[1], under));
      int fd = ::open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644);
      if (fd < 0) return sys("create", p);
      ::close(fd);
      add(p, {'f', 0, 0});
      say("create " + rel(p));
      raw(sut::create, 'f', p);
      return mutated("create"), Outcome{};
    }
    case a_create_write: {
      auto p = new_name(o[2], pick_dir(o[1], under));
      long n = 1 + o[3] % 5000;
      int times = 1 + (int)(o[4] % 3);
      if (! write_to(p, O_CREAT | O_EXCL | O_WRONLY, n, times)) return sys("create+write", p);
      add(p, {'f', 0, n * times});
      say("create+write " + rel(p));
      raw(sut::create, 'f', p);
      raw(sut::modify, 'f', p, "", times);
      return mutated("create+write"), Outcome{};
    }
    case a_write: {
      auto v = files();
      auto p = any(v, o[1]);
      if (! p) return {};
      long n = 1 + o[2] % 3000;
      int times = 1 + (int)(o[3] % 4);
      bool append = o[4] % 2;
      if (! write_to(*p, O_WRONLY | (append ? O_APPEND : 0), n, times)) return sys("write", *p);
      auto& nd = t[*p];
      for (auto& [q, m] : t) if (m.ino == nd.ino) m.size = append ? m.size + n * times : std::max(m.size, n * times);
      say("write " + rel(*p) + " x" + std::to_string(times));
      raw(sut::modify, 'f', *p, "", times);
      return mutated("write"), Outcome{};
    }
    case a_truncate: {
      auto v = files();
      auto p = any(v, o[1]);
      if (! p) return {};
      auto& nd = t[*p];
      long was = nd.size, to = o[2] % 3 == 0 ? 0 : (long)(o[3] % 6000);
      if (was == to) to = was + 1;
      bool viafd = o[4] % 2;
      if (viafd) {
        int fd = ::open(p->c_str(), O_WRONLY | O_CLOEXEC);
        if (fd < 0 || ftruncate(fd, to) != 0) return sys("ftruncate", *p);
        ::close(fd);
      }
      else if (truncate(p->c_str(), to) != 0) return sys("truncate", *p);
      for (auto& [q, m] : t) if (m.ino == nd.ino) m.size = to;
      say("truncate " + rel(*p) + " " + std::to_string(to));
      raw(sut::modify, 'f', *p);
      return mutated("truncate"), Outcome{};
    }
    case a_unlink: {
      auto v = all('!', under);
      auto p = any(v, o[1]);
      if (! p) return {};
      char ty = t[*p].type;
      if (unlink(p->c_str()) != 0) return sys("unlink", *p);
      say("unlink " + rel(*p));
      t.erase(*p);
      raw(sut::destroy, ty, *p);
      return mutated("unlink"), Outcome{};
    }
    case a_mkdir: {
      auto p = new_name(o[2], pick_dir(o[1], under));
      if (live && ! chaos && touched.count(p)) { auto r = flush(); if (! r.ok) return r; }
      if (mkdir(p.c_str(), 0755) != 0) return sys("mkdir", p);
      add(p, {'d', 0, 0});
      say("mkdir " + rel(p));
      raw(sut::create, 'd', p);
      touched.insert(p), fresh.insert(p);
      return mutated("mkdir"), Outcome{};
    }
    case a_mkdirs: {
      auto d = pick_dir(o[1], under);
      int n = 2 + (int)(o[2] % 5);
      for (int i = 0; i < n; ++i) {
        auto p = new_name(o[3] + (u32)i, d);
        if (p.size() > 3300) break;
        if (live && ! chaos && touched.count(p)) { auto r = flush(); if (! r.ok) return r; }
        if (mkdir(p.c_str(), 0755) != 0) return sys("mkdir", p);
        add(p, {'d', 0, 0});
        raw(sut::create, 'd', p);
        touched.insert(p), fresh.insert(p);
        if (o[4] % 3 == 0) {
          auto q = p + "/in";
          int fd = ::open(q.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644);
          if (fd < 0) return sys("create", q);
          ::close(fd);
          add(q, {'f', 0, 0});
          raw(sut::create, 'f', q);
        }
        say("mkdir " + rel(p));
        if (o[4] % 2) d = p;
      }
      return mutated("mkdirs"), Outcome{};
    }
    case a_rmdir: {
      auto v = all('d', under);
      v.erase(std::remove_if(v.begin(), v.end(), [&](auto& p) { return ! all('*', p).empty() || holds_root(p); }), v.end());
      auto p = any(v, o[1]);
      if (! p) return {};
      if (live && conflicts(*p)) { auto r = flush(); if (! r.ok) return r; }
      if (rmdir(p->c_str()) != 0) return sys("rmdir", *p);
      say("rmdir " + rel(*p));
      t.erase(*p);
      raw(sut::destroy, 'd', *p);
      touched.insert(*p);
      return mutated("rmdir"), Outcome{};
    }
    case a_rm_r: {
      auto v = all('d', under);
      v.erase(std::remove_if(v.begin(), v.end(), [&](auto& p) { return holds_root(p); }), v.end());
      auto p = any(v, o[1]);
      if (! p) return {};
      if (live && conflicts(*p)) { auto r = flush(); if (! r.ok) return r; }
      auto w = all('*', *p);
      w.push_back(*p);
      std::sort(w.rbegin(), w.rend());
      // Children sort after what holds them
      for (auto& q : w) {
        char ty = t[q].type;
        if (remove(q.c_str()) != 0) return sys("remove", q);
        t.erase(q);
        raw(sut::destroy, ty, q);
      }
      touched.insert(*p);
      say("rm -r " + rel(*p));
      return mutated("rm-r"), Outcome{};
    }
    case a_rename_file: {
      auto v = all('!', under);
      auto p = any(v, o[1]);
      if (! p) return {};
      auto r = do_rename(*p, new_name(o[3], pick_dir(o[2], under)), 0, did_it);
      if (did_it) ++did["rename-file"];
      return r;
    }
    case a_rename_dir: {
      auto v = all('d', under);
      auto p = any(v, o[1]);
      if (! p) return {};
      auto to = new_name(o[3], pick_dir(o[2], under));
      if (in(*p, to)) to = new_name(o[3], dirof(*p));
      // The tree below must still have room for its paths
      for (auto& q : all('*', *p)) if (q.size() + to.size() > 3800) return {};
      auto r = do_rename(*p, to, 0, did_it);
      if (did_it) ++did["rename-dir"];
      return r;
    }
    case a_rename_over: {
      auto v = all('*', under);
      auto p = any(v, o[1]);
      if (! p) return {};
      char ty = t[*p].type;
      std::vector<string> w;
      for (auto& q : all(ty == 'd' ? 'd' : '!', under))
        if (q != *p && ! in(*p, q) && ! in(q, *p) && (ty != 'd' || all('*', q).empty())) w.push_back(q);
      auto q = any(w, o[2]);
      if (! q) return {};
      auto to = *q;
      auto r = do_rename(*p, to, 0, did_it);
      if (did_it) ++did["rename-over"];
      return r;
    }
    case a_exchange: {
      bool dirs = o[3] % 2;
      auto v = o[3] % 8 == 7 ? all('*', under) : all(dirs ? 'd' : 'f', under);
      auto p = any(v, o[1]), q = any(v, o[2]);
      if (! p || *p == *q) return {};
      auto a1 = *p, b1 = *q;
      // (There has to be room for the paths below.)
      for (auto& x : all('*', a1)) if (x.size() + b1.size() > 3800) return {};
      for (auto& x : all('*', b1)) if (x.size() + a1.size() > 3800) return {};
      auto r = do_rename(a1, b1, RENAME_EXCHANGE, did_it);
      if (did_it) ++did["exchange"];
      return r;
    }
    case a_renames: {
      // To and fro, more often than there's room for in one read
      auto v = all('!', under);
      auto p = any(v, o[1]);
      if (! p) return {};
      auto at = *p;
      string to[2] = {new_name(o[3], pick_dir(o[2], under)), new_name(o[3] / 7 + 1, pick_dir(o[2] / 5, under))};
      u32 n = 8 + o[4] % 120;
      if (may_split || fan) n = 2 + n % 6;
      for (u32 i = 0; i < n; ++i) {
        if (at == to[i % 2] || t.count(to[i % 2])) continue;
        bool ok = false;
        auto r = do_rename(at, to[i % 2], 0, ok);
        if (! r.ok) return r;
        if (ok) at = to[i % 2], did_it = true;
      }
      if (did_it) ++did["renames"];
      return {};
    }
    case a_move_out:
    case a_moveout_dir: {
      auto v = all(a == a_move_out ? '!' : 'd', under);
      auto p = any(v, o[1]);
      if (! p) return {};
      auto r = do_rename(*p, base + "/o/out" + std::to_string(++serial), 0, did_it);
      if (did_it) ++did[a == a_move_out ? "move-out-file" : "move-out-dir"];
      return r;
    }
    case a_move_in: {
      auto v = all('!', base + "/o");
      auto p = any(v, o[1]);
      if (! p) return {};
      auto r = do_rename(*p, new_name(o[3], pick_dir(o[2], under)), 0, did_it);
      if (did_it) ++did["move-in-file"];
      return r;
    }
    case a_movein_tree: {
      string top;
      auto outs = all('d', base + "/o");
      if (o[4] % 4 == 0 && ! outs.empty()) top = outs[o[1] % outs.size()];
      else {
        top = base + "/o/in" + std::to_string(++serial);
        if (mkdir(top.c_str(), 0755) != 0) return sys("mkdir", top);
        add(top, {'d', 0, 0});
        auto d = top;
        for (u32 i = 0; i < o[1] % 5; ++i) {
          auto q = new_name(o[4] + i, d);
          if (q.size() > 1500) break;
          if (mkdir(q.c_str(), 0755) != 0) return sys("mkdir", q);
          add(q, {'d', 0, 0});
          if ((o[4] >> i) % 2) d = q;
        }
        auto q = d + "/inf";
        int fd = ::open(q.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644);
        if (fd < 0) return sys("create", q);
        ::close(fd);
        add(q, {'f', 0, 0});
      }
      auto r = do_rename(top, new_name(o[3], pick_dir(o[2], under)), 0, did_it);
      if (did_it) ++did["move-in-dir"];
      return r;
    }
    case a_link: {
      auto v = files();
      for (auto& p : all('f', base + "/o")) v.push_back(p);
      auto p = any(v, o[1]);
      if (! p) return {};
      auto q = new_name(o[3], pick_dir(o[2], under));
      if (link(p->c_str(), q.c_str()) != 0) return sys("link", q);
      auto n = t[*p];
      add(q, n);
      say("link " + rel(*p) + " " + rel(q));
      raw(sut::create, 'f', q);
      return mutated("link"), Outcome{};
    }
    case a_symlink: {
      auto q = new_name(o[3], pick_dir(o[2], under));
      auto v = all('*', base);
      auto target = o[1] % 3 == 0 ? string("nowhere") : v[o[1] % v.size()];
      if (symlink(target.c_str(), q.c_str()) != 0) return sys("symlink", q);
      add(q, {'l', 0, 0});
      say("symlink " + rel(q) + " -> " + rel(target));
      raw(sut::create, 'l', q);
      return mutated("symlink"), Outcome{};
    }
    case a_fifo: {
      auto q = new_name(o[3], pick_dir(o[2], under));
      if (mkfifo(q.c_str(), 0644) != 0) return sys("mkfifo", q);
      add(q, {'p', 0, 0});
      say("mkfifo " + rel(q));
      raw(sut::create, 'p', q);
      return mutated("mkfifo"), Outcome{};
    }
    case a_noise: {
      auto v = all('*', under);
      v.push_back(under);
      auto p = any(v, o[1]);
      char ty = *p == under ? 'd' : t[*p].type;
      char const* c = p->c_str();
      static char const* const what[] = {"chmod", "utimes", "open+read", "stat", "readdir", "chown",
        "open-rw", "access", "readlink", "mmap", "setxattr", "fsync", "lock", "open-creat-existing"};
      u32 k = o[2] % 14;
      if (ty == 'l' || ty == 'p') k = 3;
      switch (k) {
        case 0: if (chmod(c, ty == 'd' ? 0755 : 0600 + o[3] % 2 * 0100) != 0) return sys("chmod", *p); break;
        case 1: { timeval tv[2] = {{1000, 0}, {(long)o[3], 0}}; if (utimes(c, tv) != 0) return sys("utimes", *p); break; }
        case 2: case 9: {
          int fd = ::open(c, O_RDONLY | O_CLOEXEC);
          if (fd < 0) return sys("open", *p);
          char b[64];
          if (ty == 'f') (void)! ::pread(fd, b, sizeof b, 0);
          if (k == 9 && ty == 'f' && t[*p].size > 0) {
            void* m = mmap(nullptr, 1, PROT_READ, MAP_PRIVATE, fd, 0);
            if (m != MAP_FAILED) { volatile char x = *(char*)m; (void)x; munmap(m, 1); }
          }
          ::close(fd);
          break;
        }
        case 4: { if (auto* d = ::opendir(ty == 'd' ? c : under.c_str())) { while (::readdir(d)) {} ::closedir(d); } break; }
        case 5: if (chown(c, geteuid(), getegid()) != 0) return sys("chown", *p); break;
        case 6: case 11: case 12: case 13: {
          if (ty != 'f') break;
          int fd = ::open(c, O_RDWR | O_CLOEXEC | (k == 13 ? O_CREAT : 0), 0644);
          if (fd < 0) return sys("open", *p);
          if (k == 11) fsync(fd);
          if (k == 12) { struct flock l{}; l.l_type = F_WRLCK; fcntl(fd, F_SETLK, &l); }
          ::close(fd);
          break;
        }
        case 7: access(c, R_OK | W_OK); break;
        case 8: { char b[64]; (void)! ::readlink(c, b, sizeof b); break; }
        case 10: syscall(SYS_setxattr, c, "user.x", "v", 1, 0); break;
        default: { struct stat s; lstat(c, &s); break; }
      }
      say(string("noise ") + what[k] + " " + rel(*p));
      ++did[string("noise")];
      did_it = true;
      return {};
    }
    case a_outside: {
      // Changes which aren't in the tree; some through symlinks, or in a
      // directory with a similar name.
      auto d = o[1] % 2 ? base + "/o" : base + "/wx";
      auto outs = all('d', base + "/o");
      if (o[1] % 4 == 3 && ! outs.empty()) d = outs[o[2] % outs.size()];
      if (d.size() > 3000) return {};
      auto p = d + "/e" + std::to_string(++serial);
      int fd = ::open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0644);
      if (fd < 0) return sys("create", p);
      (void)! ::write(fd, "x", 1);
      ::close(fd);
      say("outside " + rel(p));
      if (o[3] % 2) unlink(p.c_str());
      else add(p, {'f', 0, 1});
      ++did["outside"];
      did_it = true;
      return {};
    }
    case a_swap_names: {
      // Two directories trade places, by way of a third name
      auto v = all('d', under);
      auto p = any(v, o[1]), q = any(v, o[2]);
      if (! p || *p == *q || in(*p, *q) || in(*q, *p)) return {};
      auto x = *p, y = *q, tmp = dirof(x) + "/swap-tmp";
      if (t.count(tmp) || holds_root(x) || holds_root(y)) return {};
      for (auto [f, g] : {std::pair{x, tmp}, {y, x}, {tmp, y}}) {
        bool ok = false;
        auto r = do_rename(f, g, 0, ok);
        if (! r.ok) return r;
        did_it = did_it || ok;
      }
      if (did_it) ++did["swap-names"];
      return {};
    }
    case a_reuse: {
      // Remove or move a directory, and put another in its place
      auto v = all('d', under);
      v.erase(std::remove_if(v.begin(), v.end(), [&](auto& p) { return holds_root(p); }), v.end());
      auto p = any(v, o[1]);
      if (! p) return {};
      auto at = *p;
      bool ok = false;
      Outcome r;
      if (o[2] % 3 == 0) { Op oo = o; oo[1] = (u32)(std::find(v.begin(), v.end(), at) - v.begin()); r = act(a_rm_r, oo, under, ok); }
      else if (o[2] % 3 == 1) r = do_rename(at, base + "/o/re" + std::to_string(++serial), 0, ok);
      else r = do_rename(at, new_name(o[3] + 1, under), 0, ok);
      if (! r.ok || ! ok) return r;
      if (t.count(at) || ! t.count(dirof(at))) {
        if (dirof(at) != under) return {};
        if (t.count(at)) return {};
      }
      if (live && conflicts(at)) { r = flush(); if (! r.ok) return r; }
      if (mkdir(at.c_str(), 0755) != 0) return sys("mkdir", at);
      add(at, {'d', 0, 0});
      say("mkdir (again) " + rel(at));
      raw(sut::create, 'd', at);
      touched.insert(at), fresh.insert(at);
      return mutated("reuse"), Outcome{};
    }
  }
  return {};
}

// ---- expectations ----

std::vector<Exp> view(std::vector<Raw> const& raws, string const& root, bool may_split)
{
  auto in = [&](string const& p) {
    return p.size() > root.size() && p.compare(0, root.size(), root) == 0 && p[root.size()] == '/';
  };
  std::vector<Exp> v;
  for (auto& r : raws) {
    Exp x;
    x.et = r.et;
    x.type = r.type;
    x.path = r.path;
    x.max = r.max;
    x.opt = r.opt;
    if (r.et == sut::rename_) {
      bool f = in(r.path), t = in(r.to);
      if (! f && ! t) continue;
      if (f && t) {
        x.assoc = true;
        x.apath = r.to;
        x.opt = r.from_opt && r.to_opt;
        x.from_opt = r.from_opt, x.to_opt = r.to_opt;
        if (r.from_opt || r.to_opt) x.halves = true, x.max = 2;
      }
      else if (f) x.opt = r.from_opt;
      else x.path = r.to, x.opt = r.to_opt;
      // Only one half is certain to be seen, and the kernel may merge that
      // with another one at the end of its queue (it ignores the cookies).
      if (! x.assoc || x.halves) {
        for (size_t i = v.size(); i-- > 0 && (v[i].opt || v[i].et == sut::rename_);)
          if (v[i].et == sut::rename_
              && (v[i].path == x.path || v[i].apath == x.path
                  || (x.assoc && (v[i].path == x.apath || v[i].apath == x.apath)))) {
            x.opt = true;
            break;
          }
      }
      else {
        for (size_t i = v.size(); i-- > 0 && (v[i].opt || v[i].et == sut::rename_);)
          if (v[i].halves && (v[i].path == x.path || v[i].apath == x.path)) {
            x.halves = true, x.max = 2;
            break;
          }
      }
      // The kernel sends a rename in two parts, so what's reading them
      // while it does may (seldom) see one much before the other.
      if (x.assoc && may_split) x.halves = true, x.max = 2;
    }
    else if (! in(r.path)) continue;
    // The kernel merges an event with an equal one at the end of its queue
    if (x.et == sut::modify && ! v.empty() && v.back().et == x.et && v.back().path == x.path && v.back().opt == x.opt) {
      v.back().max += x.max;
      continue;
    }
    // ... which it may be, if what came between wasn't reported
    if (x.et == sut::modify) {
      size_t i = v.size();
      while (i > 0 && v[i - 1].opt && ! (v[i - 1].et == x.et && v[i - 1].path == x.path)) --i;
      if (i > 0 && v[i - 1].et == x.et && v[i - 1].path == x.path) x.opt = true;
    }
    v.push_back(x);
  }
  return v;
}

static bool type_ok(char type, int pt)
{
  return type == 'd' ? pt == sut::dir
       : type == 'f' ? pt == sut::file || pt == sut::hard_link
       : type == 'l' ? pt == sut::file || pt == sut::sym_link
                     : pt == sut::file || pt == sut::other_pt;
}

bool same(sut::Ev const& e, Exp const& x)
{
  if (e.et != x.et || ! type_ok(x.type, e.pt)) return false;
  auto full = e.path == x.path && e.assoc == x.assoc
           && (! x.assoc || (e.apath == x.apath && e.aet == x.et && type_ok(x.type, e.apt)));
  if (full) return true;
  return x.halves && ! e.assoc && (e.path == x.path || e.path == x.apath);
}

string show(Exp const& x)
{
  sut::Ev e;
  e.et = x.et;
  e.pt = x.type == 'd' ? sut::dir : sut::file;
  e.path = x.path;
  e.assoc = x.assoc;
  e.apath = x.apath;
  e.aet = x.et;
  e.apt = e.pt;
  return core::show(e) + (x.max > 1 ? " (1 to " + std::to_string(x.max) + " times)" : "") + (x.opt ? " (maybe)" : "");
}

Outcome match(std::vector<Exp> const& want, std::vector<sut::Ev> const& got, bool prefix)
{
  // A little automaton: where we could be, and how often we matched there.
  using St = std::pair<size_t, int>;
  std::set<St> at{{0, 0}};
  auto close = [&](std::set<St> s) {
    std::vector<St> todo{s.begin(), s.end()};
    while (! todo.empty()) {
      auto [i, c] = todo.back();
      todo.pop_back();
      if (i < want.size() && (c > 0 || want[i].opt))
        if (s.insert({i + 1, 0}).second) todo.push_back({i + 1, 0});
    }
    return s;
  };
  at = close(at);
  auto trouble = [&](string const& what) {
    string m = what + "; expected:";
    size_t lo = 0, n = 0;
    if (! at.empty()) lo = at.begin()->first;
    for (size_t i = lo > 4 ? lo - 4 : 0; i < want.size() && n < 12; ++i, ++n) m += "\n    " + show(want[i]);
    if (want.empty()) m += " nothing";
    m += "\n  got:";
    n = 0;
    for (auto& e : got) { if (++n > 40) break; m += "\n    " + core::show(e); }
    if (got.empty()) m += " nothing";
    return Outcome::bad(m);
  };
  for (size_t k = 0; k < got.size(); ++k) {
    std::set<St> nx;
    for (auto [i, c] : at)
      if (i < want.size() && c < want[i].max && same(got[k], want[i])) nx.insert({i, c + 1});
    nx = close(nx);
    if (nx.empty()) return trouble("unexpected event #" + std::to_string(k) + ": " + core::show(got[k]));
    at = std::move(nx);
  }
  if (prefix) return {};
  for (auto [i, c] : at) if (i == want.size()) return {};
  return trouble("missing event");
}

std::vector<sut::Ev> relevant(std::vector<sut::Ev> const& evs, bool may_overflow)
{
  std::vector<sut::Ev> v;
  for (auto& e : evs) {
    if (core::is_sync(e)) continue;
    bool made_up = ! may_overflow && e.path.compare(0, 16, "w/sys/q_overflow") == 0;
    if (e.pt == sut::watcher && ! made_up && (e.path.compare(0, 2, "w/") == 0 || e.path.compare(0, 11, "s/self/live") == 0)) continue;
    v.push_back(e);
  }
  return v;
}

}  // namespace world
