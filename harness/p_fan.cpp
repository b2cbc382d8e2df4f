// fanotify, as far as a watcher can tell: what's read from it is made up here.
#include "core.hpp"
#include "ip.hpp"
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <optional>
#include <sys/fanotify.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <unistd.h>

using namespace core;
using std::string;

namespace {

void touch(string const& p)
{
  int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
  if (fd >= 0) ::close(fd);
}

// One event, as the kernel would write it
struct Fe {
  uint64_t mask = 0;
  int32_t fd = FAN_NOFD;
  uint8_t vers = FANOTIFY_METADATA_VERSION;
  uint8_t info = FAN_EVENT_INFO_TYPE_DFID_NAME;   // 0: none
  u32 dir = 0;                                    // which handle
  u32 handle_bytes = 8;
  string name;
  bool child = false;   // another record, about the child
};

void put(string& s, void const* p, size_t n) { s.append((char const*)p, n); }

uint64_t fsid;   // the scratch directory's

string bytes(Fe const& e)
{
  string rec;
  auto record = [&](uint8_t type, u32 id, u32 hb, string const* name) {
    string r;
    uint8_t head[4] = {type, 0, 0, 0};
    put(r, head, 4);
    put(r, &fsid, 8);
    int32_t ht = 1;
    put(r, &hb, 4), put(r, &ht, 4);
    string h(hb, '\x5a');
    memcpy(h.data(), &id, 4);
    r += h;
    if (name) r += *name, r += '\0';
    while (r.size() % 4) r += '\0';
    auto len = (uint16_t)r.size();
    memcpy(r.data() + 2, &len, 2);
    rec += r;
  };
  if (e.info) record(e.info, e.dir, e.handle_bytes, e.info == FAN_EVENT_INFO_TYPE_DFID_NAME ? &e.name : nullptr);
  if (e.info && e.child) record(FAN_EVENT_INFO_TYPE_FID, 0x7777, 12, nullptr);
  fanotify_event_metadata m{};
  m.event_len = (u32)(sizeof m + rec.size());
  m.vers = e.vers;
  m.metadata_len = sizeof m;
  m.mask = e.mask;
  m.fd = e.fd;
  m.pid = 1;
  string s;
  put(s, &m, sizeof m);
  return s + rec;
}

struct Dir {
  string path;        // as it is now; or as it was, if it's gone
  int keep = -1;      // a directory which is gone, but open
  int err = 0;        // can't be opened any more
};

struct Want {
  enum { event, warning, overflow } kind = event;
  int et = 0, pt = 0;
  string path, apath;
  bool assoc = false;
  int et2 = -1;   // or this, if both happened
  bool maybe = false;  // the next one may be the other half of this one
};

string show(Want const& w)
{
  sut::Ev e;
  if (w.kind != Want::event) return w.kind == Want::overflow ? "(a warning about an overflow)" : "(a warning)";
  e.et = e.aet = w.et, e.pt = e.apt = w.pt, e.path = w.path, e.apath = w.apath, e.assoc = w.assoc;
  return core::show(e);
}

bool same(sut::Ev const& e, Want const& w)
{
  if (w.kind == Want::overflow) return e.pt == sut::watcher && e.path == "w/sys/q_overflow@";
  if (w.kind == Want::warning) return e.pt == sut::watcher && e.path.compare(0, 2, "w/") == 0 && e.path != "w/sys/q_overflow@";
  return (e.et == w.et || e.et == w.et2) && e.pt == w.pt && e.path == w.path && e.assoc == w.assoc
      && (! w.assoc || (e.apath == w.apath && e.aet == w.et && e.apt == w.pt));
}

void all_dirs(string const& d, std::set<string>& s)
{
  s.insert(d);
  DIR* dd = opendir(d.c_str());
  if (! dd) return;
  while (auto* e = readdir(dd))
    if (e->d_type == DT_DIR && strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) all_dirs(d + "/" + e->d_name, s);
  closedir(dd);
}

enum Mode { plain, odd, failing };

Outcome run_fan(Mode mode, Case const& c, Info& info, bool cloexec = false)
{
  ip::reset();
  Scratch scratch;
  auto base = scratch.path;
  auto root = base + "/w";
  mkdir(root.c_str(), 0755);
  static std::vector<string> const names = {"a", "b", "f.txt", "x (deleted)", ".hidden", "with space", "qu\"ote", "new\nline", "\xff\xfe", "%s%n",
    string(255, 'L'), "\xc3\xbc", "-", "..x", "w", string(200, 'M'), "(deleted)", " ", "abc", "ab"};
  // Directories to have events in
  std::vector<Dir> dirs{{root, -1, 0}};
  std::set<string> tree;
  u32 n_d = 1 + c.cfg[0] % 7;
  for (u32 i = 0; i < n_d; ++i) {
    auto& in = dirs[(c.cfg[1] >> i) % dirs.size()];
    if (in.keep >= 0 || in.err) continue;
    auto p = in.path + "/" + names[(c.cfg[2] + i * 3) % names.size()];
    if (p.size() > 3300 || mkdir(p.c_str(), 0755) != 0) continue;
    dirs.push_back({p, -1, 0});
  }
  all_dirs(root, tree);
  // Some are gone, but could be opened; some can't be
  size_t live = dirs.size();
  if (mode != failing && c.cfg[3] % 3 == 0) {
    auto p = root + "/" + names[c.cfg[3] / 3 % names.size()] + (c.cfg[3] % 2 ? "-gone" : "-gone (deleted)");
    if (p.size() < 300 && mkdir(p.c_str(), 0755) == 0) {
      int fd = ::open(p.c_str(), O_PATH | O_DIRECTORY | O_CLOEXEC);
      rmdir(p.c_str());
      dirs.push_back({p, fd, 0});
    }
  }
  size_t openable = dirs.size();
  static int const errs[] = {ESTALE, ENOENT, EACCES, ENOMEM, EMFILE, EINVAL, EPERM};
  for (u32 i = 0; i < 2; ++i) dirs.push_back({"", -1, errs[(c.cfg[4] + i) % 7]});

  int p[2];
  if (! ip::fan_pair(p)) return Outcome::bad("harness: pipe");
  auto fds0 = fds();  // the watcher closes p[0]
  for (auto i = fds0.begin(); i != fds0.end();)
    i = atoi(i->c_str()) == p[0] ? fds0.erase(i) : std::next(i);
  ip::on_handle = [&dirs](unsigned char const* h, unsigned n) -> ip::Handle {
    u32 id = ~0u;
    if (n >= 4) memcpy(&id, h, 4);
    if (id >= dirs.size()) return {"", ESTALE};
    auto& d = dirs[id];
    if (d.err) return {"", d.err};
    if (d.keep >= 0) return {"/proc/self/fd/" + std::to_string(d.keep), 0};
    return {d.path, 0};
  };
  std::vector<ip::Fault> plan;
  if (mode == failing) {
    static int const fns[] = {ip::f_fanotify_mark, ip::f_fanotify_mark, ip::f_epoll_create, ip::f_epoll_ctl, ip::f_epoll_wait, ip::f_read, ip::f_read,
      ip::f_eventfd, ip::f_open_by_handle_at, ip::f_readlink, ip::f_realpath, ip::f_opendir, ip::f_name_to_handle};
    static int const es[] = {ENOMEM, EMFILE, ENOSPC, EACCES, EIO, EINTR, EAGAIN, EBADF};
    u32 x = c.cfg[3];
    ip::Fault f;
    f.fn = fns[x % 13];
    f.nth = 1 + (int)(x / 12 % (f.fn == ip::f_name_to_handle || f.fn == ip::f_epoll_create || f.fn == ip::f_eventfd ? 1 : f.fn == ip::f_epoll_ctl ? 2 : 5));
    f.err = es[x / 60 % 8];
    f.times = c.cfg[5] % 4 == 0 ? 1000000 : 1 + (int)(c.cfg[5] / 4 % 2);
    bool retry = f.err == EINTR || f.err == EAGAIN;
    if (retry && (f.fn != ip::f_read && ! (f.fn == ip::f_epoll_wait && f.err == EINTR))) f.err = EIO;
    else if (retry) f.times = std::min(f.times, 3);
    // (Nothing can be reported while these fail.)
    if (f.fn == ip::f_open_by_handle_at || f.fn == ip::f_readlink) f.times = std::min(f.times, 1 + (int)(c.cfg[6] % 5));
    plan.push_back(f);
    ip::plan(plan);
  }
  ip::fan_fd = p[0];
  struct statfs fs;
  statfs(root.c_str(), &fs);
  memcpy(&fsid, &fs.f_fsid, sizeof fsid);
  ip::handle_fs = root;
  ip::cwd_ok = mode == failing || c.cfg[1] % 2;
  ip::fan_merge = mode != failing && c.cfg[2] % 3 == 0;
  bool const gated = mode != failing && c.cfg[2] % 2 == 0;
  auto rec = std::make_shared<Recorder>();
  auto no_stdin = std::optional<core::NoStdin>{};
  if (mode == plain && c.cfg[5] % 2) no_stdin.emplace(c.cfg[7]);
  auto t = core::open(root, rec);
  if (mode == plain && c.cfg[5] % 2 == 0) no_stdin.emplace(c.cfg[7]);
  if (no_stdin && no_stdin->on) ++info.counts["without a standard input"];
  auto dead = [](std::vector<sut::Ev> const& e)
  { return ! e.empty() && e.back().pt == sut::watcher && e.back().path.find("/self/die@") == 1; };
  auto is_dead = [&] { std::lock_guard g{rec->m}; return dead(rec->evs); };
  string desc;
  bool fell_back = false;
  auto finish = [&](Outcome o) {
    ip::fan_gate = false;
    rec->release();
    bool ok = core::close(*t);
    {
      std::lock_guard g{rec->m};
      rec->done = true;
    }
    core::destroy(t);
    no_stdin.reset();
    ip::fan_fd = -1;
    ip::on_handle = nullptr;
    auto& e = rec->evs;
    auto now = fds();
    bool died = ! e.empty() && e.back().path.compare(0, 2, "e/") == 0;
    if (o.ok && e.size() < 2) o = Outcome::bad("fewer than two messages");
    if (o.ok && ok == died) o = Outcome::bad(string("close() is ") + (ok ? "true" : "false") + ", after " + core::show(e.back()));
    if (o.ok && e[0].path != (died && e.size() == 2 ? "e/self/live@" : "s/self/live@") + root) o = Outcome::bad("the first message is " + core::show(e[0]));
    if (o.ok && e.back().path != (died ? "e/self/die@" : "s/self/die@") + root) o = Outcome::bad("the last message is " + core::show(e.back()));
    if (o.ok && died && e[e.size() - 2].path.compare(0, 2, "e/") != 0) o = Outcome::bad("it ended without an error message, after " + core::show(e[e.size() - 2]));
    if (o.ok && ! fell_back && ip::calls(ip::f_inotify_init)) o = Outcome::bad("inotify was used, too");
    // The watcher's end of the pipe: it doesn't get that far if it can't start at all
    if (ip::calls(ip::f_fanotify_init) == 0) {
      ::close(p[0]);
      now = fds();
    }
    if (o.ok && now != fds0) {
      string m = "file descriptors differ afterwards:";
      for (auto& f : now) if (! fds0.count(f)) m += " +" + f;
      for (auto& f : fds0) if (! now.count(f)) m += " -" + f;
      o = Outcome::bad(m);
    }
    if (o.ok && cloexec && ip::calls(ip::f_fanotify_init) && ! (ip::fan_flags & FAN_CLOEXEC)) o = Outcome::bad("the fanotify descriptor is inherited by other programs");
    if (o.ok && ip::bad_closes()) o = Outcome::bad("a file descriptor was closed which wasn't open");
    if (o.ok && rec->late) o = Outcome::bad("events after the end");
    ::close(p[1]);
    for (auto& d : dirs) if (d.keep >= 0) ::close(d.keep);
    if (! o.ok) {
      o.msg += "\n  failed: " + ip::log_fired().substr(0, 300) + "\n  batches: " + desc + "\n  events:";
      for (size_t i = 0; i < e.size() && i < 30; ++i) o.msg += "\n    " + core::show(e[i]);
    }
    info.describe = desc;
    return o;
  };

  // Batches
  std::vector<Want> want;
  std::set<string> marks_wanted;
  bool ended = false;
  size_t from = 0;
  long n_events = 0, n_odd = 0, n_pairs = 0, n_new = 0, n_batches = 0, n_merged = 0;
  string batch;
  bool split = false;   // the last event is in another batch
  long n_split = 0, n_joined = 0, n_moved = 0;
  static int n_sync = 0;
  auto send = [&]() -> Outcome {
    if (batch.empty()) return {};
    auto t0 = now_s();
    while (::write(p[1], batch.data(), batch.size()) < 0) {
      if (errno != EAGAIN && errno != EPIPE && errno != ECONNRESET) return Outcome::bad("harness: write");
      if (is_dead() || errno == EPIPE || errno == ECONNRESET) { ended = true; break; }
      if (now_s() - t0 > patience()) return Outcome::bad("the watcher stopped reading");
      ip::fan_gate = false;
      usleep(200);
    }
    desc += " |";
    split = true;
    ++n_batches;
    batch.clear();
    return {};
  };
  auto signal_sync = [&]() -> Outcome {
    Fe s;
    s.mask = FAN_CREATE;
    s.dir = 0;
    auto nm = string(sync_prefix) + std::to_string(++n_sync);
    s.name = nm;
    auto b = bytes(s);
    auto one = root + "/" + nm;
    auto end = now_s() + patience();
    bool seen = false, sent = false;
    while (! seen && ! is_dead() && now_s() < end) {
      if (mode == failing && (fell_back = ip::calls(ip::f_inotify_init) > 0)) return {};
      if (! sent || mode == failing) sent = ::write(p[1], b.data(), b.size()) > 0;
      seen = rec->wait(mode == failing ? 0.05 : sent ? 2 : 0.002, [&](auto& evs) {
        for (size_t i = from; i < evs.size(); ++i) if (evs[i].path == one || (mode == failing && dead(evs))) return true;
        return false;
      });
    }
    ended = ended || is_dead();
    return seen || ended ? Outcome{} : Outcome::bad("the watcher stopped reporting");
  };

  // At the start
  Outcome r = signal_sync();
  if (! r.ok) return finish(r);
  if (fell_back) {
    auto f = plan[0].fn;
    bool may = f == ip::f_fanotify_mark || f == ip::f_name_to_handle || f == ip::f_open_by_handle_at;
    ++info.counts["fell back"];
    info.nontrivial = ip::fired() > 0;
    if (! may || plan[0].nth != 1 || ! ip::fired()) return finish(Outcome::bad("fanotify was given up for no reason"));
    if (! sync(*rec, root)) return finish(Outcome::bad("inotify doesn't report anything, where fanotify can't be used"));
    std::lock_guard g{rec->m};
    for (auto& e : rec->evs)
      if (r.ok && e.pt == sut::watcher && e.path.compare(0, 2, "s/") != 0) r = Outcome::bad("a message, although inotify can be used: " + core::show(e));
  }
  if (fell_back) return finish(r);
  {
    auto m = ip::marks();
    std::set<string> got(m.begin(), m.end());
    std::lock_guard g{rec->m};
    auto expect = tree;
    if (mode == failing) {
      for (auto& e : rec->evs)
        if (e.path.compare(0, 18, "w/sys/not_watched@") == 0) {
          auto d = e.path.substr(18);
          if (! tree.count(d)) { r = Outcome::bad("a warning about what isn't a directory: " + core::show(e)); break; }
          expect.erase(d);
          if (plan[0].fn == ip::f_opendir)
            for (auto i = expect.begin(); i != expect.end();) i = i->compare(0, d.size() + 1, d + "/") == 0 ? expect.erase(i) : std::next(i);
        }
      for (auto& d : expect) if (r.ok && ! got.count(d) && ! ended) r = Outcome::bad("not marked (nor warned about): " + core::show(d));
    }
    else if (got != expect) r = Outcome::bad("at the start, " + std::to_string(got.size()) + " directories are marked, of " + std::to_string(expect.size()));
    from = rec->evs.size();
  }
  if (! r.ok) return finish(r);

  static char const* const what[] = {"create", "delete", "modify", "move", "from", "to"};
  static uint64_t const masks[] = {FAN_CREATE, FAN_DELETE, FAN_MODIFY, FAN_MOVED_FROM, FAN_MOVED_FROM, FAN_MOVED_TO};
  static int const ets[] = {sut::create, sut::destroy, sut::modify, sut::rename_, sut::rename_, sut::rename_};
  auto path_of = [&](Fe const& e) {
    auto& d = dirs[e.dir];
    return e.name == "." ? d.path : d.path + "/" + e.name;
  };
  u32 last_dir = 0;
  enum { nothing, a_from, a_to, a_bad_from } prev = nothing;
  auto add = [&](Fe const& e) -> Outcome {
    auto b = bytes(e);
    split = batch.empty();
    if (batch.size() + b.size() > 4096) {
      auto o = send();
      if (! o.ok) return o;
    }
    batch += b;
    return {};
  };
  ip::fan_gate = gated;
  for (auto& o : c.ops) {
    if (ended) break;
    u32 k = o[0] % 16;
    if (k == 15) {
      if (r = send(); ! r.ok) return finish(r);
      if (gated && o[1] % 4 == 0 && ! ended) {
        // All of that, before what's next
        ip::fan_gate = false;
        if (r = signal_sync(); ! r.ok) return finish(r);
        desc += "|";
        prev = nothing;
        ip::fan_gate = true;
      }
      continue;
    }
    if (mode == plain && k == 14 && o[2] % 2 && ! want.empty() && dirs[last_dir].keep < 0 && last_dir) {
      // Once that's all there, the directory of the last event (or one above it) is renamed
      bool sure = true;
      for (auto& w : want) sure = sure && ! w.maybe;
      if (! sure) continue;
      if (r = send(); ! r.ok) return finish(r);
      ip::fan_gate = false;
      if (! rec->wait(patience(), [&](auto& evs) {
            size_t n = 0;
            for (size_t i = from; i < evs.size(); ++i) n += ! is_sync(evs[i]) && evs[i].pt != sut::watcher;
            return n >= want.size();
          }))
        return finish(Outcome::bad("missing: " + show(want.back())));
      auto p = dirs[last_dir].path;
      for (u32 i = 0; i < o[3] % 3 && p.rfind('/') > root.size(); ++i) p.resize(p.rfind('/'));
      auto q = p.substr(0, p.rfind('/')) + "/mv" + std::to_string(n_moved++);
      if (rename(p.c_str(), q.c_str()) == 0) {
        for (auto& d : dirs)
          if (d.path == p || d.path.compare(0, p.size() + 1, p + "/") == 0) d.path = q + d.path.substr(p.size());
        desc += " (rename " + core::show(p.substr(root.size())) + ")";
      }
      prev = nothing;
      ip::fan_gate = gated;
      continue;
    }
    Fe e;
    e.dir = o[1] % (u32)(k % 2 ? openable : live);
    if (n_moved && o[3] % 4 == 0) e.dir = last_dir;   // (Often in the same.)
    e.name = names[o[2] % names.size()];
    e.handle_bytes = 4 + o[3] % 31 * 4;
    e.child = o[4] % 3 == 0;
    u32 kind = k % 6;
    e.mask = masks[kind];
    bool isdir = o[4] % 4 == 1;
    auto& d = dirs[e.dir];
    if (mode == odd && k >= 12) {
      // Something's odd about it
      static uint64_t const any[] = {FAN_CREATE, FAN_MODIFY, FAN_MOVED_FROM, FAN_MOVED_TO, FAN_DELETE};
      if (o[4] % 3 == 0 && prev == a_from) isdir = want.back().pt == sut::dir;
      Want w;
      w.kind = Want::warning;
      e.mask = any[o[2] % 5];
      string s;
      switch (o[3] % 6) {
        case 0:
          e.mask = FAN_Q_OVERFLOW, e.info = 0, w.kind = Want::overflow, s = "overflow";
          break;
        case 1: e.fd = 5000 + (int)(o[1] % 100), s = "has fd"; break;
        case 2: e.info = o[1] % 2 ? FAN_EVENT_INFO_TYPE_FID : FAN_EVENT_INFO_TYPE_DFID, s = "no name"; break;
        case 3: e.info = 0, s = "no information"; break;
        default: e.dir = (u32)openable + o[1] % 2, s = "can't be opened"; break;
      }
      if (isdir && e.info == FAN_EVENT_INFO_TYPE_DFID_NAME) e.mask |= FAN_ONDIR;
      if (r = add(e); ! r.ok) return finish(r);
      // (Whether the ones around it are neighbours then is up to the watcher.)
      if (prev == a_from || prev == a_to) prev = a_bad_from;
      want.push_back(w);
      desc += " " + s;
      ++n_odd;
      continue;
    }
    // A moved-to after a moved-from is its other half.
    if ((e.mask & FAN_MOVED_TO) && prev == a_bad_from) e.mask = FAN_DELETE, kind = 1;
    if (prev == a_from && ! (e.mask & FAN_MOVED_TO) && o[3] % 2) e.mask = FAN_MOVED_TO, kind = 5;
    last_dir = e.dir;
    Want w;
    w.et = ets[kind];
    bool paired = (e.mask & FAN_MOVED_TO) && prev == a_from;
    if (paired && o[4] % 16 == 1) {
      // Unless one is a file, and the other one isn't
      paired = false;
      isdir = want.back().pt != sut::dir;
    }
    else if (paired) isdir = want.back().pt == sut::dir;
    if (kind == 2) isdir = false;
    // The kernel merges what happens to one entry
    if (! isdir && kind < 2 && o[4] % 7 == 3) {
      e.mask |= o[3] % 3 ? FAN_MODIFY : FAN_CREATE | FAN_DELETE;
      if (o[3] % 3 == 0) w.et = sut::create, w.et2 = sut::destroy;
      ++n_merged;
    }
    if (isdir) e.mask |= FAN_ONDIR;
    w.pt = isdir ? sut::dir : sut::file;
    // Directories which appear are there for real
    // (also those which were made and renamed before that was read)
    if (isdir && (e.mask & (FAN_CREATE | FAN_MOVED_TO)) && (! paired || o[3] % 3)) {
      e.name = "new" + std::to_string(n_new++);
      if (d.keep < 0 && d.path.size() < 3000) {
        auto q = path_of(e);
        mkdir(q.c_str(), 0755);
        for (u32 i = 0; i < o[3] % 5; ++i) {
          mkdir((q += "/" + std::to_string(i)).c_str(), 0755);
          touch(q + "f");
        }
        all_dirs(path_of(e), marks_wanted);
      }
    }
    else if (isdir && o[3] % 11 == 0 && ! paired) e.name = ".";
    if (e.dir < live && d.path.size() > 3700) e.name = "s";
    if (r = add(e); ! r.ok) return finish(r);
    n_split += paired && split;
    if (paired && split && ! ip::fan_gate) {
      // It's in the next batch, which may have been there (or not yet) when it was looked for
      paired = false;
      want.back().maybe = true;
    }
    n_joined += paired && split;
    if (paired) {
      want.back().assoc = true;
      want.back().apath = path_of(e);
      ++n_pairs;
      prev = nothing;
    }
    else {
      w.path = path_of(e);
      want.push_back(w);
      prev = e.mask & FAN_MOVED_FROM ? a_from : e.mask & FAN_MOVED_TO ? a_to : nothing;
    }
    desc += string(" ") + what[kind] + (isdir ? " dir " : " ") + core::show(w.path.substr(w.path.size() > 30 ? w.path.size() - 30 : 0));
    ++n_events;
  }
  if (r = send(); ! r.ok) return finish(r);
  ip::fan_gate = false;
  bool version = mode == odd && c.cfg[6] % 8 == 0;
  if (version && ! ended) {
    Fe e;
    e.mask = FAN_CREATE, e.name = "v", e.vers = (uint8_t)(FANOTIFY_METADATA_VERSION + 1 + c.cfg[6] % 3);
    batch = bytes(e);
    Fe ok;
    ok.mask = FAN_CREATE, ok.name = "after";
    batch += bytes(ok);
    if (r = send(); ! r.ok) return finish(r);
    if (! rec->wait(patience(), dead)) return finish(Outcome::bad("an unknown version of the interface didn't end the watcher"));
    ended = true;
  }
  else if (! ended) {
    if (r = signal_sync(); ! r.ok) return finish(r);
  }
  std::vector<sut::Ev> got;
  for (auto& e : rec->since(from)) {
    if (is_sync(e)) continue;
    if (e.pt == sut::watcher && (e.path.find("/self/") == 1 || e.path.compare(0, 2, "e/") == 0)) continue;
    // Directories which are gone by the time they're marked
    if (e.pt == sut::watcher && e.path.compare(0, 18, "w/sys/not_watched@") == 0 && (mode == failing || access(e.path.c_str() + 18, F_OK) != 0) && ! marks_wanted.count(e.path.substr(18))) continue;
    got.push_back(e);
  }
  auto joined = [&](size_t k, std::vector<sut::Ev> const& g, size_t i) {
    if (k + 1 >= want.size() || i >= g.size() || ! want[k].maybe) return false;
    auto w = want[k];
    w.assoc = true, w.apath = want[k + 1].path;
    return same(g[i], w);
  };
  if (mode == failing) {
    // What's missing is accounted for by a warning, or by the end
    size_t g = 0, missing = 0, warnings = 0;
    for (size_t k = 0; k < want.size(); ++k) {
      auto w = want[k];
      while (g < got.size() && got[g].pt == sut::watcher) ++warnings, ++g;
      if (joined(k, got, g)) { ++g, ++k; continue; }
      if (g < got.size() && same(got[g], w)) { ++g; continue; }
      if (w.assoc && g < got.size()) {
        // One of its halves
        auto part = w;
        part.assoc = false;
        bool half = same(got[g], part);
        part.path = w.apath;
        half = half || same(got[g], part);
        g += half;
      }
      ++missing;
    }
    while (g < got.size() && got[g].pt == sut::watcher) ++warnings, ++g;
    if (g < got.size()) r = Outcome::bad("unexpected: " + core::show(got[g]));
    else if (missing > warnings && ! ended) r = Outcome::bad(std::to_string(missing) + " events are missing, with " + std::to_string(warnings) + " warnings");
    info.counts[ended ? "ended by it" : "survived it"]++;
    info.counts[string("planned: ") + ip::fn_name(plan[0].fn)]++;
    bool fatal = plan[0].fn == ip::f_epoll_wait || plan[0].fn == ip::f_read || plan[0].fn == ip::f_epoll_create || plan[0].fn == ip::f_epoll_ctl || plan[0].fn == ip::f_eventfd;
    if (r.ok && ended && ! ip::fired()) r = Outcome::bad("it ended for no reason");
    if (r.ok && ended && ! fatal) r = Outcome::bad("it ended because of one directory");
    if (r.ok && ended && (plan[0].err == EINTR || plan[0].err == EAGAIN)) r = Outcome::bad("it ended because of an interruption");
  }
  else {
    // Halves which were put together
    for (size_t i = 0; i < want.size() && i < got.size(); ++i)
      if (joined(i, got, i)) want[i].assoc = true, want[i].apath = want[i + 1].path, want.erase(want.begin() + (long)i + 1);
    for (size_t i = 0; r.ok && i < std::max(want.size(), got.size()); ++i)
      if (i >= got.size()) r = Outcome::bad("missing: " + show(want[i]));
      else if (i >= want.size()) r = Outcome::bad("unexpected: " + core::show(got[i]));
      else if (! same(got[i], want[i])) r = Outcome::bad("#" + std::to_string(i) + " is " + core::show(got[i]) + ", not " + show(want[i]));
    if (r.ok && ! ended) {
      auto m = ip::marks();
      std::set<string> marked(m.begin(), m.end());
      for (auto& d : marks_wanted) if (! marked.count(d)) { r = Outcome::bad("not marked: " + core::show(d)); break; }
      // (They were there then, but may have been renamed.)
      auto within = [&](string const& p) { return p.compare(0, root.size() + 1, root + "/") == 0; };
      for (auto& d : marked) if (r.ok && ! tree.count(d) && ! marks_wanted.count(d) && ! within(d)) r = Outcome::bad("marked: " + core::show(d));
    }
    if (r.ok && ended && ! version) r = Outcome::bad("it ended for no reason");
    info.counts["version mismatches"] += version;
  }
  info.counts["events"] += n_events;
  info.counts["renames in one"] += n_pairs;
  info.counts["renamed directories"] += n_moved;
  info.counts["renames across batches"] += n_split;
  info.counts["renames across batches, all there"] += n_joined;
  info.counts["odd events"] += n_odd;
  info.counts["merged masks"] += n_merged;
  info.counts["batches"] += n_batches;
  info.counts["new directories"] += n_new;
  info.nontrivial = mode == odd ? n_odd + version > 0 && n_events > 0 : mode == failing ? ip::fired() > 0 : n_events >= 2;
  return finish(r);
}

// Without it

Outcome run_fallback(Case const& c, Info& info)
{
  using namespace world;
  static int const errs[] = {EPERM, ENOSYS, EINVAL, EMFILE, ENOMEM, EACCES, ENODEV, EOPNOTSUPP, EIO, EXDEV, EAGAIN, EBADF, ENFILE, 123, ESTALE, EOVERFLOW};
  static int const fns[] = {ip::f_fanotify_init, ip::f_fanotify_mark, ip::f_name_to_handle, ip::f_open_by_handle_at, ip::f_fanotify_init};
  static char const* const what[] = {"can't be initialized", "can't mark", "has no handles", "can't open its handles", "works"};
  ip::reset();
  ip::fan_fd = -1;
  Scratch scratch;
  World w{scratch.path};
  for (auto d : {"/w", "/wx", "/o", "/o/p"}) mkdir((w.base + d).c_str(), 0755);
  w.add(w.base + "/o/p", {'d', 0, 0});
  touch(w.base + "/o/f");
  w.add(w.base + "/o/f", {'f', 0, 0});
  auto root = w.base + "/w";
  w.roots = {root};
  w.pick_names(c.cfg[0]);
  w.flush = [] { return Outcome{}; };
  w.may_split = true;
  static int const acts[] = {a_create, a_create_write, a_write, a_unlink, a_mkdir, a_mkdirs, a_rename_file, a_rename_dir, a_movein_tree, a_rm_r};
  bool did;
  Outcome r;
  size_t i = 0;
  for (; i < c.ops.size() / 3; ++i)
    if (r = w.act(acts[c.ops[i][0] % 10], c.ops[i], root, did); ! r.ok) return r;
  auto fds0 = fds();
  // One watcher after another, with what fanotify's like changing between them
  u32 const n = 1 + c.cfg[2] % 3;
  long fallbacks = 0;
  for (u32 k = 0; k < n && r.ok; ++k) {
    u32 const how = (c.cfg[3] >> (4 * k)) % (n > 1 ? 5 : 4);
    int const err = errs[(c.cfg[4] >> (4 * k)) % 16];
    bool const works = how == 4;
    ip::reset();
    if (! works) {
      ip::Fault f;
      f.fn = fns[how];
      f.err = err;
      f.times = 1 << 28;
      ip::plan({f});
    }
    w.say(string("-- fanotify ") + what[how] + (works ? "" : " (" + std::to_string(err) + ")"));
    w.fan = works;
    w.reset_burst();
    auto rec = std::make_shared<Recorder>();
    auto t = core::open(root, rec);
    w.live = true;
    size_t from = 0;
    auto settle = [&]() -> Outcome {
      if (! sync(*rec, root)) return Outcome::bad("the watcher isn't reporting anything");
      auto o = match(view(w.raws, root, true), relevant(rec->since(from)));
      from = rec->size();
      w.reset_burst();
      return o;
    };
    w.flush = settle;
    r = settle();
    size_t const end = i + (c.ops.size() - i) / (n - k);
    for (; r.ok && i < end; ++i) {
      r = w.act(acts[c.ops[i][0] % 10], c.ops[i], root, did);
      if (r.ok && c.cfg[1] % 3 == 0) r = settle();
    }
    if (r.ok) r = settle();
    w.flush = [] { return Outcome{}; };
    w.live = false;
    bool ok = core::close(*t);
    core::destroy(t);
    std::lock_guard g{rec->m};
    auto& e = rec->evs;
    if (r.ok && ! ok) r = Outcome::bad("close() is false");
    if (r.ok && (e[0].path != "s/self/live@" + root || e.back().path != "s/self/die@" + root)) r = Outcome::bad("its messages aren't those of success");
    for (auto& v : e)
      if (r.ok && v.pt == sut::watcher && (v.path.compare(0, 2, "e/") == 0 || v.path == "w/sys/not_watched@" + root || v.path.compare(0, 12, "w/sys/bad_fd") == 0))
        r = Outcome::bad("a message: " + core::show(v));
    if (r.ok && ip::bad_closes()) r = Outcome::bad("a file descriptor was closed which wasn't open");
    if (r.ok && ! ip::calls(ip::f_fanotify_init)) r = Outcome::bad("fanotify wasn't even tried");
    if (r.ok && works && ip::calls(ip::f_inotify_init)) r = Outcome::bad("inotify was used, although fanotify works");
    if (r.ok && ! works && ip::fired() && ! ip::calls(ip::f_inotify_init)) r = Outcome::bad("inotify wasn't used, although fanotify doesn't work");
    fallbacks += ! works;
    info.counts[string("fanotify ") + what[how]]++;
    if (! works) info.counts["errno " + std::to_string(err)]++;
  }
  if (r.ok && fds() != fds0) r = Outcome::bad("file descriptors differ afterwards");
  info.nontrivial = w.mutations > 0 && fallbacks;
  info.counts["mutations"] += w.mutations;
  info.counts["watchers"] += n;
  for (size_t k = 0; k < w.log.size() && k < 20; ++k) info.describe += " [" + core::show(w.log[k]) + "]";
  if (! r.ok) r.msg += "\n  " + info.describe;
  return r;
}

}  // namespace

int main(int argc, char** argv)
{
  char const* const about = "batches of fanotify events, in the kernel's format, made up at random (kinds, directories, names, extra records, "
    "directories which are gone), read through a replaced fanotify_init from a pipe";
  add({"plain", [](Case const& c, Info& i) { return run_fan(plain, c, i); }, 60, 16,
    string(about) + ": delivered one to one, and new directories are marked; non-trivial: at least two events", 60});
  add({"fanholds", [](Case const& c, Info& i) { return run_fan(c.cfg[6] % 2 ? odd : plain, c, i, true); }, 40, 10,
    "the same, looking at the descriptors which are left over, and whether other programs would inherit them; non-trivial: five events or more"});
  add({"odd", [](Case const& c, Info& i) { return run_fan(odd, c, i); }, 60, 16,
    string(about) + ", with odd ones between them (overflows, descriptors, missing information or names, directories which can't be opened, versions): "
    "one warning each, and all others as usual; non-trivial: some odd and some other events", 60});
  add({"fanfaults", [](Case const& c, Info& i) { return run_fan(failing, c, i); }, 40, 16,
    string(about) + ", with failing system interfaces: it ends with an error, or warns and goes on; non-trivial: something failed", 60});
  add({"fallback", run_fallback, 40, 10,
    "histories with up to three watchers (as root) in turn: for some, fanotify fails with random errors (its initialization, marking directories, making or opening handles), "
    "for others it works (a simulation): reported by inotify as if nothing was wrong, or by fanotify alone; non-trivial: something changed, and it failed for one", 60});
  return core::main(argc, argv);
}
