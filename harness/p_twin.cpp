// The same histories, failures, batches and texts, for two builds of the watcher:
// what they do has to be the same. The clock is made up, so that times can be compared.
#include "core.hpp"
#include "ip.hpp"
#include "twin.hpp"
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/fanotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

using namespace core;
using std::string;

namespace sut {
bool with_text = false;
char const* flavor() { return "twin"; }
std::unique_ptr<Watcher> open(std::string const&, Cb) { return nullptr; }
}

// ---- the clock ----

static std::atomic<long long> clock_base{0}, clock_n{0};
static std::atomic<bool> clock_on{false};

extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
  if (ip::own == 0 && clock_on && id == CLOCK_REALTIME) {
    auto ns = clock_base + clock_n++ * 1000003;
    t->tv_sec = ns / 1000000000;
    t->tv_nsec = ns % 1000000000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, t);
}

namespace {

std::vector<twin::Table const*> both;

void load(char const* so)
{
  auto at = string(so);
  auto h = dlopen(at.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (! h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
  auto f = (twin::Table const* (*)())dlsym(h, "wverif_twin");
  if (! f) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
  both.push_back(f());
}

std::unique_ptr<sut::Watcher> open_in(twin::Table const& tab, string const& path, Rec r)
{
  ip::Theirs t;
  return std::unique_ptr<sut::Watcher>(tab.open(path, cb_of(std::move(r))));
}

void touch(string const& p)
{
  int fd = ::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
  if (fd >= 0) ::close(fd);
}

// What one of them did
struct Trace {
  std::vector<sut::Ev> evs;          // all but the harness's own files
  std::vector<string> notes;         // results
  std::multiset<string> marks;
  string desc;
  bool died = false;
  long n = 0;
  string error;
  bool with_times = true;
  int fired = 0;
};

bool dead(std::vector<sut::Ev> const& e)
{ return ! e.empty() && e.back().pt == sut::watcher && e.back().path.find("/self/die@") == 1; }

struct Life {
  Trace& tr;
  Rec rec = std::make_shared<Recorder>();
  std::unique_ptr<sut::Watcher> w;
  std::set<string> fds0;
  bool is_dead() { std::lock_guard g{rec->m}; return dead(rec->evs); }
  void end(u32 how)
  {
    rec->release();
    clock_base = 4000000000000000000;
    clock_n = 0;
    if (how % 4) {
      tr.notes.push_back(string("close() is ") + (core::close(*w) ? "true" : "false"));
      if (how % 4 == 2) tr.notes.push_back(string("then ") + (core::close(*w) ? "true" : "false"));
    }
    core::destroy(w);
    tr.died = ! rec->evs.empty() && rec->evs.back().path.compare(0, 2, "e/") == 0;
    auto now = fds();
    for (auto& f : now) if (! fds0.count(f)) tr.notes.push_back("leaks " + f);
    if (ip::bad_closes()) tr.notes.push_back("closes too much");
    for (auto& e : rec->evs) if (! is_sync(e)) tr.evs.push_back(e);
    tr.n = (long)tr.evs.size();
    tr.fired = ip::fired();
  }
};

// (By name: the watcher's own numbers differ for nobody.)
string show_full(sut::Ev const& e, bool times)
{
  auto s = core::show(e);
  if (times) s += " at " + std::to_string(e.t);
  return s;
}

Outcome compare(Trace const& a, Trace const& b, Info& info)
{
  info.describe = a.desc;
  if (! a.error.empty() || ! b.error.empty()) {
    if (a.error == b.error) return Outcome::bad("both: " + a.error);
    return Outcome::bad(a.error.empty() ? "the second one: " + b.error : "the first one: " + a.error);
  }
  auto bad = [&](string m) {
    m += "\n  history: " + a.desc;
    for (auto* t : {&a, &b}) {
      m += t == &a ? "\n  first:" : "\n  second:";
      for (auto& n : t->notes) m += " " + n + ";";
      for (size_t i = 0; i < t->evs.size() && i < 60; ++i) m += "\n    " + show_full(t->evs[i], true);
    }
    return Outcome::bad(m);
  };
  bool times = a.with_times && b.with_times;
  for (size_t i = 0; i < std::max(a.evs.size(), b.evs.size()); ++i) {
    if (i >= a.evs.size()) return bad("only the second one reports " + show_full(b.evs[i], times));
    if (i >= b.evs.size()) return bad("only the first one reports " + show_full(a.evs[i], times));
    auto &x = a.evs[i], &y = b.evs[i];
    // (Messages at the end may come after more of the harness's own files.)
    bool t = times && x.path.compare(0, 2, "e/") != 0 && x.path.find("/self/") != 1;
    if (show_full(x, t) != show_full(y, t)) return bad("#" + std::to_string(i) + " is " + show_full(x, t) + ", and " + show_full(y, t));
  }
  if (a.notes != b.notes) return bad("results differ");
  if (a.marks != b.marks) return bad("marks differ: " + std::to_string(a.marks.size()) + " and " + std::to_string(b.marks.size()));
  return {};
}

long long base_time(Case const& c, int i)
{
  static long long const bs[] = {0, 1700000000000000000, 9007199254740993, 999999999, 3600000000000, 8000000000000000000};
  return bs[(c.cfg[0] / 7 + (u32)i) % 6] + i * 7919;
}

// ---- histories, with or without failures ----

enum Kind { plain, failing };

void run_one(Kind kind, twin::Table const& tab, Case const& c, string const& base, Trace& tr)
{
  using namespace world;
  ip::reset();
  // Always the same directory, empty
  if (DIR* d = opendir(base.c_str())) {
    std::vector<string> names;
    while (auto* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(d);
    for (auto& n : names) rm_rf(base, base + "/" + n);
  }
  World w{base};
  for (auto d : {"/w", "/wx", "/o", "/o/p"}) mkdir((w.base + d).c_str(), 0755);
  w.add(w.base + "/o/p", {'d', 0, 0});
  touch(w.base + "/o/f");
  w.add(w.base + "/o/f", {'f', 0, 0});
  auto root = w.base + "/w";
  w.roots = {root};
  w.pick_names(c.cfg[0]);
  w.flush = [] { return Outcome{}; };
  bool did;
  auto act = [&](Op const& o) { (void)w.act((int)(o[0] % 25), o, root, did); };
  size_t i = 0, pre = c.ops.size() * (c.cfg[1] % 3) / 6;
  for (; i < pre; ++i) act(c.ops[i]);
  w.say("-- watch");
  string path = root;
  switch (c.cfg[2] % 16) {
    case 1: path += "/"; break;
    case 2: path += "/."; break;
    case 3: path = w.base + "/lnk"; (void)! symlink("w", path.c_str()); break;
    case 4: path = w.base + "/o/f"; break;
    case 5: path = w.base + "/nothing"; break;
    case 6: path = ""; break;
    default: break;
  }
  bool is_dir = c.cfg[2] % 16 < 4 || c.cfg[2] % 16 > 6;

  std::vector<unsigned> segs, strays;
  if (c.cfg[3] % 3 == 0) for (u32 k = 0; k < 1 + c.cfg[3] % 5; ++k) segs.push_back(800 + (c.cfg[4] * (k + 1) * 37) % 3300);
  if (c.cfg[3] % 4 == 1) for (u32 k = 0; k < 1 + c.cfg[3] / 4 % 7; ++k) strays.push_back((c.cfg[4] >> (2 * k)) % 4);
  static int const at_start[] = {ip::f_eventfd, ip::f_inotify_init, ip::f_inotify_add_watch, ip::f_epoll_create, ip::f_epoll_ctl, ip::f_realpath, ip::f_opendir, ip::f_fanotify_init};
  static int const later[] = {ip::f_inotify_add_watch, ip::f_inotify_rm_watch, ip::f_realpath, ip::f_opendir, ip::f_read, ip::f_epoll_wait};
  static int const errs[] = {ENOMEM, EMFILE, ENOSPC, EACCES, EIO, EINTR, EAGAIN, EBADF, EINVAL, ENOENT};
  bool early = kind == failing && c.cfg[5] % 2;
  int late_at = kind == failing && ! early ? (int)(c.cfg[5] / 2 % 4) : -1;
  auto fault = [&](bool start) {
    ip::Fault f;
    f.fn = start ? at_start[c.cfg[6] % 8] : later[c.cfg[6] % 6];
    f.err = errs[c.cfg[6] / 8 % 10];
    f.times = c.cfg[7] % 3 == 0 ? 1 << 28 : 1 + (int)(c.cfg[7] / 3 % 3);
    f.nth = 1 + (int)(c.cfg[7] / 9 % 4);
    bool again = f.err == EINTR || f.err == EAGAIN;
    if (f.fn == ip::f_read || f.fn == ip::f_epoll_wait) {
      f.nth = 1;
      if (again) f.err = f.fn == ip::f_read ? f.err : EINTR, f.times = std::min(f.times, 3);
    }
    f.nth += ip::calls(f.fn);
    return f;
  };

  Life l{tr};
  l.fds0 = fds();
  clock_base = base_time(c, 0);
  clock_n = 0;
  clock_on = true;
  if (early) ip::plan({fault(true)});
  l.w = open_in(tab, path, l.rec);
  auto done = [&](string e) {
    if (! e.empty() && ! l.is_dead()) tr.error = e;
    l.end(c.cfg[4]);
    clock_on = false;
    for (auto& s : w.log) tr.desc += " [" + core::show(s) + "]";
    if (kind == failing) tr.desc += " failed: " + ip::log_fired();
  };
  if (! is_dir) {
    l.rec->wait(patience(), dead);
    return done("");
  }
  // (It may have warned that it can't watch its own directory.)
  bool dark = false;
  auto same_dir = [](string const& a, string const& b) {
    struct stat x, y;
    return stat(a.c_str(), &x) == 0 && stat(b.c_str(), &y) == 0 && x.st_dev == y.st_dev && x.st_ino == y.st_ino;
  };
  auto alive = [&] {
    for (int k = 0; k < 60; ++k) {
      if (sync(*l.rec, root, 0.2)) return true;
      if (l.is_dead()) return false;
      std::lock_guard g{l.rec->m};
      for (auto& e : l.rec->evs) dark |= kind == failing && e.pt == sut::watcher && e.path.compare(0, 18, "w/sys/not_watched@") == 0 && same_dir(e.path.substr(18), root);
      if (dark) return false;
    }
    return false;
  };
  if (! alive()) return done(dark ? "" : "it isn't reporting anything");
  ip::plan({});
  int bursts = 1 + (int)(c.cfg[1] / 3 % 4);
  static int n_hold = 0;
  for (int b = 0; b < bursts; ++b) {
    // A file's event on which it waits, while changes are made
    auto name = "/" + string(sync_prefix) + "hold-" + std::to_string(n_hold);
    {
      std::lock_guard g{l.rec->m};
      l.rec->hold_at = name;
    }
    touch(root + name);
    {
      std::unique_lock g{l.rec->m};
      if (! l.rec->cv.wait_for(g, std::chrono::duration<double>(patience()), [&] { return l.rec->holding; })) {
        g.unlock();
        return done("it stopped reporting (hold)");
      }
    }
    unlink((root + name).c_str());
    w.say("-- burst");
    size_t end = pre + (c.ops.size() - pre) * (size_t)(b + 1) / (size_t)bursts;
    for (; i < end; ++i) act(c.ops[i]);
    // Everything from here on happens in the same order, at the same times
    ip::segment(segs);
    ip::inject(strays, true);
    if (b == late_at % bursts && late_at >= 0) ip::plan({fault(false)});
    clock_base = base_time(c, b + 1);
    clock_n = 0;
    l.rec->release();
    if (! alive()) return done("it stopped reporting");
    ip::plan({});
    ip::segment({});
    ip::inject({});
  }
  done("");
}

Outcome run_history(Kind kind, Case const& c, Info& info)
{
  Scratch scratch;
  Trace a, b;
  a.with_times = b.with_times = kind == plain;
  run_one(kind, *both[0], c, scratch.path, a);
  run_one(kind, *both[1], c, scratch.path, b);
  info.counts["events"] += a.n;
  if (kind == failing) info.counts[a.died ? "ended by it" : a.fired ? "survived it" : "unaffected"]++;
  info.nontrivial = kind == failing ? a.fired > 0 : a.n >= 6;
  return compare(a, b, info);
}

// ---- batches of fanotify events ----

void put(string& s, void const* p, size_t n) { s.append((char const*)p, n); }

string record(uint8_t type, u32 id, u32 hb, string const* name)
{
  string r;
  uint8_t head[4] = {type, 0, 0, 0};
  put(r, head, 4);
  uint64_t fsid = 0x1122334455667788;
  int32_t ht = 1;
  put(r, &fsid, 8), put(r, &hb, 4), put(r, &ht, 4);
  string h(hb, '\x5a');
  memcpy(h.data(), &id, 4);
  r += h;
  if (name) r += *name, r += '\0';
  while (r.size() % 4) r += '\0';
  auto len = (uint16_t)r.size();
  memcpy(r.data() + 2, &len, 2);
  return r;
}

string event_bytes(uint64_t mask, int fd, uint8_t vers, string const& recs)
{
  fanotify_event_metadata m{};
  m.event_len = (u32)(sizeof m + recs.size());
  m.vers = vers;
  m.metadata_len = sizeof m;
  m.mask = mask;
  m.fd = fd;
  m.pid = 1;
  string s;
  put(s, &m, sizeof m);
  return s + recs;
}

void run_batches_one(twin::Table const& tab, Case const& c, string const& base, Trace& tr)
{
  ip::reset();
  auto root = base + "/w";
  rm_rf(base, root);
  mkdir(root.c_str(), 0755);
  static std::vector<string> const names = {"a", "b", "f.txt", "x (deleted)", ".hidden", "qu\"ote", "\xff\xfe", string(255, 'L'), "-", "..x", " ", "abc", ".", "..", "", "a/b"};
  std::vector<string> dirs{root};
  for (u32 i = 0; i < c.cfg[1] % 6; ++i) {
    auto p = dirs[(c.cfg[2] >> i) % dirs.size()] + "/" + names[(c.cfg[3] + i * 3) % 8];
    if (mkdir(p.c_str(), 0755) == 0) dirs.push_back(p);
  }
  int gone = -1;
  if (c.cfg[3] % 3 == 0) {
    auto p = root + "/gone";
    mkdir(p.c_str(), 0755);
    gone = ::open(p.c_str(), O_PATH | O_DIRECTORY | O_CLOEXEC);
    rmdir(p.c_str());
  }
  bool failing = c.cfg[5] % 3 == 0;
  u32 const bad_at = failing && c.cfg[5] / 3 % 3 == 1 ? c.cfg[6] % 12 : ~0u;
  u32 n_handles = 0;
  ip::on_handle = [&](unsigned char const* h, unsigned n) -> ip::Handle {
    u32 id = ~0u;
    if (n >= 4) memcpy(&id, h, 4);
    if (id == 77) return {root, 0};   // the harness's own
    if (n_handles++ == bad_at) return {"", ENOMEM};
    if (id == 50 && gone >= 0) return {"/proc/self/fd/" + std::to_string(gone), 0};
    if (id >= dirs.size()) return {"", ESTALE};
    return {dirs[id], 0};
  };
  int p[2];
  if (! ip::fan_pair(p)) { tr.error = "harness: pipe"; return; }
  ip::fan_fd = p[0];
  Life l{tr};
  l.fds0 = fds();
  if (failing && c.cfg[5] / 3 % 3 != 1) {
    ip::Fault f;
    f.fn = c.cfg[5] / 3 % 3 ? ip::f_fanotify_mark : ip::f_read;
    f.nth = f.fn == ip::f_read ? 1 : 2 + (int)(c.cfg[6] % 9);   // (The first: whether fanotify can be used.)
    f.err = f.fn == ip::f_read ? (c.cfg[6] % 2 ? EINTR : EAGAIN) : ENOMEM;
    f.times = 1 + (int)(c.cfg[7] % 2);
    ip::plan({f});
  }
  clock_base = base_time(c, 0);
  clock_n = 0;
  clock_on = true;
  l.w = open_in(tab, root, l.rec);
  static int n_sync = 0;
  auto send = [&](string const& b) {
    for (int k = 0; ::write(p[1], b.data(), b.size()) < 0; ++k) {
      if (l.is_dead() || k > 20000) return false;
      usleep(500);
    }
    return true;
  };
  auto settle = [&]() -> bool {
    auto name = string(sync_prefix) + std::to_string(++n_sync);
    if (! send(event_bytes(FAN_CREATE, FAN_NOFD, FANOTIFY_METADATA_VERSION, record(FAN_EVENT_INFO_TYPE_DFID_NAME, 77, 8, &name)))) return false;
    auto path = root + "/" + name;
    l.rec->wait(patience(), [&](auto& evs) { return dead(evs) || (! evs.empty() && evs.back().path == path); });
    if (l.is_dead()) return false;
    auto e = l.rec->since(0);
    if (e.empty() || e.back().path != path) return tr.error = "it stopped reporting", false;
    return true;
  };
  string batch;
  int n_b = 0;
  long made = 0;
  auto flush = [&] {
    if (batch.empty()) return true;
    clock_base = base_time(c, ++n_b);
    clock_n = 0;
    bool ok = send(batch) && settle();
    tr.desc += " |";
    batch.clear();
    return ok;
  };
  bool ok = settle();
  for (auto& o : c.ops) {
    if (! ok) break;
    static uint64_t const masks[] = {FAN_CREATE, FAN_DELETE, FAN_MODIFY, FAN_MOVED_FROM, FAN_MOVED_TO, FAN_MOVED_FROM, FAN_CREATE | FAN_MODIFY, FAN_CREATE | FAN_DELETE,
      FAN_DELETE | FAN_MODIFY, FAN_ATTRIB, FAN_OPEN, FAN_CLOSE_WRITE, 0, FAN_MOVED_FROM | FAN_MOVED_TO, FAN_DELETE_SELF, FAN_MOVE_SELF};
    uint64_t mask = o[3] % 3 ? masks[o[0] % 6] : masks[o[0] % 16];
    bool isdir = o[4] % 3 == 0;
    auto name = names[o[2] % (o[4] % 5 ? 12 : 16)];
    u32 dir = o[1] % (u32)dirs.size();
    if (o[1] % 17 == 0) dir = 50;
    if (o[1] % 19 == 0) dir = 1000;
    int fd = FAN_NOFD;
    uint8_t vers = FANOTIFY_METADATA_VERSION;
    string rec;
    u32 hb = 4 + o[3] / 3 % 31 * 4;
    switch (o[4] / 15 % 16) {
      case 0: mask = FAN_Q_OVERFLOW; break;
      case 1: fd = 6000; rec = record(FAN_EVENT_INFO_TYPE_DFID_NAME, dir, hb, &name); break;
      case 2: rec = record(FAN_EVENT_INFO_TYPE_FID, dir, hb, nullptr); break;
      case 3: rec = record(FAN_EVENT_INFO_TYPE_DFID, dir, hb, nullptr); break;
      case 4: break;
      case 5: if (o[3] % 13 == 0) vers = (uint8_t)(vers + 1); [[fallthrough]];
      case 6: rec = record(FAN_EVENT_INFO_TYPE_FID, 0x7777, 12, nullptr) + record(FAN_EVENT_INFO_TYPE_DFID_NAME, dir, hb, &name); break;
      case 7: case 8: rec = record(FAN_EVENT_INFO_TYPE_DFID_NAME, dir, hb, &name) + record(FAN_EVENT_INFO_TYPE_FID, 0x7777, 12, nullptr); break;
      default: rec = record(FAN_EVENT_INFO_TYPE_DFID_NAME, dir, hb, &name); break;
    }
    if (isdir) {
      mask |= FAN_ONDIR;
      if (mask & (FAN_CREATE | FAN_MOVED_TO) && dir < dirs.size() && o[3] % 2) {
        name = "new" + std::to_string(made++);
        rec = record(FAN_EVENT_INFO_TYPE_DFID_NAME, dir, hb, &name);
        mkdir((dirs[dir] + "/" + name).c_str(), 0755);
        mkdir((dirs[dir] + "/" + name + "/in").c_str(), 0755);
      }
    }
    auto b = event_bytes(mask, fd, vers, rec);
    if (batch.size() + b.size() > 4096 || o[2] % 9 == 0) ok = flush();
    if (! ok) break;
    batch += b;
    char t[64];
    snprintf(t, sizeof t, " %llx@%u", (unsigned long long)mask, dir);
    tr.desc += t;
  }
  if (ok) flush();
  for (auto& m : ip::marks()) tr.marks.insert(m);
  l.end(c.cfg[4]);
  clock_on = false;
  ::close(p[1]);
  if (gone >= 0) ::close(gone);
  ip::fan_fd = -1;
  ip::on_handle = nullptr;
}

Outcome run_batches(Case const& c, Info& info)
{
  Scratch scratch;
  Trace a, b;
  run_batches_one(*both[0], c, scratch.path, a);
  run_batches_one(*both[1], c, scratch.path, b);
  info.counts["events"] += a.n;
  info.nontrivial = a.n >= 5;
  return compare(a, b, info);
}

// ---- texts ----

Outcome run_texts(Case const& c, Info& info)
{
  ip::reset();
  static char const* const bits[] = {"a", "/", "\"", "\\", "\n", "\x01", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\x80", "\xc3", "\xed\xa0\x80",
    "\xf4\x90\x80\x80", "\xc0\xaf", "\xe2\x82", ".", " ", "\t", "{", "}", ":", "null", "\\u0041", "%s", "\xef\xbb\xbf", "\xf4\x8f\xbf\xbf", "\xfe"};
  clock_on = true;
  for (auto& o : c.ops) {
    auto name = [&](u32 a, u32 b) {
      string s;
      unsigned long long x = a | (unsigned long long)b << 20;
      for (u32 i = 0; i < a % 14; ++i) s += bits[x % 29], x = x / 29 + (x * 2654435761u >> 5);
      if (b % 37 == 0) s += string(b % 6000, 'L');
      return s;
    };
    sut::Ev e;
    e.path = name(o[1], o[2]), e.et = (int)(o[0] % 6), e.pt = (int)(o[3] % 6);
    e.assoc = o[4] % 2;
    e.apath = name(o[2], o[4]), e.aet = (int)(o[4] / 2 % 6), e.apt = (int)(o[4] / 12 % 6);
    string s[2];
    auto at = base_time(c, (int)(o[3] % 5000)) + (long long)o[1] * 1000;
    for (int k : {0, 1}) {
      clock_base = at, clock_n = 0;
      ip::Theirs t;
      s[k] = both[(size_t)k]->texts(e);
    }
    if (s[0] != s[1]) {
      clock_on = false;
      return Outcome::bad("texts differ for " + core::show(e) + ":\n    " + core::show(s[0]) + "\n    " + core::show(s[1]));
    }
    ++info.counts["events"];
    info.describe += " [" + core::show(e).substr(0, 60) + "]";
  }
  clock_on = false;
  info.nontrivial = ! c.ops.empty();
  return {};
}

}  // namespace

int main(int argc, char** argv)
{
  if (argc < 3) return 3;
  load(argv[1]), load(argv[2]);
  argc -= 2, argv += 2;
  add({"histories", [](Case const& c, Info& i) { return run_history(plain, c, i); }, 50, 25,
    "bursts of changes of all kinds to a tree (while the watcher waits), for one watcher and then, from the same state, for the other, with a made-up clock, "
    "reads cut short, and made-up overflows: the same events, times, warnings and results; non-trivial: at least 6 events", 90});
  add({"failures", [](Case const& c, Info& i) { return run_history(failing, c, i); }, 40, 25,
    "the same histories with failing system interfaces (at the start or later): the same events, messages and results; non-trivial: something failed", 90});
  add({"batches", run_batches, 50, 16,
    "batches of fanotify events, well-formed or odd, for one watcher and then for the other: the same events, times, warnings, marks and results; non-trivial: at least 5 events", 90});
  add({"texts", run_texts, 30, 6, "random events, in every form of text: the same texts; non-trivial: any event", 30});
  return core::main(argc, argv);
}
