#include "ip.hpp"
#include "instances.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <memory>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <thread>
#include <sys/syscall.h>
#include <unistd.h>

namespace ip {

thread_local int own = 0;
std::atomic<int> fan_errno{EPERM};
std::atomic<int> fan_fd{-1};
std::function<Handle(unsigned char const*, unsigned)> on_handle;
std::atomic<long> stops{0};
std::atomic<int> low_fn{-1};
std::atomic<int> fan_flags{0};
std::atomic<bool> fan_merge{false}, fan_gate{false}, cwd_ok{true};
std::string handle_fs;

namespace {
std::mutex m;
std::vector<Fault> faults;
int n_calls[f_count];
int n_fired;
std::string fired_log;
std::vector<std::string> marked;
std::vector<unsigned> segs;
size_t seg_at;
int n_bad_closes;
std::vector<unsigned> mixes;
size_t mix_at;
int n_mixed;
bool mix_ok = true;
std::vector<unsigned> inj, injd;
size_t inj_at;
bool inj_quiet;
std::atomic<bool> busy{false};
size_t fan_at;   // in the next packet
struct Sim;
std::map<int, std::shared_ptr<Sim>> sims;
constexpr int own_type = 0x7071;         // handles of name_to_handle_at: an index
std::vector<std::string> own_handles;
std::atomic<int> n_sims{0};
std::atomic<int> ino_fds[64];

void ino_add(int fd) {
  for (auto& f : ino_fds) { int z = 0; if (f.compare_exchange_strong(z, fd + 1)) return; }
}
bool ino_has(int fd) {
  for (auto& f : ino_fds) if (fd >= 0 && f == fd + 1) return true;
  return false;
}
void ino_del(int fd) {
  for (auto& f : ino_fds) { int z = fd + 1; if (fd >= 0) f.compare_exchange_strong(z, 0); }
}

// True if this call should fail (errno is set)
bool fails(int fn)
{
  if (own > 0 || ! busy) return false;
  std::lock_guard g{m};
  int n = ++n_calls[fn];
  for (auto& f : faults)
    if (f.fn == fn && n >= f.nth && n < f.nth + f.times) {
      ++n_fired;
      fired_log += std::string(fn_name(fn)) + "#" + std::to_string(n) + "=" + std::to_string(f.err) + " ";
      errno = f.err;
      return true;
    }
  return false;
}

// Nothing but low_fn's result is the lowest descriptor
[[maybe_unused]] int lowest(int fn, int fd)
{
  if (own > 0 || fd != 0 || low_fn < 0 || low_fn == fn) return fd;
  int up = (int)syscall(SYS_fcntl, fd, syscall(SYS_fcntl, fd, F_GETFD) & FD_CLOEXEC ? F_DUPFD_CLOEXEC : F_DUPFD, 3);
  syscall(SYS_close, fd);
  return up;
}

// (With m locked.)
[[maybe_unused]] ssize_t read_fan(int fd, char* buf, size_t n, size_t& at, bool merge)
{
  static char pk[65536];
  size_t got = 0;
  for (;;) {
    auto len = recv(fd, pk, sizeof pk, MSG_PEEK | MSG_DONTWAIT);
    if (len <= 0) return got ? (ssize_t)got : len;
    bool all = true;
    while (at < (size_t)len) {
      u_int32_t one;
      memcpy(&one, pk + at, sizeof one);
      if (one < sizeof one || one > (size_t)len - at) one = (u_int32_t)((size_t)len - at);
      if (one > n - got) { all = false; break; }
      memcpy(buf + got, pk + at, one);
      got += one, at += one;
    }
    if (all) {
      (void)recv(fd, pk, sizeof pk, MSG_DONTWAIT);
      at = 0;
      if (merge) continue;
    }
    else if (! got) return errno = EINVAL, -1;
    return (ssize_t)got;
  }
}


#ifndef IP_MINIMAL
// (With m locked.)
void mix(char* buf, size_t len)
{
  struct Ev { int wd; u_int32_t mask, cookie, len; };   // (as inotify_event begins)
  struct One { size_t at, len; Ev e; std::string name; bool ok; };
  std::vector<One> v;
  for (size_t at = 0; at < len;) {
    One o{at, 0, {}, {}, true};
    memcpy((void*)&o.e, buf + at, sizeof o.e);
    o.len = sizeof o.e + o.e.len;
    if (o.e.len) o.name = buf + at + sizeof o.e;
    at += o.len;
    // (What was in a directory which left is of no interest, so its parts aren't, either.)
    if (o.e.mask & IN_ISDIR && o.e.mask & IN_MOVE) mix_ok = false;
    if (o.name.compare(0, 7, ".wsync-") == 0) mix_ok = true;
    o.ok = mix_ok;
    v.push_back(std::move(o));
  }
  bool any = false;
  for (size_t i = 0; i + 2 < v.size(); ++i) {
    auto &f = v[i].e, &t = v[i + 1].e;
    if (! (f.mask & IN_MOVED_FROM) || ! (t.mask & IN_MOVED_TO) || f.cookie != t.cookie || f.mask & IN_ISDIR || ! v[i].ok) continue;
    size_t k = i + 1, to = k + mixes[mix_at++ % mixes.size()];
    while (k < to && k + 1 < v.size()) {
      auto& x = v[k + 1];
      // (Both directories are locked meanwhile. Files can be written to.)
      bool same_dir = x.e.wd == v[i].e.wd || x.e.wd == v[k].e.wd;
      bool same = (x.e.wd == v[k].e.wd && x.name == v[k].name) || (x.e.wd == v[i].e.wd && x.name == v[i].name);
      if (x.e.mask & (IN_ISDIR | IN_IGNORED | IN_DELETE_SELF | IN_MOVE_SELF | IN_Q_OVERFLOW) || same || (same_dir && x.e.mask != IN_MODIFY)) break;
      std::swap(v[k], v[k + 1]), ++k, any = true;
    }
    n_mixed += k > i + 1;
  }
  if (! any) return;
  std::string out;
  for (auto& o : v) out.append(buf + o.at, o.len);
  memcpy(buf, out.data(), out.size());
}

// A fanotify which is made of inotify, for those who may not have the kernel's
// (here: paths are those at the time of reading, as the kernel's; but nothing is merged).
struct Sim {
  int fd = -1, peer = -1, ino = -1, stop = -1;
  unsigned flags = 0;
  size_t at = 0;
  struct Mark { u_int32_t id; uint64_t mask; };
  std::map<int, Mark> marks;   // by watch descriptor
  std::thread pump;
};
std::map<u_int32_t, int> sim_keep;   // handles: a descriptor for each
u_int32_t sim_id = 0;

int sys_up(int fd)
{
  int up = (int)syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 700);
  syscall(SYS_close, fd);
  return up;
}

void sim_record(std::string& out, uint8_t type, u_int32_t id, char const* name, void const* fsid)
{
  std::string r;
  auto put = [&](void const* p, size_t n) { r.append((char const*)p, n); };
  uint8_t head[4] = {type, 0, 0, 0};
  u_int32_t h[5] = {12, 1, id, 0xfa, ~id};
  put(head, 4), put(fsid, 8), put(h, 20);
  if (name) put(name, strlen(name) + 1);
  while (r.size() % 4) r += '\0';
  auto len = (uint16_t)r.size();
  memcpy(r.data() + 2, &len, 2);
  out += r;
}

// (With m locked.)
void sim_event(Sim& s, inotify_event const& e, std::string& out)
{
  std::string rec;
  uint64_t mask = e.mask & 0xfff;
  if (e.mask & IN_Q_OVERFLOW) mask = FAN_Q_OVERFLOW;
  else {
    auto k = s.marks.find(e.wd);
    if (k == s.marks.end()) return;
    if (e.mask & IN_IGNORED) return;
    bool dirent = mask & (IN_CREATE | IN_DELETE | IN_MOVE), dir = e.mask & IN_ISDIR;
    mask &= k->second.mask;
    if (! mask || (dir && ! (k->second.mask & FAN_ONDIR)) || (e.len && ! dirent && ! (k->second.mask & FAN_EVENT_ON_CHILD))) return;
    if (dir) mask |= FAN_ONDIR;
    struct statfs fs{};
    fstatfs(sim_keep[k->second.id], &fs);
    bool named = s.flags & FAN_REPORT_NAME;
    if (s.flags & FAN_REPORT_DIR_FID)
      sim_record(rec, named ? FAN_EVENT_INFO_TYPE_DFID_NAME : FAN_EVENT_INFO_TYPE_DFID, k->second.id, ! named ? nullptr : e.len ? e.name : ".", &fs.f_fsid);
    if (s.flags & FAN_REPORT_FID && ! dirent && e.len) sim_record(rec, FAN_EVENT_INFO_TYPE_FID, 0x7fffffff, nullptr, &fs.f_fsid);
  }
  fanotify_event_metadata md{};
  md.event_len = (u_int32_t)(sizeof md + rec.size());
  md.vers = FANOTIFY_METADATA_VERSION;
  md.metadata_len = sizeof md;
  md.mask = mask;
  md.fd = FAN_NOFD;
  out.append((char*)&md, sizeof md);
  out += rec;
}

void sim_pump(Sim* s)
{
  ++own;
  alignas(8) static thread_local char buf[4096];
  for (;;) {
    pollfd p[2] = {{s->ino, POLLIN, 0}, {s->stop, POLLIN, 0}};
    if (poll(p, 2, -1) < 0) continue;
    if (p[1].revents) return;
    std::string out;
    for (int i = 0; i < 4; ++i) {
      auto n = syscall(SYS_read, s->ino, buf, sizeof buf);
      if (n <= 0) break;
      unsigned last = 0;
      std::lock_guard g{m};
      for (long at = 0; at < n;) {
        auto& e = *(inotify_event const*)(buf + at);
        sim_event(*s, e, out);
        last = e.mask;
        at += (long)(sizeof e + e.len);
      }
      // (Both parts of a rename are there at once, here.)
      if (! (last & IN_MOVED_FROM) || poll(p, 1, 3) <= 0) break;
    }
    while (! out.empty() && send(s->peer, out.data(), out.size(), MSG_DONTWAIT | MSG_NOSIGNAL) < 0) {
      if (errno != EAGAIN && errno != EINTR) return;
      pollfd q[2] = {{s->peer, POLLOUT, 0}, {s->stop, POLLIN, 0}};
      poll(q, 2, 100);
      if (q[1].revents) return;
    }
  }
}

int sim_init(unsigned flags)
{
  static bool once = [] {
    rlimit r;
    if (getrlimit(RLIMIT_NOFILE, &r) == 0 && r.rlim_cur < 16384) r.rlim_cur = std::min<rlim_t>(r.rlim_max, 16384), setrlimit(RLIMIT_NOFILE, &r);
    return true;
  }();
  (void)once;
  auto s = std::make_shared<Sim>();
  s->flags = flags;
  s->ino = patient_inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
  if (s->ino < 0) return -1;
  s->ino = sys_up(s->ino);
  int p[2];
  if (socketpair(AF_UNIX, SOCK_SEQPACKET | (flags & FAN_NONBLOCK ? SOCK_NONBLOCK : 0) | (flags & FAN_CLOEXEC ? SOCK_CLOEXEC : 0), 0, p) != 0) {
    syscall(SYS_close, s->ino);
    return -1;
  }
  s->fd = lowest(f_fanotify_init, p[0]), s->peer = sys_up(p[1]);
  s->stop = sys_up((int)syscall(SYS_eventfd2, 0, EFD_CLOEXEC));
  int big = 1 << 20;
  setsockopt(s->peer, SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
  {
    std::lock_guard g{m};
    sims[s->fd] = s;
    ++n_sims;
  }
  s->pump = std::thread{sim_pump, s.get()};
  return s->fd;
}

std::shared_ptr<Sim> sim_of(int fd)
{
  if (! n_sims) return nullptr;
  std::lock_guard g{m};
  auto i = sims.find(fd);
  return i == sims.end() ? nullptr : i->second;
}

int sim_mark(Sim& s, unsigned fl, uint64_t mask, int at, char const* p)
{
  std::lock_guard g{m};
  marked.push_back(p ? p : "");
  int o = openat(at, p, O_PATH | O_CLOEXEC | (fl & FAN_MARK_DONT_FOLLOW ? O_NOFOLLOW : 0) | (fl & FAN_MARK_ONLYDIR ? O_DIRECTORY : 0));
  if (o < 0) return -1;
  o = sys_up(o);
  auto by = "/proc/self/fd/" + std::to_string(o);
  int r = -1;
  if (fl & FAN_MARK_ADD) {
    int wd = (int)syscall(SYS_inotify_add_watch, s.ino, by.c_str(), (u_int32_t)(mask & 0xfff) | IN_MASK_ADD);
    if (wd >= 0) {
      auto [i, fresh] = s.marks.insert({wd, {sim_id + 1, 0}});
      i->second.mask |= mask;
      if (fresh) sim_keep[++sim_id] = o, o = -1;
      r = 0;
    }
  }
  else errno = EINVAL;   // (Nobody removes any.)
  int ec = errno;
  if (o >= 0) syscall(SYS_close, o);
  errno = ec;
  return r;
}

int sim_open(int at, void const* handle, unsigned bytes, int flags)
{
  std::lock_guard g{m};
  u_int32_t h[3] = {0, 0, 0};
  if (bytes == sizeof h) memcpy(h, handle, sizeof h);
  auto k = h[2] == ~h[0] ? sim_keep.find(h[0]) : sim_keep.end();
  struct stat of, is;
  if (k == sim_keep.end()) return errno = ESTALE, -1;
  if (fstat(k->second, &of) != 0) return -1;
  if ((at == AT_FDCWD ? stat(".", &is) : fstat(at, &is)) != 0) return -1;
  if (at != AT_FDCWD && syscall(SYS_fcntl, at, F_GETFL) & O_PATH) return errno = EBADF, -1;
  if (of.st_dev != is.st_dev) return errno = ESTALE, -1;
  return ::open(("/proc/self/fd/" + std::to_string(k->second)).c_str(), flags);
}

void sim_close(int fd)
{
  auto s = sim_of(fd);
  if (! s) return;
  uint64_t x = 1;
  (void)! syscall(SYS_write, s->stop, &x, sizeof x);
  s->pump.join();
  std::lock_guard g{m};
  for (auto& [_, k] : s->marks) {
    auto i = sim_keep.find(k.id);
    if (i != sim_keep.end()) syscall(SYS_close, i->second), sim_keep.erase(i);
  }
  for (int f : {s->peer, s->ino, s->stop}) syscall(SYS_close, f);
  sims.erase(fd);
  --n_sims;
}
#endif

template<class T> T next(char const* name) { return (T)dlsym(RTLD_NEXT, name); }
}  // namespace

char const* fn_name(int f)
{
  static char const* const names[] = {"eventfd", "inotify_init", "inotify_add_watch",
    "inotify_rm_watch", "epoll_create", "epoll_ctl", "epoll_wait", "read", "realpath",
    "opendir", "fanotify_init", "fanotify_mark", "open_by_handle_at", "readlink", "name_to_handle_at", "poll"};
  return names[f];
}

void reset()
{
  std::lock_guard g{m};
  faults.clear();
  memset(n_calls, 0, sizeof n_calls);
  n_fired = 0;
  fired_log.clear();
  marked.clear();
  segs.clear();
  seg_at = 0;
  n_bad_closes = 0;
  mixes.clear();
  mix_at = 0;
  n_mixed = 0;
  mix_ok = true;
  inj.clear();
  injd.clear();
  inj_at = 0;
  busy = true;
  low_fn = -1;
  fan_at = 0;
  fan_merge = fan_gate = false;
  cwd_ok = true;
  handle_fs.clear();
}
void plan(std::vector<Fault> const& f) { std::lock_guard g{m}; faults = f; }
int calls(int fn) { std::lock_guard g{m}; return n_calls[fn]; }
int fired() { std::lock_guard g{m}; return n_fired; }
std::string log_fired() { std::lock_guard g{m}; return fired_log; }
std::vector<std::string> marks() { std::lock_guard g{m}; return marked; }
int bad_closes() { std::lock_guard g{m}; return n_bad_closes; }
void inject(std::vector<unsigned> const& k, bool quiet) { std::lock_guard g{m}; inj = k; inj_at = 0; inj_quiet = quiet; }
std::vector<unsigned> injected() { std::lock_guard g{m}; return injd; }
bool sim()
{
  static bool const on = getenv("WVERIF_FANSIM");
  return on;
}
bool fan_pair(int (&p)[2])
{
  if (socketpair(AF_UNIX, SOCK_SEQPACKET | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, p) != 0) return false;
  int big = 1 << 20;
  setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
  return true;
}
void interleave(std::vector<unsigned> const& by) { std::lock_guard g{m}; mixes = by; mix_at = 0; }
int interleaved() { std::lock_guard g{m}; return n_mixed; }
void segment(std::vector<unsigned> const& s) { std::lock_guard g{m}; segs = s; seg_at = 0; }

}  // namespace ip

using namespace ip;

extern "C" {

#ifndef IP_MINIMAL
int eventfd(unsigned int c, int flags) noexcept
{ return fails(f_eventfd) ? -1 : lowest(f_eventfd, (int)syscall(SYS_eventfd2, c, flags)); }

int inotify_init1(int flags) noexcept
{
  if (fails(f_inotify_init)) return -1;
  int fd = lowest(f_inotify_init, patient_inotify_init1(flags));
  if (fd >= 0) ino_add(fd);
  return fd;
}
int inotify_init(void) noexcept { return inotify_init1(0); }

int inotify_add_watch(int fd, char const* p, uint32_t mask) noexcept
{ return fails(f_inotify_add_watch) ? -1 : (int)syscall(SYS_inotify_add_watch, fd, p, mask); }

int inotify_rm_watch(int fd, int wd) noexcept
{ return fails(f_inotify_rm_watch) ? -1 : (int)syscall(SYS_inotify_rm_watch, fd, wd); }

int epoll_create1(int flags) noexcept
{ return fails(f_epoll_create) ? -1 : lowest(f_epoll_create, (int)syscall(SYS_epoll_create1, flags)); }
int epoll_create(int) noexcept { return epoll_create1(0); }

int epoll_ctl(int e, int op, int fd, struct epoll_event* ev) noexcept
{ return fails(f_epoll_ctl) ? -1 : (int)syscall(SYS_epoll_ctl, e, op, fd, ev); }

int epoll_pwait(int e, struct epoll_event* ev, int n, int ms, sigset_t const* ss)
{ return fails(f_epoll_wait) ? (errno ? -1 : 0) : (int)syscall(SYS_epoll_pwait, e, ev, n, ms, ss, 8); }
int epoll_wait(int e, struct epoll_event* ev, int n, int ms)
{ return epoll_pwait(e, ev, n, ms, nullptr); }

int poll(struct pollfd* p, nfds_t n, int ms)
{ return fails(f_poll) ? (errno ? -1 : 0) : (int)syscall(SYS_poll, p, n, ms); }

int close(int fd)
{
  ino_del(fd);
  sim_close(fd);
  if (int z = fd; fd >= 0) fan_fd.compare_exchange_strong(z, -1);   // (Its number may be another one's, then.)
  int r = (int)syscall(SYS_close, fd);
  if (r != 0 && errno == EBADF && fd >= 0 && own == 0) {
    std::lock_guard g{m};
    ++n_bad_closes;
  }
  return r;
}

int eventfd_write(int fd, eventfd_t n)
{
  uint64_t x = n;
  auto r = syscall(SYS_write, fd, &x, sizeof x);
  ++stops;
  return r == sizeof x ? 0 : -1;
}

ssize_t read(int fd, void* buf, size_t n)
{
  if (auto s = own == 0 ? sim_of(fd) : nullptr) {
    if (busy && fails(f_read)) return errno ? -1 : 0;
    std::lock_guard g{m};
    if (! segs.empty()) n = std::min<size_t>(n, std::max(700u, segs[seg_at++ % segs.size()]));
    return read_fan(fd, (char*)buf, n, s->at, true);
  }
  if (own == 0 && busy && (ino_has(fd) || (fd >= 0 && fd == fan_fd))) {
    if (fd == fan_fd) while (fan_gate) usleep(50);
    if (fails(f_read)) return errno ? -1 : 0;
    std::lock_guard g{m};
    if (fd == fan_fd) return read_fan(fd, (char*)buf, n, fan_at, fan_merge);
    if (! segs.empty()) {
      size_t s = segs[seg_at++ % segs.size()];
      if (s < n) n = s;
    }
    if (! mixes.empty() && inj.empty() && ino_has(fd)) {
      auto got = syscall(SYS_read, fd, buf, n);
      if (got > 0) mix((char*)buf, (size_t)got);
      return got;
    }
    if (! inj.empty() && ino_has(fd)) {
      // Room for a few more events than we read
      constexpr size_t one = sizeof(inotify_event) + 16;
      size_t room = n > 272 + 4 * one ? (n - 272) / 2 : 0;
      auto got = syscall(SYS_read, fd, buf, n - room);
      if (got <= 0 || ! room) return got;
      std::string out;
      auto in = (char const*)buf;
      unsigned last = 0;
      for (ssize_t at = 0; at <= got;) {
        bool end = at == got;
        auto e = (inotify_event const*)(in + at);
        auto len = end ? 1 : sizeof *e + e->len;
        if (end && inj_quiet) break;
        bool skip = inj_quiet && (! e->len || strncmp(e->name, ".wsync-", 7) == 0);
        unsigned k = skip ? 0 : inj[inj_at++ % inj.size()];
        // (The other part of a rename is waited for, if there's nothing after this one.)
        if (end && last & IN_MOVED_FROM) break;
        if (k && out.size() + one + (size_t)(got - at) <= n) {
          inotify_event x{};
          char name[16] = "stray";
          x.wd = k == 1 ? -1 : 0x3fffff00;
          x.mask = k == 1 ? IN_Q_OVERFLOW : k == 2 ? IN_CREATE : IN_IGNORED;
          x.len = k == 2 ? 16 : 0;
          out.append((char*)&x, sizeof x);
          if (x.len) out.append(name, sizeof name);
          injd.push_back(k);
        }
        if (! end) out.append(in + at, len), last = e->mask;
        at += (ssize_t)len;
      }
      memcpy(buf, out.data(), out.size());
      return (ssize_t)out.size();
    }
  }
  return syscall(SYS_read, fd, buf, n);
}

char* realpath(char const* p, char* out) noexcept
{
  static auto f = next<char* (*)(char const*, char*)>("realpath");
  return fails(f_realpath) ? nullptr : f(p, out);
}

DIR* opendir(char const* p)
{
  static auto f = next<DIR* (*)(char const*)>("opendir");
  return fails(f_opendir) ? nullptr : f(p);
}

ssize_t readlink(char const* p, char* b, size_t n) noexcept
{ return fails(f_readlink) ? -1 : syscall(SYS_readlink, p, b, n); }

int name_to_handle_at(int at, char const* p, struct file_handle* h, int* id, int flags) noexcept
{
  if (fails(f_name_to_handle)) return -1;
  if (own > 0 || (! sim() && ! on_handle)) return (int)syscall(SYS_name_to_handle_at, at, p, h, id, flags);
  // (One of ours, wherever the kernel's couldn't be opened.)
  u_int32_t n = 0;
  if (h->handle_bytes < sizeof n) return h->handle_bytes = sizeof n, errno = EOVERFLOW, -1;
  int o = ::openat(at, p, O_PATH | O_CLOEXEC | (flags & AT_SYMLINK_FOLLOW ? 0 : O_NOFOLLOW));
  if (o < 0) return -1;
  char path[PATH_MAX];
  auto len = syscall(SYS_readlink, ("/proc/self/fd/" + std::to_string(o)).c_str(), path, sizeof path);
  syscall(SYS_close, o);
  if (len < 0) return -1;
  std::lock_guard g{m};
  if (own_handles.size() > 4096) own_handles.clear();
  own_handles.emplace_back(path, (size_t)len);
  n = (u_int32_t)own_handles.size() - 1;
  h->handle_bytes = sizeof n, h->handle_type = own_type;
  memcpy(h->f_handle, &n, sizeof n);
  *id = 1;
  return 0;
}

int open_by_handle_at(int fd, struct file_handle* h, int flags)
{
  if (fails(f_open_by_handle_at)) return -1;
  if (h->handle_type == own_type && h->handle_bytes == 4 && (sim() || on_handle)) {
    std::string path;
    {
      std::lock_guard g{m};
      u_int32_t n;
      memcpy(&n, h->f_handle, sizeof n);
      if (n >= own_handles.size()) return errno = ESTALE, -1;
      path = own_handles[n];
    }
    struct stat is, of;
    if (stat(path.c_str(), &of) != 0 || (fd == AT_FDCWD ? stat(".", &is) : fstat(fd, &is)) != 0) return -1;
    if (fd != AT_FDCWD && syscall(SYS_fcntl, fd, F_GETFL) & O_PATH) return errno = EBADF, -1;
    if (is.st_dev != of.st_dev || (! sim() && fd == AT_FDCWD && ! cwd_ok)) return errno = ESTALE, -1;
    return ::open(path.c_str(), flags);
  }
  if (sim()) return sim_open(fd, h->f_handle, h->handle_bytes, flags);
  if (! on_handle) return (int)syscall(SYS_open_by_handle_at, fd, h, flags);
  if (! handle_fs.empty()) {
    struct stat is, of;
    if (fd == AT_FDCWD ? ! cwd_ok : (fstat(fd, &is) != 0 || stat(handle_fs.c_str(), &of) != 0 || is.st_dev != of.st_dev))
      return errno = fd == AT_FDCWD || fcntl(fd, F_GETFD) == 0 ? ESTALE : EBADF, -1;
    if (fd != AT_FDCWD && fcntl(fd, F_GETFL) & O_PATH) return errno = EBADF, -1;
  }
  auto r = on_handle(h->f_handle, h->handle_bytes);
  if (r.err) return errno = r.err, -1;
  return ::open(r.path.c_str(), flags);
}
#endif

int fanotify_init(unsigned int flags, unsigned int) noexcept
{
  fan_flags = (int)flags;
#ifndef IP_MINIMAL
  if (fails(f_fanotify_init)) return -1;
#endif
  static bool const real = getenv("WVERIF_REALFAN");
  if (real) return (int)syscall(SYS_fanotify_init, flags, O_RDONLY | O_CLOEXEC | O_NONBLOCK);
#ifndef IP_MINIMAL
  if (sim()) return sim_init(flags);
#endif
  int fd = fan_fd;
  if (fd >= 0) return fd;
  return errno = fan_errno, -1;
}

int fanotify_mark(int fd, unsigned int fl, uint64_t mask, int at, char const* p) noexcept
{
  static bool const real = getenv("WVERIF_REALFAN");
  if (real) return (int)syscall(SYS_fanotify_mark, fd, fl, mask, at, p);
#ifndef IP_MINIMAL
  if (fails(f_fanotify_mark)) return -1;
  if (auto s = sim_of(fd)) return sim_mark(*s, fl, mask, at, p);
#endif
  std::lock_guard g{m};
  marked.push_back(p ? p : "");
  return 0;
}

}  // extern "C"
