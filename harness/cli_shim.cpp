// Linked with the program: no fanotify, waits which are written down instead of
// waited for, and failures, if asked for.
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "instances.hpp"

static bool is_main() { return (pid_t)syscall(SYS_gettid) == getpid(); }

extern "C" int fanotify_init(unsigned, unsigned) noexcept
{
  errno = EPERM;
  return -1;
}

// WVERIF_FAIL=<call>: that call fails
static bool fails(char const* what)
{
  auto* f = getenv("WVERIF_FAIL");
  return f && strcmp(f, what) == 0;
}
extern "C" int inotify_init() noexcept
{
  if (fails("inotify_init")) return errno = EMFILE, -1;
  return patient_inotify_init1(0);
}
extern "C" int inotify_init1(int flags) noexcept
{
  if (fails("inotify_init")) return errno = EMFILE, -1;
  return patient_inotify_init1(flags);
}
extern "C" int inotify_add_watch(int fd, char const* p, uint32_t m) noexcept
{
  if (fails("inotify_add_watch")) return errno = ENOSPC, -1;
  return (int)syscall(SYS_inotify_add_watch, fd, p, m);
}
extern "C" int epoll_wait(int fd, epoll_event* e, int n, int ms)
{
  // (once it's watching, after a while)
  static std::atomic<int> k{0};
  if (fails("epoll_wait") && ++k > 2) return errno = EBADF, -1;
  int r;
  do r = (int)syscall(SYS_epoll_pwait, fd, e, n, ms, nullptr, 8);
  while (r < 0 && errno == EINTR);
  return r;
}

// WVERIF_WAITS=1: waits of the main thread are written to 7, and last until 8 can be read.
// Its clocks go forward by as much.
static __int128 skew = 0;

static bool recording()
{
  static bool const on = getenv("WVERIF_WAITS") != nullptr;
  return on && is_main();
}
static void wait_instead(__int128 ns, char const* how)
{
  static int n = 0;
  if (++n > 100000) _exit(77);
  char b[96];
  bool neg = ns < 0;
  auto a = neg ? -ns : ns;
  char d[48];
  int i = sizeof d;
  d[--i] = 0;
  do d[--i] = (char)('0' + (int)(a % 10)), a /= 10;
  while (a);
  auto k = snprintf(b, sizeof b, "%s %s%s\n", how, neg ? "-" : "", d + i);
  (void)! syscall(SYS_write, 7, b, (size_t)k);
  skew += ns > 0 ? ns : 0;
  static bool first = true;
  char c;
  if (first) while (syscall(SYS_read, 8, &c, 1) < 0 && errno == EINTR) {}
  first = false;
}
static __int128 ns_of(timespec const& t) { return (__int128)t.tv_sec * 1000000000 + t.tv_nsec; }
static __int128 now_of(clockid_t id)
{
  timespec t;
  syscall(SYS_clock_gettime, id, &t);
  return ns_of(t) + skew;
}

extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept
{
  int r = (int)syscall(SYS_clock_gettime, id, t);
  if (r == 0 && skew && recording()) {
    auto n = ns_of(*t) + skew;
    auto most = (__int128)LONG_MAX;
    if (n > most) n = most;
    t->tv_sec = (time_t)(n / 1000000000), t->tv_nsec = (long)(n % 1000000000);
  }
  return r;
}
extern "C" int nanosleep(timespec const* t, timespec* rem)
{
  if (! recording()) return (int)syscall(SYS_nanosleep, t, rem);
  return wait_instead(ns_of(*t), "wait"), 0;
}
extern "C" int clock_nanosleep(clockid_t id, int flags, timespec const* t, timespec* rem)
{
  if (! recording()) return syscall(SYS_clock_nanosleep, id, flags, t, rem) ? errno : 0;
  if (flags & TIMER_ABSTIME) wait_instead(ns_of(*t) - now_of(id), "until");
  else wait_instead(ns_of(*t), "wait");
  return 0;
}
extern "C" int usleep(useconds_t us)
{
  timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
extern "C" unsigned sleep(unsigned s)
{
  timespec t{(time_t)s, 0};
  return nanosleep(&t, nullptr), 0;
}
// (With nothing to wait for but the time.)
extern "C" int poll(pollfd* p, nfds_t n, int ms)
{
  if (recording() && n == 0 && ms > 0) return wait_instead((__int128)ms * 1000000, "wait"), 0;
  timespec t{ms / 1000, (long)(ms % 1000) * 1000000};
  return (int)syscall(SYS_ppoll, p, n, ms < 0 ? nullptr : &t, nullptr, 8);
}
static int timed_cond(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, timespec const* t)
{
  (void)c;
  auto d = ns_of(*t) - now_of(id);
  pthread_mutex_unlock(m);
  wait_instead(d, "until");
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
extern "C" int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, timespec const*);
extern "C" int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*);
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t)
{ return recording() ? timed_cond(c, m, CLOCK_REALTIME, t) : __real_pthread_cond_timedwait(c, m, t); }
extern "C" int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, timespec const* t)
{ return recording() ? timed_cond(c, m, id, t) : __real_pthread_cond_clockwait(c, m, id, t); }
