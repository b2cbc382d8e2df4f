// Interposed system interfaces: which kernel interface the watcher gets,
// what fails and when, and what is read from it. The symbols are in the
// harness's executable, so they come before libc's. Threads which aren't
// marked as the harness's own belong to the watcher.
#pragma once
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <vector>

namespace ip {

enum Fn {
  f_eventfd,
  f_inotify_init,
  f_inotify_add_watch,
  f_inotify_rm_watch,
  f_epoll_create,
  f_epoll_ctl,
  f_epoll_wait,
  f_read,
  f_realpath,
  f_opendir,
  f_fanotify_init,
  f_fanotify_mark,
  f_open_by_handle_at,
  f_readlink,
  f_name_to_handle,
  f_poll,
  f_count,
};
char const* fn_name(int f);

struct Fault {
  int fn = 0;
  int nth = 1;    // counted from 1, among the watcher's calls to it
  int err = 0;    // errno; 0: nothing happened (a result of zero)
  int times = 1;  // how many calls in a row
};

// How fanotify_init behaves: fails with `fan_errno`, or hands out `fan_fd`.
extern std::atomic<int> fan_errno;
extern std::atomic<int> fan_fd;
// What it was asked for
extern std::atomic<int> fan_flags;
// If descriptor 0 is free: which of them gets it (the others don't); -1: whichever is first
extern std::atomic<int> low_fn;

// Faults and counters
void reset();
void plan(std::vector<Fault> const& faults);
int calls(int fn);
int fired();
std::string log_fired();

// Segments reads from inotify: Each read asks for no more than the next of these.
void segment(std::vector<unsigned> const& sizes);

// The parts of a file's rename aren't always next to each other: What happens elsewhere meanwhile is between
// them. Moves each second part behind up to so many events (in turn) of what's read from inotify at once.
void interleave(std::vector<unsigned> const& by);
// How often it did
int interleaved();

// Closes (by the watcher) of file descriptors which weren't open
int bad_closes();
// How often the watcher was told to stop
extern std::atomic<long> stops;
// Adds events to what's read from inotify: Before the next events, in turn, `kinds` of
// which the kernel didn't send (0: none, 1: an overflow, 2: a change in a directory which
// isn't known, 3: the end of a watch which isn't known)
// (`quiet`: not before the harness's own files, nor after everything else.)
void inject(std::vector<unsigned> const& kinds, bool quiet = false);
// What was added: kind, and how many events were before it
std::vector<unsigned> injected();

// Reads of what's written to a socket (SOCK_SEQPACKET) in place of a fanotify descriptor:
// whole events, as many as fit, from one packet (or from all, with `fan_merge`). While
// `fan_gate` is on, reads wait.
extern std::atomic<bool> fan_merge, fan_gate;
bool fan_pair(int (&p)[2]);   // [0] is the watcher's
// Is there a fanotify (made of inotify) for watchers? ($WVERIF_FANSIM)
bool sim();
// Recorded marks (fanotify_mark) since the last reset.
std::vector<std::string> marks();
// What open_by_handle_at does: a path to open, or an errno.
struct Handle { std::string path; int err = 0; };
extern std::function<Handle(unsigned char const* h, unsigned len)> on_handle;
// The directory on whose filesystem handles can be opened: relative to any file there, or,
// if it's the program's own directory's (`cwd_ok`), to none.
extern std::string handle_fs;
extern std::atomic<bool> cwd_ok;

// Spurious results from read(), on the fanotify fd
extern thread_local int own;  // > 0: a thread (or scope) of the harness
struct Own { Own() { ++own; } ~Own() { --own; } };
struct Theirs { int was; Theirs() : was(own) { own = 0; } ~Theirs() { own = was; } };

}  // namespace ip
