// Cases, their runner, and what every property's driver needs.
#pragma once
#include "sut.hpp"
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace core {

using u32 = uint32_t;
using Op = std::array<u32, 5>;  // kind, then arguments; taken modulo what's possible

struct Case {
  std::array<u32, 8> cfg{};
  std::vector<Op> ops;
};

struct Outcome {
  bool ok = true;
  std::string msg;
  static Outcome bad(std::string m) { return {false, std::move(m)}; }
};

// What one case turned out to be
struct Info {
  bool nontrivial = false;
  std::map<std::string, long> counts;  // classes, summed up over cases
  std::string describe;                // the case, written out
};

using Prop = std::function<Outcome(Case const&, Info&)>;

struct Spec {
  std::string name;
  Prop run;
  int max_ops = 30;
  u32 op_kinds = 16;      // ops[i][0] is in [0, op_kinds)
  std::string rule;       // when a case is non-trivial
  double hang_s = 40;     // a case which takes longer than this is stuck
};

void add(Spec s);

// ---- helpers ----

std::string str(Case const&);
bool parse(std::string const& text, Case&);
std::string show(std::string const& bytes);   // printable
std::string show(sut::Ev const&);
double now_s();
long long wall_ns();

// A scratch directory, removed with everything in it. Always under /tmp or /dev/shm.
struct Scratch {
  std::string path;
  Scratch();
  ~Scratch();
  Scratch(Scratch const&) = delete;
};
void rm_rf(std::string const& under, std::string const& path);

// Did a case before this one fail? (Waits get shorter while we're shrinking.)
bool shrinking();
double patience();

// Events, as they arrive.
struct Recorder {
  std::mutex m;
  std::condition_variable cv;
  std::vector<sut::Ev> evs;
  std::vector<long long> at;  // when each arrived (wall clock, ns)
  bool hold = false;          // callbacks wait while this is set
  bool holding = false;
  std::string hold_at;        // start holding at an event whose path ends with this
  bool done = false;          // close() or the destructor returned
  int late = 0;               // events after that
  std::atomic<int> inside{0};
  std::atomic<int> overlaps{0};
  std::function<void(sut::Ev const&)> also;

  void operator()(sut::Ev const& e);
  void release();
  size_t size() { std::lock_guard g{m}; return evs.size(); }
  std::vector<sut::Ev> since(size_t from)
  { std::lock_guard g{m}; return {evs.begin() + (long)std::min(from, evs.size()), evs.end()}; }
  bool wait(double s, std::function<bool(std::vector<sut::Ev> const&)> const& f);
};
using Rec = std::shared_ptr<Recorder>;
inline sut::Cb cb_of(Rec r) { return [r](sut::Ev const& e) { (*r)(e); }; }

constexpr char sync_prefix[] = ".wsync-";
bool is_sync(sut::Ev const&);

// Creates files in `dir` until one is reported. True once everything which
// happened before that was (because events are in order).
bool sync(Recorder& r, std::string const& dir, double s = 0);

std::unique_ptr<sut::Watcher> open(std::string const& path, Rec r);
bool close(sut::Watcher& w);
void destroy(std::unique_ptr<sut::Watcher>& w);

// Descriptor 0 is free (and, first of all, it's for `fn`'s result), in about one of eight cases (by `x`)
struct NoStdin {
  bool on;
  explicit NoStdin(u32 x);
  void back();
  ~NoStdin() { back(); }
};

std::set<std::string> fds();
int threads();

int main(int argc, char** argv);

}  // namespace core
