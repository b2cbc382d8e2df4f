// A stand-in for the C library, which delivers what it's told to, and writes down
// how it's used. Commands are read from $WVERIF_FAKE_IN, and the log goes to
// $WVERIF_FAKE_OUT (both are descriptors).
#include "wtr/watcher-c.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

namespace {

using std::string;

struct Item {
  enum { event, pause, end } kind = event;
  long us = 0;
  int64_t t = 0;
  int et = 0, pt = 0;
  string path, assoc;
  bool has_assoc = false;
};

struct Fake {
  void* token = nullptr;
  bool open_ok = true, close_ok = true;
  long early = 0;       // open returns once so many events were delivered
  std::vector<Item> last;  // when it's closed
  wtr_watcher_callback cb = nullptr;
  void* ctx = nullptr;
  std::mutex m;
  std::condition_variable cv;
  std::deque<Item> todo;
  long done = 0;
  bool closing = false;
  std::thread th;
};

struct State {
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::shared_ptr<Fake>> plans;
  std::map<void*, std::shared_ptr<Fake>> all;   // planned, open or closed
  int out = -1;
};
State& st()
{
  static auto& s = *new State;
  return s;
}

string unhex(string const& h)
{
  string s;
  if (h == "-") return s;
  for (size_t i = 1; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return s;
}
string hex(char const* p)
{
  string s = "x";
  char b[4];
  for (; p && *p; ++p) snprintf(b, sizeof b, "%02x", (unsigned char)*p), s += b;
  return s;
}
void log(string const& s)
{
  auto l = s + "\n";
  (void)! ::write(st().out, l.data(), l.size());
}

void deliver(Fake& f, Item const& i)
{
  // What it points to is gone once the callback returns
  auto copy = [](string const& s) {
    auto p = (char*)malloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
  };
  auto p = copy(i.path), a = i.has_assoc ? copy(i.assoc) : nullptr;
  auto e = wtr_watcher_event{};
  e.effect_time = i.t, e.path_name = p, e.associated_path_name = a, e.effect_type = (int8_t)i.et, e.path_type = (int8_t)i.pt;
  f.cb(e, f.ctx);
  memset(p, '#', i.path.size());
  if (a) memset(a, '#', i.assoc.size());
  free(p), free(a);
}

void run(std::shared_ptr<Fake> f)
{
  for (;;) {
    Item i;
    {
      std::unique_lock g{f->m};
      f->cv.wait(g, [&] { return ! f->todo.empty() || f->closing; });
      if (f->todo.empty()) break;
      i = std::move(f->todo.front());
      f->todo.pop_front();
    }
    if (i.kind == Item::pause) usleep((useconds_t)i.us);
    else {
      deliver(*f, i);
      std::lock_guard g{f->m};
      ++f->done;
      f->cv.notify_all();
    }
  }
  for (auto& i : f->last) deliver(*f, i);
}

std::shared_ptr<Fake> find(unsigned long long t)
{
  std::lock_guard g{st().m};
  auto it = st().all.find((void*)t);
  return it == st().all.end() ? nullptr : it->second;
}

void command(string const& line)
{
  std::istringstream in{line};
  string what;
  unsigned long long token = 0;
  in >> what >> token;
  if (what == "sync") {
    log("sync " + std::to_string(token));
    return;
  }
  if (what == "plan") {
    auto f = std::make_shared<Fake>();
    f->token = (void*)token;
    in >> f->open_ok >> f->close_ok >> f->early;
    std::lock_guard g{st().m};
    // (Those which are never closed stay.)
    static auto& kept = *new std::vector<std::shared_ptr<Fake>>;
    kept.push_back(f);
    st().all[f->token] = f;
    st().plans.push_back(f);
    st().cv.notify_all();
    return;
  }
  auto f = find(token);
  if (! f) return;
  if (what == "ev" || what == "last" || what == "rep") {
    long n = 1;
    if (what == "rep") in >> n;
    Item i;
    string p, a;
    in >> i.t >> i.et >> i.pt >> p >> a;
    i.path = unhex(p), i.assoc = unhex(a), i.has_assoc = a != "-";
    std::lock_guard g{f->m};
    for (long k = 0; k < n; ++k) {
      auto j = i;
      if (what == "rep") {
        j.t += k, j.path += std::to_string(k);
        if (j.has_assoc) j.assoc += std::to_string(k);
      }
      if (what == "last") f->last.push_back(j);
      else f->todo.push_back(std::move(j));
    }
    f->cv.notify_all();
  }
  else if (what == "pause") {
    Item i;
    i.kind = Item::pause;
    in >> i.us;
    std::lock_guard g{f->m};
    f->todo.push_back(i);
    f->cv.notify_all();
  }
}

struct Start {
  Start()
  {
    auto in = getenv("WVERIF_FAKE_IN"), out = getenv("WVERIF_FAKE_OUT");
    if (! in || ! out) return;
    st().out = atoi(out);
    int fd = atoi(in);
    std::thread([fd] {
      string buf;
      char b[65536];
      for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0;) {
        buf.append(b, (size_t)n);
        size_t at = 0, nl;
        while ((nl = buf.find('\n', at)) != string::npos) command(buf.substr(at, nl - at)), at = nl + 1;
        buf.erase(0, at);
      }
    }).detach();
  }
};

}  // namespace

extern "C" void* wtr_watcher_open(char const* const path, wtr_watcher_callback callback, void* context)
{
  static Start start;
  std::shared_ptr<Fake> f;
  {
    std::unique_lock g{st().m};
    if (! st().cv.wait_for(g, std::chrono::seconds(20), [] { return ! st().plans.empty(); })) {
      log("unplanned " + hex(path));
      return nullptr;
    }
    f = st().plans.front();
    st().plans.pop_front();
  }
  char b[64];
  snprintf(b, sizeof b, "open %llu ", (unsigned long long)f->token);
  log(b + hex(path));
  if (! f->open_ok) return nullptr;
  f->cb = callback, f->ctx = context;
  f->th = std::thread(run, f);
  if (f->early) {
    std::unique_lock g{f->m};
    f->cv.wait_for(g, std::chrono::seconds(5), [&] { return f->done >= f->early; });
  }
  return f->token;
}

extern "C" bool wtr_watcher_close(void* watcher)
{
  auto f = find((unsigned long long)watcher);
  char b[64];
  bool ok = false, mine = false;
  if (f && f->open_ok) {
    std::lock_guard g{f->m};
    mine = ! f->closing;
    f->closing = true;
    f->cv.notify_all();
  }
  if (mine) {
    if (f->th.joinable()) f->th.join();
    ok = f->close_ok;
  }
  snprintf(b, sizeof b, "close %llu %s", (unsigned long long)watcher, mine ? "once" : "again");
  log(b);
  return ok;
}
