#include "core.hpp"
#include "ip.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <ftw.h>
#include <rapidcheck.h>
#include <signal.h>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

namespace core {

using std::string;

static std::vector<Spec>& specs() { static std::vector<Spec> s; return s; }
void add(Spec s) { specs().push_back(std::move(s)); }

double now_s()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
long long wall_ns()
{
  return std::chrono::duration_cast<std::chrono::nanoseconds>(
           std::chrono::system_clock::now().time_since_epoch()).count();
}

string str(Case const& c)
{
  string s = "cfg";
  for (auto x : c.cfg) s += " " + std::to_string(x);
  s += "\n";
  for (auto& o : c.ops) {
    s += "op";
    for (auto x : o) s += " " + std::to_string(x);
    s += "\n";
  }
  return s;
}

bool parse(string const& text, Case& c)
{
  std::istringstream in{text};
  string line;
  c = {};
  while (std::getline(in, line)) {
    std::istringstream l{line};
    string k;
    l >> k;
    if (k == "cfg") for (auto& x : c.cfg) l >> x;
    if (k == "op") { Op o{}; for (auto& x : o) l >> x; c.ops.push_back(o); }
  }
  return true;
}

string show(string const& b)
{
  string s;
  for (unsigned char c : b)
    if (c >= 0x20 && c < 0x7f && c != '\\') s += (char)c;
    else { char t[8]; snprintf(t, sizeof t, "\\x%02x", c); s += t; }
  return s.size() > 200 ? s.substr(0, 90) + "..." + s.substr(s.size() - 90) : s;
}

string show(sut::Ev const& e)
{
  static char const* const et[] = {"rename", "modify", "create", "destroy", "owner", "other"};
  static char const* const pt[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
  auto n = [](auto& a, int i) -> string { return i >= 0 && i < 6 ? a[i] : "?"; };
  return n(et, e.et) + " " + n(pt, e.pt) + " " + show(e.path)
       + (e.assoc ? " -> " + n(et, e.aet) + " " + n(pt, e.apt) + " " + show(e.apath) : "");
}

// ---- scratch ----

static int rm_one(char const* p, struct stat const*, int, struct FTW*)
{ return remove(p), 0; }

void rm_rf(string const& under, string const& path)
{
  // Only ever below a directory which a Scratch made
  if (under.size() < 12 || under.find("/wverif-") == string::npos) abort();
  if (path != under && path.compare(0, under.size() + 1, under + "/") != 0) abort();
  nftw(path.c_str(), rm_one, 32, FTW_DEPTH | FTW_PHYS);
}

Scratch::Scratch()
{
  static bool const shm = access("/dev/shm", W_OK) == 0 && ! getenv("WVERIF_TMP");
  auto run = getenv("WVERIF_RUN");
  auto t = string(shm ? "/dev/shm" : "/tmp") + "/wverif-" + (run ? run : "x") + "-XXXXXX";
  char* d = mkdtemp(t.data());
  if (! d) { perror("mkdtemp"); exit(3); }
  path = d;
}
Scratch::~Scratch() { rm_rf(path, path); }

// ---- state of a run ----

static std::atomic<double> first_fail{0};
static string inflight_path;
static std::atomic<double> case_began{0};
static std::atomic<double> hang_limit{40};
bool shrinking() { return first_fail > 0; }
double patience() { return shrinking() ? 4 : 12; }

// ---- recorder ----

void Recorder::operator()(sut::Ev const& e)
{
  ip::Own own;
  if (inside.fetch_add(1) > 0) ++overlaps;
  {
    std::unique_lock g{m};
    evs.push_back(e);
    at.push_back(wall_ns());
    if (done) ++late;
    if (! hold_at.empty() && e.path.size() >= hold_at.size()
        && e.path.compare(e.path.size() - hold_at.size(), hold_at.size(), hold_at) == 0)
      hold = true, hold_at.clear();
    if (hold) {
      holding = true;
      cv.notify_all();
      cv.wait_for(g, std::chrono::seconds(30), [&] { return ! hold; });
      holding = false;
    }
    cv.notify_all();
  }
  if (also) also(e);
  inside.fetch_sub(1);
}

void Recorder::release()
{
  std::lock_guard g{m};
  hold = false;
  hold_at.clear();
  cv.notify_all();
}

bool Recorder::wait(double s, std::function<bool(std::vector<sut::Ev> const&)> const& f)
{
  std::unique_lock g{m};
  return cv.wait_for(g, std::chrono::duration<double>(s), [&] { return f(evs); });
}

bool is_sync(sut::Ev const& e) { return e.path.find(sync_prefix) != string::npos; }

bool sync(Recorder& r, string const& dir, double s)
{
  static int n = 0;
  if (s <= 0) s = patience();
  auto end = now_s() + s;
  size_t from = r.size();
  double step = 0.02;
  std::vector<string> made;
  bool seen = false;
  while (! seen && now_s() < end) {
    auto name = "/" + string(sync_prefix) + std::to_string(++n);
    auto p = dir + name;
    int fd = ::open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0600);
    if (fd < 0) break;
    ::close(fd);
    made.push_back(p);
    auto has = [&](std::vector<sut::Ev> const& evs)
    {
      for (size_t i = std::min(from, evs.size()); i < evs.size(); ++i)
        if (evs[i].et == sut::create && is_sync(evs[i])
            && std::any_of(made.begin(), made.end(), [&](auto& q) { return evs[i].path == q; }))
          return true;
      return false;
    };
    seen = r.wait(std::min(step, end - now_s()), has);
    step = std::min(step * 4, 2.0);
  }
  // The last one made is the one to have been seen, if several were
  if (seen && made.size() > 1) {
    auto last = made.back();
    r.wait(s, [&](auto& evs) {
      for (size_t i = std::min(from, evs.size()); i < evs.size(); ++i)
        if (evs[i].et == sut::create && evs[i].path == last) return true;
      return false;
    });
  }
  for (auto& p : made) unlink(p.c_str());
  return seen;
}

std::unique_ptr<sut::Watcher> open(string const& path, Rec r)
{
  ip::Theirs t;
  return sut::open(path, cb_of(std::move(r)));
}
bool close(sut::Watcher& w)
{
  ip::Theirs t;
  return w.close();
}
void destroy(std::unique_ptr<sut::Watcher>& w)
{
  ip::Theirs t;
  w.reset();
}

NoStdin::NoStdin(u32 x)
    : on{x % 8 == 3}
{
  static int const fns[] = {-1, ip::f_inotify_init, ip::f_epoll_create, ip::f_open_by_handle_at};
  if (on) ip::low_fn = fns[x / 8 % 4], ::close(0);
}
void NoStdin::back()
{
  if (! on) return;
  on = false;
  ip::low_fn = -1;
  int fd = ::open("/dev/null", O_RDONLY);
  if (fd > 0) ::close(fd);
}

std::set<string> fds()
{
  std::set<string> s;
  DIR* d = opendir("/proc/self/fd");
  if (! d) return s;
  int own = dirfd(d);
  while (auto* e = readdir(d)) {
    if (e->d_name[0] == '.' || atoi(e->d_name) == own || (ip::sim() && atoi(e->d_name) >= 700)) continue;
    char b[256];
    auto n = readlink((string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
    s.insert(string(e->d_name) + ":" + b);
  }
  closedir(d);
  return s;
}

int threads()
{
  int n = 0;
  DIR* d = opendir("/proc/self/task");
  if (! d) return -1;
  while (auto* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}

// ---- running ----

static string jesc(string const& s)
{
  string o = "\"";
  for (unsigned char c : s)
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else if (c >= 0x7f) o += '?';
    else o += (char)c;
  return o + "\"";
}

static void write_file(string const& p, string const& s)
{
  std::ofstream f{p, std::ios::binary | std::ios::trunc};
  f << s;
}

static void watchdog()
{
  std::thread([] {
    ip::Own own;
    for (;;) {
      std::this_thread::sleep_for(std::chrono::milliseconds(200));
      double b = case_began;
      if (b > 0 && now_s() - b > hang_limit) {
        fprintf(stderr, "HANG: a case took more than %.0f s\n", (double)hang_limit);
        fflush(stderr);
        _exit(97);
      }
    }
  }).detach();
}

static Outcome run_case(Spec const& sp, Case const& c, Info& info)
{
  if (! inflight_path.empty()) write_file(inflight_path, "prop " + sp.name + "\n" + str(c));
  case_began = now_s();
  auto r = sp.run(c, info);
  case_began = 0;
  return r;
}

int main(int argc, char** argv)
{
  ip::own = 1;
  signal(SIGPIPE, SIG_IGN);
  std::map<string, string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto get = [&](char const* k, string d) { auto i = a.find(k); return i == a.end() ? d : i->second; };

  auto find = [&](string const& n) -> Spec const* {
    for (auto& s : specs()) if (s.name == n) return &s;
    return nullptr;
  };

  if (a.count("--replay")) {
    std::ifstream f{a["--replay"], std::ios::binary};
    std::stringstream ss;
    ss << f.rdbuf();
    string text = ss.str(), name = get("--prop", "");
    if (text.compare(0, 5, "prop ") == 0) {
      auto nl = text.find('\n');
      if (name.empty()) name = text.substr(5, nl - 5);
    }
    auto sp = find(name);
    if (! sp) { fprintf(stderr, "no such property: %s\n", name.c_str()); return 3; }
    Case c;
    parse(text, c);
    Info info;
    hang_limit = atof(get("--hang", std::to_string(sp->hang_s)).c_str());
    watchdog();
    auto r = run_case(*sp, c, info);
    printf("%s\n%s\n", info.describe.c_str(), r.ok ? "HELD" : ("FAILED: " + r.msg).c_str());
    fflush(stdout);
    return r.ok ? 0 : 1;
  }

  auto sp = find(get("--prop", ""));
  if (! sp) { fprintf(stderr, "usage: --prop <name> ...\n"); return 3; }
  long cases = atol(get("--cases", "100").c_str());
  double secs = atof(get("--secs", "1e9").c_str());
  double shrink_s = atof(get("--shrink", "40").c_str());
  inflight_path = get("--inflight", "");
  auto out = get("--out", "");
  setenv("RC_PARAMS",
    ("seed=" + get("--seed", "1") + " max_success=" + std::to_string(cases)
     + " max_size=" + std::to_string(sp->max_ops)).c_str(), 1);
  hang_limit = sp->hang_s;
  watchdog();

  long evals = 0;
  std::set<size_t> distinct;
  std::map<string, long> counts;
  std::vector<string> samples;
  Case last;
  string last_msg, last_desc;
  bool failed = false;
  double began = now_s();

  auto word = rc::gen::resize(100, rc::gen::inRange<u32>(0, 1u << 16));
  auto op = rc::gen::apply(
    [](u32 k, u32 x, u32 y, u32 z, u32 w) { return Op{k, x, y, z, w}; },
    rc::gen::resize(100, rc::gen::inRange<u32>(0, sp->op_kinds)), word, word, word, word);
  auto cfg = rc::gen::container<std::array<u32, 8>>(word);

  auto finish = [&] {
    string j = "{\"prop\":" + jesc(sp->name) + ",\"flavor\":" + jesc(sut::flavor())
      + ",\"evaluations\":" + std::to_string(evals) 
      + ",\"distinct_nontrivial\":" + std::to_string(distinct.size())
      + ",\"rule\":" + jesc(sp->rule) + ",\"wall_s\":" + std::to_string(now_s() - began)
      + ",\"failed\":" + (failed ? "true" : "false") + ",\"msg\":" + jesc(last_msg)
      + ",\"describe\":" + jesc(last_desc) + ",\"counts\":{";
    bool first = true;
    for (auto& [k, v] : counts) j += (first ? "" : ",") + jesc(k) + ":" + std::to_string(v), first = false;
    j += "},\"hashes\":[";
    first = true;
    for (auto h : distinct) j += (first ? "" : ",") + std::to_string(h), first = false;
    j += "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) j += (i ? "," : "") + jesc(samples[i]);
    j += "]}\n";
    if (! out.empty()) write_file(out, j);
    else fputs(j.c_str(), stdout);
    if (failed && a.count("--fail"))
      write_file(a["--fail"], "prop " + sp->name + "\n# " + show(last_msg) + "\n" + str(last));
  };

  rc::check(sp->name, [&] {
    auto c = Case{};
    c.cfg = *cfg;
    c.ops = *rc::gen::container<std::vector<Op>>(op);
    if (first_fail > 0 ? now_s() - first_fail > shrink_s : now_s() - began > secs) {
      // RapidCheck doesn't stop by itself
      finish();
      fflush(nullptr);
      _exit(failed ? 1 : 0);
    }
    Info info;
    auto r = run_case(*sp, c, info);
    if (! failed) {
      ++evals;
      for (auto& [k, v] : info.counts) counts[k] += v;
      if (info.nontrivial) {
        distinct.insert(std::hash<string>{}(str(c)));
        if (samples.size() < 3 || (samples.size() < 6 && distinct.size() % 50 == 0))
          samples.push_back(info.describe);
      }
    }
    if (! r.ok) {
      if (! failed) {
        first_fail = now_s();
        if (a.count("--fail"))
          write_file(a["--fail"] + ".first", "prop " + sp->name + "\n# " + show(r.msg) + "\n" + str(c));
      }
      failed = true;
      last = c;
      last_msg = r.msg;
      last_desc = info.describe;
      RC_FAIL(r.msg);
    }
  });

  finish();
  return failed ? 1 : 0;
}

}  // namespace core
