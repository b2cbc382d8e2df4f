// Histories of changes to a tree, against what a watcher on it reports.
#include "core.hpp"
#include "ip.hpp"
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace core;
using namespace world;
using std::string;

namespace {

struct Profile {
  string name;
  std::vector<int> acts;          // weights, by repetition
  bool step = false;              // settle after every operation
  bool probe = false;             // look into every directory when settled
  bool times = false;             // judge the events' times only
  std::vector<string> need;       // one of these has to have happened
  int max_ops = 30;
  string rule;
};

char const* const root_forms[] = {"absolute", "trailing slash", "dot", "dotdot", "symlink", "relative", "cwd", "double slash"};

Outcome run_fs(Profile const& pf, Case const& c, Info& info)
{
  ip::reset();
  Scratch scratch;
  World w{scratch.path};
  auto root = w.base + "/w";
  for (auto d : {"/w", "/wx", "/o", "/o/p", "/o/p/q"})
    if (mkdir((w.base + d).c_str(), 0755) != 0) return Outcome::bad("harness: mkdir");
  w.add(w.base + "/o/p", {'d', 0, 0});
  w.add(w.base + "/o/p/q", {'d', 0, 0});
  for (auto f : {"/o/p/q/f", "/o/f"}) {
    ::close(::open((w.base + f).c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644));
    w.add(w.base + f, {'f', 0, 0});
  }
  w.roots = {root};
  w.pick_names(c.cfg[0]);
  w.flush = [] { return Outcome{}; };
  bool bursts = ! pf.step && c.cfg[2] % 4 != 0;
  bool gated = bursts && c.cfg[2] % 4 >= 2;
  w.may_split = ! gated;
  w.chaos = bursts && pf.probe && c.cfg[7] % 3 == 0;
  if (gated && c.cfg[7] / 3 % 2) {
    std::vector<unsigned> by;
    for (u32 i = 0; i < 1 + c.cfg[7] / 6 % 4; ++i) by.push_back((c.cfg[7] / 24 >> (4 * i)) % 16);
    ip::interleave(by);
  }

  // What's there before the watcher is
  size_t pre = c.ops.size() * (c.cfg[1] % 4) / 8;
  Outcome r;
  bool did;
  for (size_t i = 0; i < pre; ++i)
    if (r = w.act(pf.acts[c.ops[i][0] % pf.acts.size()], c.ops[i], root, did); ! r.ok) return r;
  w.mutations = 0;
  w.did.clear();
  w.say("-- watch");

  // However the path is spelled
  u32 form = c.cfg[3] % 16;
  string path = root;
  string back;
  if (form >= 8) form = 0;
  switch (form) {
    case 1: path = root + "/"; break;
    case 2: path = root + "/."; break;
    case 3: path = root + "/../w"; break;
    case 4: path = w.base + "/lnk"; (void)! symlink("w", path.c_str()); break;
    case 5: path = "w"; (void)! chdir(w.base.c_str()); back = "/"; break;
    case 6: path = "."; (void)! chdir(root.c_str()); back = "/"; break;
    case 7: path = w.base + "//w"; break;
    default: break;
  }
  if (c.cfg[4] % 3 == 0) {
    std::vector<unsigned> segs;
    for (u32 i = 0; i < 1 + c.cfg[4] / 3 % 5; ++i) segs.push_back(272 + (c.cfg[5] * (i + 1) * 37) % 3900);
    ip::segment(segs);
    ++info.counts["segmented reads"];
  }

  auto rec = std::make_shared<Recorder>();
  core::NoStdin no_stdin{c.cfg[6]};
  if (no_stdin.on) ++info.counts["without a standard input"];
  auto t = core::open(path, rec);
  auto finish = [&](Outcome o) {
    rec->release();
    core::close(*t);
    core::destroy(t);
    no_stdin.back();
    if (! back.empty()) (void)! chdir("/");
    return o;
  };
  if (! sync(*rec, root)) return finish(Outcome::bad("the watcher isn't reporting anything (root: " + string(root_forms[form]) + ")"));
  w.live = true;

  size_t from = rec->size();
  long long began = wall_ns();
  long flushes = 0, probes = 0, most = 0;
  static int gate_n = 0;
  auto hold = [&]() -> bool {
    if (! gated) return true;
    auto name = "/" + string(sync_prefix) + "hold-" + std::to_string(++gate_n);
    {
      std::lock_guard g{rec->m};
      rec->hold_at = name;
    }
    auto p = root + name;
    ::close(::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600));
    bool ok;
    {
      std::unique_lock g{rec->m};
      ok = rec->cv.wait_for(g, std::chrono::duration<double>(patience()), [&] { return rec->holding; });
    }
    unlink(p.c_str());
    return ok;
  };
  auto settle = [&]() -> Outcome {
    rec->release();
    auto want = view(w.raws, root, ! gated);
    // In every directory: is it watched, and by the right name?
    std::vector<string> made;
    auto flushed = [&](std::vector<Exp> const& want, char const* what, bool strict = true) -> Outcome {
      // (Something's reported without anything else having to happen.)
      auto all = [&](std::vector<sut::Ev> const& evs) { return match(want, relevant({evs.begin() + (long)std::min(from, evs.size()), evs.end()})).ok; };
      bool prompt = ! strict || pf.times || rec->wait(shrinking() ? 1 : 4, all);
      if (! sync(*rec, root)) return Outcome::bad(string(what) + ": the watcher stopped reporting");
      std::vector<sut::Ev> got;
      std::vector<long long> at;
      {
        std::lock_guard g{rec->m};
        got.assign(rec->evs.begin() + (long)from, rec->evs.end());
        at.assign(rec->at.begin() + (long)from, rec->at.end());
        from = rec->evs.size();
      }
      if (pf.times) {
        long long prev = began;
        for (size_t i = 0; i < got.size(); ++i) {
          auto& e = got[i];
          if (core::is_sync(e)) continue;
          auto bad = [&](char const* why, long long x) {
            return Outcome::bad(string("effect_time ") + std::to_string(x) + " of " + core::show(e) + " is " + why
              + " (operations began at " + std::to_string(began) + ", delivered at " + std::to_string(at[i]) + ")");
          };
          if (e.t < began) return bad("before its cause", e.t);
          if (e.t > at[i]) return bad("after its delivery", e.t);
          if (e.t < prev) return bad("before the previous event's", e.t);
          if (e.assoc && (e.at < began || e.at > at[i])) return bad("off, for its associated event", e.at);
          prev = e.t;
        }
        began = wall_ns();
        return {};
      }
      most = std::max(most, (long)got.size());
      if (! strict) return {};
      auto r = match(want, relevant(got));
      if (r.ok && ! prompt) return Outcome::bad(string(what) + ": reported only when something else happened");
      if (! r.ok) r.msg = string(what) + ": " + r.msg;
      return r;
    };
    auto r = flushed(want, "changes", ! w.chaos);
    if (! r.ok) return r;
    if (pf.probe || (bursts && ! pf.times)) {
      auto dirs = w.all('d', root);
      std::vector<Exp> seen;
      std::vector<string> made;
      static int n = 0;
      for (auto& d : dirs) {
        auto p = d + "/probe" + std::to_string(++n);
        if (d.size() > 3900) continue;
        int fd = ::open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0600);
        if (fd < 0) return Outcome::bad("harness: probe " + core::show(p) + ": " + strerror(errno));
        ::close(fd);
        unlink(p.c_str());
        Exp x;
        x.path = p;
        x.et = sut::create;
        seen.push_back(x);
        x.et = sut::destroy;
        seen.push_back(x);
        ++probes;
      }
      r = flushed(seen, "looking into every directory");
      if (! r.ok) return r;
    }
    w.reset_burst();
    ++flushes;
    return {};
  };
  w.flush = [&]() -> Outcome {
    auto r = settle();
    if (r.ok && ! hold()) return Outcome::bad("the watcher stopped reporting (hold)");
    return r;
  };
  auto fail = [&](Outcome o) {
    string s;
    size_t n = w.log.size();
    for (size_t i = n > 200 ? n - 200 : 0; i < n; ++i) s += "\n    " + core::show(w.log[i]);
    info.describe = s;
    o.msg += "\n  history (root as: " + string(root_forms[form]) + (gated ? ", gated bursts" : bursts ? ", bursts" : ", step by step") + "):" + s;
    return finish(o);
  };

  if (! hold()) return fail(Outcome::bad("the watcher stopped reporting (hold)"));
  long ops = 0;
  for (size_t i = pre; i < c.ops.size(); ++i) {
    auto& o = c.ops[i];
    int a = pf.acts[o[0] % pf.acts.size()];
    if (a == a_flush) {
      r = w.flush();
      if (! r.ok) return fail(r);
      continue;
    }
    r = w.act(a, o, root, did);
    if (! r.ok) return fail(r);
    ops += did;
    if (did && ! bursts) {
      r = settle();
      if (! r.ok) return fail(r);
    }
  }
  r = settle();
  if (! r.ok) return fail(r);

  long needed = pf.need.empty() ? 1 : 0;
  for (auto& k : pf.need) if (w.did.count(k)) needed += w.did[k];
  info.nontrivial = ops >= 3 && needed > 0;
  for (auto& [k, v] : w.did) info.counts[k] += v;
  info.counts["mutations"] += w.mutations;
  info.counts["flushes"] += flushes;
  info.counts["probed directories"] += probes;
  ++info.counts[string("cases: ") + (gated ? "gated bursts" : bursts ? "free bursts" : "step by step")];
  if (w.chaos) ++info.counts["cases: directories change again, unread"];
  info.counts["renames with others' events between their parts"] += ip::interleaved();
  ++info.counts[string("root as: ") + root_forms[form]];
  string s = string(root_forms[form]) + (gated ? ", gated" : bursts ? ", bursts" : ", steps") + ":";
  for (size_t i = 0; i < w.log.size() && i < 25; ++i) s += " [" + core::show(w.log[i]) + "]";
  info.describe = s;
  return finish({});
}

std::vector<int> mix(std::initializer_list<std::pair<int, int>> l)
{
  std::vector<int> v;
  for (auto [a, n] : l) for (int i = 0; i < n; ++i) v.push_back(a);
  return v;
}

void spec(Profile pf)
{
  Spec s;
  s.name = pf.name;
  s.max_ops = pf.max_ops;
  s.op_kinds = (u32)pf.acts.size();
  s.rule = pf.rule;
  s.run = [pf](Case const& c, Info& i) { return run_fs(pf, c, i); };
  add(s);
}

}  // namespace

int main(int argc, char** argv)
{
  spec({"exact",
    mix({{a_create, 4}, {a_create_write, 3}, {a_write, 4}, {a_truncate, 2}, {a_unlink, 3}, {a_mkdir, 3},
         {a_rmdir, 2}, {a_rm_r, 1}, {a_rename_file, 2}, {a_rename_dir, 1}, {a_move_out, 1}, {a_move_in, 1},
         {a_link, 1}, {a_symlink, 1}, {a_fifo, 1}, {a_noise, 1}, {a_outside, 2}, {a_flush, 1}}),
    false, false, false, {"create", "create+write", "write", "unlink", "mkdir"}, 56,
    "random histories (files, directories, links, renames, moves across the boundary), applied for real, compared "
    "event by event with a model; non-trivial: at least 3 operations, and one which creates, writes or removes"});
  spec({"newdirs",
    mix({{a_mkdir, 3}, {a_mkdirs, 5}, {a_movein_tree, 4}, {a_create, 2}, {a_write, 1}, {a_rename_dir, 2},
         {a_rm_r, 1}, {a_flush, 2}, {a_moveout_dir, 1}, {a_rmdir, 1}, {a_symlink, 1}}),
    false, true, false, {"mkdir", "mkdirs", "move-in-dir"}, 32,
    "histories which make directories appear (created, nested, moved in with content); once settled, a file is "
    "created and removed in every directory of the tree, which has to be reported exactly; non-trivial: a directory appeared"});
  spec({"renames",
    mix({{a_create, 3}, {a_mkdir, 3}, {a_rename_file, 6}, {a_rename_dir, 4}, {a_rename_over, 3}, {a_exchange, 3}, {a_renames, 1},
         {a_move_out, 2}, {a_move_in, 2}, {a_moveout_dir, 1}, {a_movein_tree, 1}, {a_link, 1}, {a_symlink, 1}, {a_write, 1}, {a_flush, 1}}),
    false, false, false, {"rename-file", "rename-dir", "rename-over", "exchange", "move-out-file", "move-in-file"}, 56,
    "histories heavy on renames (within and across directories, replacing, exchanging, in and out of the tree), "
    "compared event by event with a model; non-trivial: at least one rename or move"});
  spec({"truthful",
    mix({{a_create, 3}, {a_write, 2}, {a_mkdir, 3}, {a_mkdirs, 2}, {a_rename_dir, 6}, {a_moveout_dir, 2}, {a_movein_tree, 2},
         {a_rm_r, 2}, {a_swap_names, 2}, {a_reuse, 4}, {a_rename_over, 1}, {a_exchange, 2}, {a_outside, 3}, {a_unlink, 1}, {a_rename_file, 1}}),
    false, true, false, {"rename-dir", "move-out-dir", "swap-names", "reuse", "rm-r"}, 44,
    "histories in which directories are renamed, moved out and back, removed, and their names reused; every directory "
    "is looked into when settled; non-trivial: a directory changed its name or lost it"});
  spec({"noise",
    mix({{a_noise, 24}, {a_outside, 5}, {a_create, 4}, {a_mkdir, 4}, {a_write, 2}, {a_symlink, 2}, {a_link, 2}, {a_rename_dir, 1}, {a_rename_file, 1},
         {a_rmdir, 1}, {a_rm_r, 1}, {a_unlink, 1}, {a_moveout_dir, 1}, {a_movein_tree, 1}, {a_move_out, 1}, {a_rename_over, 1}, {a_exchange, 1}}),
    true, false, false, {"noise"}, 50,
    "histories of reads and metadata changes (and changes elsewhere) between real ones, settled after each: only the "
    "real ones are reported; non-trivial: at least one read or metadata change"});
  spec({"times",
    mix({{a_create, 4}, {a_write, 4}, {a_unlink, 3}, {a_mkdir, 3}, {a_rename_file, 3}, {a_rename_dir, 2}, {a_movein_tree, 1}, {a_move_out, 1}}),
    false, false, true, {}, 40,
    "random histories; each event's time is between the start of the operations it may be caused by and its delivery, "
    "and they don't go backwards; non-trivial: at least 3 operations"});
  return core::main(argc, argv);
}
