// Several watchers at once: each reports its own tree, whatever happens to the others.
#include "core.hpp"
#include "ip.hpp"
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace core;
using namespace world;
using std::string;

namespace {

struct Slot {
  Rec rec;
  std::unique_ptr<sut::Watcher> w;
  string root;
  size_t raw_from = 0, ev_from = 0;
  bool held = false;
};

Outcome run_multi(Case const& c, Info& info)
{
  ip::reset();
  Scratch scratch;
  World w{scratch.path};
  auto z = w.base + "/z";
  mkdir(z.c_str(), 0755), mkdir((w.base + "/o").c_str(), 0755), mkdir((w.base + "/wx").c_str(), 0755);
  static char const* const roots[] = {"/z/a", "/z/a/in", "/z/a/in/deep", "/z/ab", "/z/b", "/z"};
  for (auto r : {"/z/a", "/z/a/in", "/z/a/in/deep", "/z/ab", "/z/b"}) {
    mkdir((w.base + r).c_str(), 0755);
    w.add(w.base + r, {'d', 0, 0});
  }
  for (auto r : roots) w.roots.push_back(w.base + r);
  w.pick_names(c.cfg[0]);
  bool const steps = c.cfg[2] % 3 == 0;
  w.may_split = ! steps;
  w.live = true;
  static int const acts[] = {a_create, a_create, a_write, a_unlink, a_mkdir, a_mkdirs, a_rename_file, a_rename_file, a_rename_dir, a_rm_r,
    a_create_write, a_link, a_rename_over, a_movein_tree, a_moveout_dir, a_exchange};
  constexpr u32 n_acts = sizeof acts / sizeof *acts;

  std::vector<Slot> slots(2 + c.cfg[1] % 4);
  long opened = 0, compared = 0, same_root = 0, holds = 0, no_fan = 0;
  static int hold_n = 0;

  auto open_slot = [&](Slot& s, u32 which) -> Outcome {
    s.root = w.base + roots[which % 6];
    for (auto& o : slots) if (&o != &s && o.w && o.root == s.root) ++same_root;
    s.rec = std::make_shared<Recorder>();
    if (ip::sim()) {
      // For some of them, fanotify doesn't work
      bool const without = c.cfg[5] >> opened % 16 & 1;
      ip::plan({});
      if (without) {
        ip::Fault f;
        f.fn = opened % 2 ? ip::f_name_to_handle : ip::f_fanotify_init;   // (Nothing which the others use.)
        f.nth = ip::calls(f.fn) + 1;
        f.err = EPERM;
        ip::plan({f});
        ++no_fan;
      }
    }
    s.w = core::open(s.root, s.rec);
    w.say("-- watch " + w.rel(s.root));
    if (! sync(*s.rec, s.root)) return Outcome::bad("a watcher isn't reporting anything (on " + w.rel(s.root) + ")");
    s.raw_from = w.raws.size();
    s.ev_from = s.rec->size();
    s.held = false;
    ++opened;
    return {};
  };
  auto shut = [&](Slot& s, bool by_close) -> Outcome {
    s.rec->release();
    s.held = false;
    w.say(string("-- ") + (by_close ? "close " : "destroy ") + w.rel(s.root));
    bool ok = ! by_close || core::close(*s.w);
    core::destroy(s.w);
    if (! ok) return Outcome::bad("close() is false for a watcher on " + w.rel(s.root) + " (others exist)");
    return {};
  };
  auto settle = [&](bool all) -> Outcome {
    for (auto& s : slots) {
      if (! s.w || (s.held && ! all)) continue;
      if (s.held) s.rec->release(), s.held = false;
      if (! sync(*s.rec, s.root)) return Outcome::bad("the watcher on " + w.rel(s.root) + " stopped reporting");
      auto want = view({w.raws.begin() + (long)s.raw_from, w.raws.end()}, s.root, w.may_split);
      auto r = match(want, relevant(s.rec->since(s.ev_from)));
      if (! r.ok) return r.msg = "the watcher on " + w.rel(s.root) + ": " + r.msg, r;
      s.raw_from = w.raws.size();
      s.ev_from = s.rec->size();
      compared += ! want.empty();
    }
    if (all) {
      w.reset_burst();
      for (auto& s : slots) s.raw_from = 0;
    }
    return {};
  };
  w.flush = [&] { return settle(true); };

  Outcome r;
  auto finish = [&](Outcome o) {
    for (auto& s : slots)
      if (s.w) {
        auto x = shut(s, true);
        if (o.ok && ! x.ok) o = x;
        if (o.ok && s.rec->late) o = Outcome::bad("events after the end");
      }
    string h;
    size_t n = w.log.size();
    for (size_t i = n > 40 ? n - 40 : 0; i < n; ++i) h += "\n    " + core::show(w.log[i]);
    if (! o.ok) o.msg += "\n  history:" + h;
    for (size_t i = 0; i < n && i < 25; ++i) info.describe += " [" + core::show(w.log[i]) + "]";
    return o;
  };
  for (size_t i = 0; i < slots.size(); ++i)
    if (c.cfg[3] >> i & 1 || i < 2)
      if (r = open_slot(slots[i], c.cfg[4] / (1 + (u32)i * 5)); ! r.ok) return finish(r);
  long ops = 0;
  for (auto& o : c.ops) {
    u32 k = o[0] % (n_acts + 7);
    bool did = false;
    if (k < n_acts) {
      r = w.act(acts[k], o, z, did);
      ops += did;
      if (r.ok && did && steps) r = settle(true);
    }
    else {
      auto& s = slots[o[1] % slots.size()];
      switch (k - n_acts) {
        case 0: r = settle(true); break;
        case 1: r = settle(false); break;
        case 2: case 3:
          if (s.w) r = shut(s, o[2] % 2);
          else r = open_slot(s, o[2]);
          break;
        case 4:
          if (! s.w) r = open_slot(s, o[2]);
          break;
        default:
          if (s.w && ! s.held && ! steps) {
            auto name = "/" + string(sync_prefix) + "hold-" + std::to_string(++hold_n);
            {
              std::lock_guard g{s.rec->m};
              s.rec->hold_at = name;
            }
            auto p = s.root + name;
            ::close(::open(p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600));
            {
              std::unique_lock g{s.rec->m};
              s.held = s.rec->cv.wait_for(g, std::chrono::duration<double>(patience()), [&] { return s.rec->holding; });
            }
            unlink(p.c_str());
            if (! s.held) r = Outcome::bad("the watcher on " + w.rel(s.root) + " stopped reporting (hold)");
            w.say("-- its callback blocks: " + w.rel(s.root));
            ++holds;
          }
          break;
      }
    }
    if (! r.ok) return finish(r);
  }
  r = settle(true);
  info.counts["watchers"] += opened;
  info.counts["on the same directory as another"] += same_root;
  info.counts["comparisons"] += compared;
  info.counts["blocked callbacks"] += holds;
  if (ip::sim()) info.counts["fanotify"] += opened - no_fan, info.counts["inotify, where others are fanotify"] += no_fan;
  info.nontrivial = ops >= 2 && compared >= 2;
  return finish(r);
}

}  // namespace

int main(int argc, char** argv)
{
  add({"multi", run_multi, 64, 23,
    "random histories with two to five watchers on nested, equal, and sibling directories, which come and go, and whose callbacks "
    "may block; each is compared with its own view of the model; non-trivial: at least two operations, and two comparisons with something in them", 60});
  return core::main(argc, argv);
}
