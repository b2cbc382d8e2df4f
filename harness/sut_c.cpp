// The C interface, linked from watcher-c/src/watcher-c.cpp.
#include "sut.hpp"
#include "wtr/watcher-c.h"

namespace sut {

bool with_text = false;

struct CWatcher : Watcher {
  Cb cb;
  void* w = nullptr;
  bool closed = false;

  static int et_of(int8_t t)
  {
    return t == WTR_WATCHER_EFFECT_RENAME  ? rename_
         : t == WTR_WATCHER_EFFECT_MODIFY  ? modify
         : t == WTR_WATCHER_EFFECT_CREATE  ? create
         : t == WTR_WATCHER_EFFECT_DESTROY ? destroy
         : t == WTR_WATCHER_EFFECT_OWNER   ? owner
         : t == WTR_WATCHER_EFFECT_OTHER   ? other_et
                                           : 99;
  }
  static int pt_of(int8_t t)
  {
    return t == WTR_WATCHER_PATH_DIR       ? dir
         : t == WTR_WATCHER_PATH_FILE      ? file
         : t == WTR_WATCHER_PATH_HARD_LINK ? hard_link
         : t == WTR_WATCHER_PATH_SYM_LINK  ? sym_link
         : t == WTR_WATCHER_PATH_WATCHER   ? watcher
         : t == WTR_WATCHER_PATH_OTHER     ? other_pt
                                           : 99;
  }
  static void fwd(struct wtr_watcher_event e, void* ctx)
  {
    Ev v;
    v.path = e.path_name ? e.path_name : "<null>";
    v.et = et_of(e.effect_type);
    v.pt = pt_of(e.path_type);
    v.t = v.at = e.effect_time;
    if (e.associated_path_name) {
      v.assoc = true;
      v.apath = e.associated_path_name;
      v.aet = v.et;
      v.apt = v.pt;
    }
    static_cast<CWatcher*>(ctx)->cb(v);
  }
  CWatcher(std::string const& path, Cb c)
      : cb(std::move(c))
  { w = wtr_watcher_open(path.c_str(), fwd, this); }
  bool close() override { return closed = true, wtr_watcher_close(w); }
  ~CWatcher() override
  {
    if (! closed) wtr_watcher_close(w);
  }
};

std::unique_ptr<Watcher> open(std::string const& path, Cb cb)
{ return std::make_unique<CWatcher>(path, std::move(cb)); }

char const* flavor() { return "c"; }

}  // namespace sut
