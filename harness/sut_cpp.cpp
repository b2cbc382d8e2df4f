// The C++ interface. Compiled against include/ and against devel/include/.
#include "sut.hpp"
#include "wtr/watcher.hpp"

namespace sut {

bool with_text = false;

static int et_of(wtr::event const& e)
{
  using T = enum wtr::event::effect_type;
  switch (e.effect_type) {
    case T::rename: return rename_;
    case T::modify: return modify;
    case T::create: return create;
    case T::destroy: return destroy;
    case T::owner: return owner;
    case T::other: return other_et;
  }
  return 99;
}

static int pt_of(wtr::event const& e)
{
  using T = enum wtr::event::path_type;
  switch (e.path_type) {
    case T::dir: return dir;
    case T::file: return file;
    case T::hard_link: return hard_link;
    case T::sym_link: return sym_link;
    case T::watcher: return watcher;
    case T::other: return other_pt;
  }
  return 99;
}

static Ev ev_of(wtr::event const& e)
{
  Ev v;
  v.path = e.path_name.string();
  v.et = et_of(e);
  v.pt = pt_of(e);
  v.t = e.effect_time;
  if (e.associated) {
    v.assoc = true;
    v.apath = e.associated->path_name.string();
    v.aet = et_of(*e.associated);
    v.apt = pt_of(*e.associated);
    v.at = e.associated->effect_time;
  }
  if (with_text) {
    v.text = wtr::to<std::string>(e);
    auto wide = wtr::to<std::wstring>(e);
    v.text += "|" + std::string(wide.begin(), wide.end()) + "|" + wtr::to<std::string>(e.effect_type) + "|" + wtr::to<std::string>(e.path_type);
  }
  return v;
}

struct CppWatcher : Watcher {
  wtr::watch w;
  CppWatcher(std::string const& path, Cb cb)
      : w{std::filesystem::path(path), [cb](wtr::event const& e) { cb(ev_of(e)); }}
  {}
  bool close() override { return w.close(); }
};

std::unique_ptr<Watcher> open(std::string const& path, Cb cb)
{ return std::make_unique<CppWatcher>(path, std::move(cb)); }

char const* flavor() { return "c++"; }

}  // namespace sut
