#include "sut_cpp.cpp"
#include "twin.hpp"
#include <sstream>

namespace {

template<class E> void put(std::string& s, E const& e)
{
  auto wide = [&](std::wstring const& w) {
    s += "|";
    for (auto c : w) s += std::to_string((unsigned long)c) + ",";
  };
  std::ostringstream o;
  o << e;
  std::wostringstream wo;
  wo << e;
  s += "|" + wtr::to<std::string>(e) + "|" + o.str();
  wide(wtr::to<std::wstring>(e));
  wide(wo.str());
}

std::string texts(sut::Ev const& v)
{
  using ev = wtr::event;
  using et = enum ev::effect_type;
  using pt = enum ev::path_type;
  static et const ets[] = {et::rename, et::modify, et::create, et::destroy, et::owner, et::other};
  static pt const pts[] = {pt::dir, pt::file, pt::hard_link, pt::sym_link, pt::watcher, pt::other};
  std::string s;
  auto one = [&](ev const& e) {
    put(s, e);
    put(s, e.effect_type), put(s, e.path_type);
    s += "|" + wtr::to<std::string>(e.path_name) + "|" + wtr::to<std::string>(e.effect_time);
    for (auto c : wtr::to<std::wstring>(e.path_name)) s += std::to_string((unsigned long)c) + ",";
  };
  ev a(v.path, ets[v.et % 6], pts[v.pt % 6]);
  one(a);
  if (v.assoc) {
    ev b(v.apath, ets[v.aet % 6], pts[v.apt % 6]);
    ev c(a, ev(b));
    one(c);
    s += c == a ? "=" : "!";
    ev d(c);
    s += d == c ? "=" : "!";
    s += ev(b) == b ? "=" : "!";
  }
  return s;
}

sut::Watcher* open(std::string const& path, sut::Cb const& cb) { return sut::open(path, cb).release(); }

twin::Table const table{open, texts, sut::flavor()};

}  // namespace

twin::Table const* wverif_twin() { return &table; }
