// Events as values and as text.
#include "core.hpp"
#include "json.hpp"
#include "wtr/watcher.hpp"
#include <sstream>

using namespace core;
using std::string;
using std::wstring;
using ev = wtr::event;
using et = enum ev::effect_type;
using pt = enum ev::path_type;

namespace sut {
char const* flavor() { return "c++"; }
std::unique_ptr<Watcher> open(std::string const&, Cb) { return nullptr; }
}

namespace {

char const* const et_names[] = {"rename", "modify", "create", "destroy", "owner", "other"};
char const* const pt_names[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
et const ets[] = {et::rename, et::modify, et::create, et::destroy, et::owner, et::other};
pt const pts[] = {pt::dir, pt::file, pt::hard_link, pt::sym_link, pt::watcher, pt::other};

// A path name from a few words
string name_of(Op const& o)
{
  static char const* const bits[] = {
    "a", "/", "\"", "\\", "\n", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\x80",
    "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\xe0\x80\x80", "\xe2\x82", "\xf0\x9f\x98", ".", " ", "\t", "\r",
    "\b", "\f", "{", "}", ":", ",", "u0041", "\\u0041", "null", "\xef\xbf\xbd", "\xef\xbb\xbf", "\xe2\x80\xa8", "'", "%s",
    "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xee\x80\x80", "\xed\x9f\xbf", "\xfe", "\xf8\x88\x80\x80\x80",
  };
  constexpr size_t n = sizeof bits / sizeof *bits;
  string s;
  unsigned long long x = o[2] | (unsigned long long)o[3] << 16 | (unsigned long long)o[4] << 32;
  u32 mode = o[1] % 8;
  if (mode == 0) {  // any bytes
    for (int i = 0; i < 6; ++i) if (auto c = (char)(x >> (8 * i)); c) s += c;
  }
  else if (mode == 1) s = string(1 + o[2] % 5000, (char)(1 + o[3] % 255));  // long
  else if (mode == 2) { for (int i = 0; i < 48; i += 6) s += (char)(32 + (x >> i & 63)); }  // plain
  else if (mode == 3) s = string(1, (char)(1 + o[2] % 255));  // each byte
  else {
    for (int i = 0; i < (int)(mode * 2); ++i) s += bits[x % n], x = x / n + (x * 2654435761u >> 7);
  }
  return s;
}

void set_time(ev& e, long long t)
{
  long long* volatile p = const_cast<long long*>(&e.effect_time);
  *p = t;
}

long long time_of(u32 a, u32 b, u32 c, u32 d)
{
  switch (a % 6) {
    case 0: return (long long)((unsigned long long)b << 48 | (unsigned long long)c << 32 | (unsigned long long)d << 16 | b);
    case 1: { long long p = 1; for (u32 i = 0; i < b % 19; ++i) p *= 10; p += (long long)(c % 3) - 1; return d % 2 ? p : -p; }
    case 2: { auto p = 1ull << (b % 64); return (long long)(p + c % 3 - 1); }
    case 3: return b % 2 ? INT64_MIN + (long long)(c % 5) : INT64_MAX - (long long)(c % 5);
    case 4: return (long long)b - 32768;
    default: return 1700000000000000000ll + (long long)b * 1000003 * c + d;
  }
}

Outcome bad(string m) { return Outcome::bad(std::move(m)); }

template<class C> js::Str expected(string const& path, bool& exact)
{
  js::Str r;
  exact = true;
  if constexpr (sizeof(C) == 1) return js::units(path);
  else { exact = js::utf8(path, r); return r; }
}

bool ascii_agrees(js::Str const& got, string const& path)
{
  string a, b;
  for (auto c : got) if (c < 0x80) a += (char)c;
  for (auto c : path) if ((unsigned char)c < 0x80) b += c;
  return a == b;
}

template<class C> Outcome one_object(js::Val const& v, ev const& e, string const& what)
{
  if (v.kind != 'o') return bad(what + ": isn't an object");
  auto is = [&](char const* k, string const& want) -> Outcome {
    auto* x = v.get(k);
    if (! x || x->kind != 's') return bad(what + ": no (single) \"" + k + "\" which is a string");
    bool exact;
    auto w = expected<C>(want, exact);
    if (exact ? x->s != w : ! ascii_agrees(x->s, want)) {
      string got;
      for (auto c : x->s) got += c < 0x7f && c >= 0x20 ? string(1, (char)c) : "<" + std::to_string((unsigned)c) + ">";
      return bad(what + ": \"" + k + "\" is " + got.substr(0, 300) + ", not " + core::show(want));
    }
    return {};
  };
  if (auto r = is("effect_type", et_names[(int)e.effect_type]); ! r.ok) return r;
  if (auto r = is("path_type", pt_names[(int)e.path_type]); ! r.ok) return r;
  if (auto r = is("path_name", e.path_name.native()); ! r.ok) return r;
  auto* a = v.get("associated");
  bool any = false;
  for (auto& [k, x] : v.o) any = any || k == js::Str(U"associated");
  if (any != (bool)e.associated || (any && ! a)) return bad(what + ": \"associated\" doesn't agree with the event");
  return {};
}

template<class C> Outcome text_of(ev const& e, string const& what)
{
  using S = std::basic_string<C>;
  S text = wtr::to<S>(e);
  std::basic_ostringstream<C> os;
  os << std::hex << std::showbase << std::uppercase;
  os << e;
  if (os.str() != text) return bad(what + ": operator<< and to<> disagree");
  js::Str t = js::units(text);
  if (sizeof(C) > 1)
    for (auto c : t)
      if (c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) return bad(what + ": has <" + std::to_string((unsigned long)c) + ">, which isn't a character");
  t = js::Str(U"{") + t + js::Str(U"}");
  js::Reader rd{t, sizeof(C) == 1};
  js::Val v;
  if (! rd.all(v)) {
    string s;
    for (auto c : text) s += (char)c;
    return bad(what + ": isn't JSON (" + rd.err + "): " + core::show(s));
  }
  if (v.o.size() != 1) return bad(what + ": isn't one member");
  string key;
  for (auto c : v.o[0].first) key += (char)c;
  if (key != std::to_string(e.effect_time)) return bad(what + ": the key is " + core::show(key) + ", not " + std::to_string(e.effect_time));
  auto r = one_object<C>(v.o[0].second, e, what);
  if (! r.ok || ! e.associated) return r;
  return one_object<C>(*v.o[0].second.get("associated"), ev{e.associated->path_name, e.associated->effect_type, e.associated->path_type}, what + " (associated)");
}

Outcome p_json(Case const& c, Info& info)
{
  for (auto& o : c.ops) {
    Op p = o;
    auto name = name_of(o);
    std::swap(p[1], p[4]);
    auto other = name_of(p);
    auto e1 = ev{std::filesystem::path{name}, ets[o[0] % 6], pts[o[0] / 6 % 6]};
    auto make = [&]() -> std::unique_ptr<ev> {
      if (o[0] / 36 % 2) return std::make_unique<ev>(e1, ev{std::filesystem::path{other}, ets[o[2] % 6], pts[o[3] % 6]});
      return std::make_unique<ev>(e1);
    };
    auto e = make();
    set_time(*e, time_of(o[1], o[2], o[3], o[4]));
    info.counts[e->associated ? "with associated" : "alone"]++;
    js::Str u;
    bool valid = js::utf8(name, u);
    info.counts[valid ? "utf-8" : "not utf-8"]++;
    auto what = "event on " + core::show(name);
    if (auto r = text_of<char>(*e, what + ", as text"); ! r.ok) return r;
    if (auto r = text_of<wchar_t>(*e, what + ", as wide text"); ! r.ok) return r;
    if (info.describe.size() < 400) info.describe += " [" + core::show(name).substr(0, 60) + (e->associated ? " -> " + core::show(other).substr(0, 40) : "") + "]";
    info.nontrivial = true;
  }
  return {};
}

template<class T> string narrow(T const& s)
{
  string r;
  for (auto c : s) { if ((unsigned long)c > 0x7f) return "<not ascii>"; r += (char)c; }
  return r;
}

Outcome p_numbers(Case const& c, Info& info)
{
  for (auto& o : c.ops) {
    long long const n = time_of(o[0], o[1], o[2], o[3]);
    auto want = std::to_string(n);
    auto s = wtr::to<string>(n);
    auto w = wtr::to<wstring>(n);
    if (s != want) return bad("to<string>(" + want + ") is " + core::show(s));
    if (narrow(w) != want || w.size() != want.size()) return bad("to<wstring>(" + want + ") is " + core::show(narrow(w)));
    auto i = o[4] % 6;
    std::ostringstream a, b;
    std::wostringstream wa, wb;
    a << ets[i], b << pts[i], wa << ets[i], wb << pts[i];
    for (auto& [got, what] : std::vector<std::pair<string, string>>{
           {wtr::to<string>(ets[i]), "to<string>"}, {narrow(wtr::to<wstring>(ets[i])), "to<wstring>"},
           {string(wtr::to<std::string_view>(ets[i])), "to<string_view>"}, {narrow(wtr::to<std::wstring_view>(ets[i])), "to<wstring_view>"},
           {a.str(), "<<"}, {narrow(wa.str()), "wide <<"}})
      if (got != et_names[i]) return bad(what + " of effect type " + et_names[i] + " is " + core::show(got));
    for (auto& [got, what] : std::vector<std::pair<string, string>>{
           {wtr::to<string>(pts[i]), "to<string>"}, {narrow(wtr::to<wstring>(pts[i])), "to<wstring>"},
           {string(wtr::to<std::string_view>(pts[i])), "to<string_view>"}, {narrow(wtr::to<std::wstring_view>(pts[i])), "to<wstring_view>"},
           {b.str(), "<<"}, {narrow(wb.str()), "wide <<"}})
      if (got != pt_names[i]) return bad(what + " of path type " + pt_names[i] + " is " + core::show(got));
    // Paths' texts
    auto name = name_of(o);
    auto p = std::filesystem::path{name};
    if (wtr::to<string>(p) != name) return bad("to<string> of the path " + core::show(name) + " is " + core::show(wtr::to<string>(p)));
    js::Str u;
    if (js::utf8(name, u)) {
      if (js::units(wtr::to<wstring>(p)) != u) return bad("to<wstring> of the path " + core::show(name) + " differs");
    }
    else if (! ascii_agrees(js::units(wtr::to<wstring>(p)), name)) return bad("to<wstring> of the path " + core::show(name) + " loses characters");
    info.nontrivial = true;
    if (info.describe.size() < 300) info.describe += " " + want;
  }
  return {};
}

// What an event should be
struct Model {
  string path;
  et e;
  pt p;
  long long t;
  std::shared_ptr<Model const> assoc;
};

bool equal(Model const& a, Model const& b)
{
  return std::filesystem::path{a.path} == std::filesystem::path{b.path} && a.e == b.e && a.p == b.p && a.t == b.t
      && (a.assoc && b.assoc ? equal(*a.assoc, *b.assoc) : ! a.assoc && ! b.assoc);
}

Outcome is(ev const& e, Model const& m, string const& what)
{
  if (e.path_name.native() != m.path) return bad(what + ": path is " + core::show(e.path_name.native()) + ", not " + core::show(m.path));
  if (e.effect_type != m.e || e.path_type != m.p) return bad(what + ": a type changed");
  if (e.effect_time != m.t) return bad(what + ": time is " + std::to_string(e.effect_time) + ", not " + std::to_string(m.t));
  if ((bool)e.associated != (bool)m.assoc) return bad(what + ": associated appeared or vanished");
  return m.assoc ? is(*e.associated, *m.assoc, what + " (associated)") : Outcome{};
}

Outcome p_values(Case const& c, Info& info)
{
  std::vector<std::pair<std::unique_ptr<ev>, Model>> v;
  auto model = [](ev const& e) {
    auto f = [](auto& self, ev const& e) -> Model {
      Model m{e.path_name.native(), e.effect_type, e.path_type, e.effect_time, nullptr};
      if (e.associated) m.assoc = std::make_shared<Model>(self(self, *e.associated));
      return m;
    };
    return f(f, e);
  };
  long copies = 0;
  for (auto& o : c.ops) {
    auto pick = [&](u32 x) -> auto& { return v[x % v.size()]; };
    u32 k = v.empty() ? 0 : o[0] % 7;
    long long before = wall_ns();
    switch (k) {
      case 0: {
        Op q = o;
        if (o[4] % 3) q[1] = 3, q[2] = o[2] % 4;  // few names, for equal ones
        auto name = name_of(q);
        auto e = std::make_unique<ev>(std::filesystem::path{name}, ets[o[3] % 6], pts[o[3] / 6 % 6]);
        Model m{name, ets[o[3] % 6], pts[o[3] / 6 % 6], e->effect_time, nullptr};
        if (m.t < before || m.t > wall_ns()) return bad("an event's time isn't when it was made");
        if (o[4] % 2) m.t = o[4] % 5, set_time(*e, m.t);
        v.emplace_back(std::move(e), m);
        break;
      }
      case 1: case 2: {  // with an associated one
        auto base = *pick(o[1]).first;
        auto mb = pick(o[1]).second;
        auto mo = pick(o[2]).second;
        auto e = std::make_unique<ev>(base, ev{*pick(o[2]).first});
        mb.assoc = std::make_shared<Model>(mo);
        mb.t = e->effect_time;
        if (mb.t < before || mb.t > wall_ns()) return bad("an event's time isn't when it was made (with an associated one)");
        if (o[4] % 2) mb.t = o[4] % 5, set_time(*e, mb.t);
        v.emplace_back(std::move(e), mb);
        break;
      }
      case 3: {  // copies outlive originals
        auto& x = pick(o[1]);
        auto e = std::make_unique<ev>(*x.first);
        auto m = x.second;
        if (o[2] % 2) x.first = std::make_unique<ev>(*e);
        v.emplace_back(std::move(e), m);
        ++copies;
        break;
      }
      case 4: {  // through containers and functions
        auto& x = pick(o[1]);
        std::vector<ev> w;
        for (u32 i = 0; i < 1 + o[2] % 9; ++i) w.push_back(*x.first), w.push_back(ev{w[o[4] % w.size()]});
        std::function<ev(ev)> f = [](ev e) { return e; };
        v.emplace_back(std::make_unique<ev>(f(std::move(w[o[3] % w.size()]))), x.second);
        ++copies;
        break;
      }
      case 5: {
        v.erase(v.begin() + (long)(o[1] % v.size()));
        break;
      }
      default: {
        auto& x = pick(o[1]);
        if (o[2] % 3 == 0) x.second.t = o[3] % 5, set_time(*x.first, x.second.t);
        break;
      }
    }
    if (v.size() > 12) v.erase(v.begin());
    for (size_t i = 0; i < v.size(); ++i) {
      if (auto r = is(*v[i].first, v[i].second, "event #" + std::to_string(i)); ! r.ok) return r;
      for (size_t j = 0; j < v.size(); ++j) {
        bool want = equal(v[i].second, v[j].second);
        if ((*v[i].first == *v[j].first) != want || (*v[i].first != *v[j].first) == want)
          return bad("equality of " + core::show(v[i].second.path) + " and " + core::show(v[j].second.path) + " should be " + (want ? "true" : "false"));
        if (i != j && want) ++info.counts["equal pairs"];
      }
    }
  }
  info.counts["copies"] += copies;
  info.nontrivial = copies > 0;
  for (auto& x : v) info.describe += " [" + core::show(x.second.path).substr(0, 30) + (x.second.assoc ? " +" : "") + "]";
  (void)model;
  return {};
}

}  // namespace

int main(int argc, char** argv)
{
  add({"json", p_json, 12, 72, "random events (any bytes in their paths, any times, with and without associated ones), to text and parsed again; every non-empty case counts", 40});
  add({"numbers", p_numbers, 20, 6, "random numbers, enumerators and paths, to text of every kind; every non-empty case counts", 40});
  add({"values", p_values, 40, 7, "random sequences of constructing, copying and destroying events, against plain structs; non-trivial: something was copied", 40});
  return core::main(argc, argv);
}
