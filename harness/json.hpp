// A strict, small JSON reader, for bytes or code points.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace js {

using Str = std::basic_string<char32_t>;

struct Val {
  char kind = 0;  // o: object, a: array, s: string, n: number, t, f, z: null
  Str s;          // strings (code units), numbers (as written)
  std::vector<std::pair<Str, Val>> o;
  std::vector<Val> a;
  Val const* get(char const* k) const
  {
    Str want(k, k + std::char_traits<char>::length(k));
    Val const* r = nullptr;
    for (auto& [n, v] : o) if (n == want) { if (r) return nullptr; r = &v; }
    return r;
  }
};

struct Reader {
  Str in;
  size_t i = 0;
  std::string err;
  bool bytes;  // \u escapes are stored as UTF-8 bytes

  Reader(Str s, bool b) : in{std::move(s)}, bytes{b} {}
  bool bad(char const* m) { if (err.empty()) err = std::string(m) + " at " + std::to_string(i); return false; }
  char32_t at() const { return i < in.size() ? in[i] : 0; }
  void ws() { while (at() == ' ' || at() == '\n' || at() == '\t' || at() == '\r') ++i; }
  bool lit(char const* s)
  {
    for (; *s; ++s, ++i) if (at() != (char32_t)*s) return bad("bad literal");
    return true;
  }
  void put(Str& out, char32_t c)
  {
    if (! bytes || c < 0x80) out += c;
    else if (c < 0x800) out += 0xc0 | c >> 6, out += 0x80 | (c & 0x3f);
    else if (c < 0x10000) out += 0xe0 | c >> 12, out += 0x80 | (c >> 6 & 0x3f), out += 0x80 | (c & 0x3f);
    else out += 0xf0 | c >> 18, out += 0x80 | (c >> 12 & 0x3f), out += 0x80 | (c >> 6 & 0x3f), out += 0x80 | (c & 0x3f);
  }
  bool hex4(char32_t& c)
  {
    c = 0;
    for (int k = 0; k < 4; ++k, ++i) {
      auto h = at();
      int d = h >= '0' && h <= '9' ? (int)h - '0' : h >= 'a' && h <= 'f' ? (int)h - 'a' + 10 : h >= 'A' && h <= 'F' ? (int)h - 'A' + 10 : -1;
      if (d < 0) return bad("bad \\u");
      c = c * 16 + (char32_t)d;
    }
    return true;
  }
  bool str(Str& out)
  {
    if (at() != '"') return bad("no string");
    for (++i;; ) {
      if (i >= in.size()) return bad("unterminated string");
      auto c = in[i++];
      if (c == '"') return true;
      if (c < 0x20) return bad("raw control character in a string");
      if (c != '\\') { out += c; continue; }
      auto e = at();
      ++i;
      switch (e) {
        case '"': case '\\': case '/': out += e; break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u': {
          char32_t u;
          if (! hex4(u)) return false;
          if (u >= 0xd800 && u < 0xdc00 && at() == '\\') {
            char32_t v;
            ++i;
            if (at() != 'u') return bad("lone surrogate");
            ++i;
            if (! hex4(v)) return false;
            if (v < 0xdc00 || v > 0xdfff) return bad("lone surrogate");
            u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
          }
          else if (u >= 0xd800 && u < 0xe000) return bad("lone surrogate");
          put(out, u);
          break;
        }
        default: return bad("bad escape");
      }
    }
  }
  bool val(Val& v, int depth = 0)
  {
    if (depth > 50) return bad("too deep");
    ws();
    auto c = at();
    if (c == '{') {
      v.kind = 'o';
      ++i, ws();
      if (at() == '}') return ++i, true;
      for (;;) {
        Str k;
        Val x;
        ws();
        if (! str(k)) return false;
        ws();
        if (at() != ':') return bad("no colon");
        ++i;
        if (! val(x, depth + 1)) return false;
        v.o.emplace_back(k, x);
        ws();
        if (at() == ',') { ++i; continue; }
        if (at() == '}') return ++i, true;
        return bad("no comma or brace");
      }
    }
    if (c == '[') {
      v.kind = 'a';
      ++i, ws();
      if (at() == ']') return ++i, true;
      for (;;) {
        Val x;
        if (! val(x, depth + 1)) return false;
        v.a.push_back(x);
        ws();
        if (at() == ',') { ++i; continue; }
        if (at() == ']') return ++i, true;
        return bad("no comma or bracket");
      }
    }
    if (c == '"') return v.kind = 's', str(v.s);
    if (c == 't') return v.kind = 't', lit("true");
    if (c == 'f') return v.kind = 'f', lit("false");
    if (c == 'n') return v.kind = 'z', lit("null");
    v.kind = 'n';
    auto dig = [&] { return at() >= '0' && at() <= '9'; };
    if (at() == '-') v.s += in[i++];
    if (! dig()) return bad("no value");
    if (at() == '0') { v.s += in[i++]; if (dig()) return bad("leading zero"); }
    while (dig()) v.s += in[i++];
    if (at() == '.') { v.s += in[i++]; if (! dig()) return bad("bad number"); while (dig()) v.s += in[i++]; }
    if (at() == 'e' || at() == 'E') {
      v.s += in[i++];
      if (at() == '+' || at() == '-') v.s += in[i++];
      if (! dig()) return bad("bad number");
      while (dig()) v.s += in[i++];
    }
    return true;
  }
  bool all(Val& v) { if (! val(v)) return false; ws(); return i == in.size() ? true : bad("more after the value"); }
};

template<class C> Str units(std::basic_string<C> const& s)
{
  Str r;
  for (auto c : s) r += sizeof(C) == 1 ? (char32_t)(unsigned char)c : (char32_t)c;
  return r;
}

// Valid UTF-8 to code points; false if it isn't
inline bool utf8(std::string const& s, Str& out)
{
  for (size_t i = 0; i < s.size();) {
    unsigned c = (unsigned char)s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1;
    if (n < 0 || i + (size_t)n >= s.size()) return false;
    char32_t u = n == 0 ? c : n == 1 ? c & 0x1f : n == 2 ? c & 0xf : c & 7;
    for (int k = 1; k <= n; ++k) {
      unsigned d = (unsigned char)s[i + (size_t)k];
      if ((d & 0xc0) != 0x80) return false;
      u = u << 6 | (d & 0x3f);
    }
    if ((n == 2 && u < 0x800) || (n == 3 && u < 0x10000) || u > 0x10ffff || (u >= 0xd800 && u < 0xe000)) return false;
    out += u;
    i += (size_t)n + 1;
  }
  return true;
}

}  // namespace js
