// The watcher, seen from a harness: nothing but its public interface.
#pragma once
#include <functional>
#include <memory>
#include <string>

namespace sut {

enum Et { rename_, modify, create, destroy, owner, other_et };
enum Pt { dir, file, hard_link, sym_link, watcher, other_pt };

struct Ev {
  std::string path;
  int et = 0, pt = 0;
  long long t = 0;
  bool assoc = false;
  std::string apath;
  int aet = -1, apt = -1;
  long long at = 0;
  std::string text;   // only if asked for
};
extern bool with_text;

struct Watcher {
  virtual bool close() = 0;
  virtual ~Watcher() = default;
};

using Cb = std::function<void(Ev const&)>;
std::unique_ptr<Watcher> open(std::string const& path, Cb cb);
char const* flavor();

}  // namespace sut
