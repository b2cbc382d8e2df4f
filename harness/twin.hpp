// One build of the watcher, in a shared object of its own.
#pragma once
#include "sut.hpp"

namespace twin {

struct Table {
  sut::Watcher* (*open)(std::string const& path, sut::Cb const& cb);
  std::string (*texts)(sut::Ev const& e);   // in every form there is
  char const* what;
};

}  // namespace twin

extern "C" __attribute__((visibility("default"))) twin::Table const* wverif_twin();
