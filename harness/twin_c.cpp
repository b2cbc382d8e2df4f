#include "sut_c.cpp"
#include "twin.hpp"

namespace {
sut::Watcher* open(std::string const& path, sut::Cb const& cb) { return sut::open(path, cb).release(); }
twin::Table const table{open, nullptr, sut::flavor()};
}  // namespace

twin::Table const* wverif_twin() { return &table; }
