// Without fanotify, whoever runs this.
#include "instances.hpp"

extern "C" int wverif_fanotify_init(unsigned, unsigned) noexcept
{
  errno = EPERM;
  return -1;
}
extern "C" int wverif_inotify_init1(int flags) noexcept { return patient_inotify_init1(flags); }
