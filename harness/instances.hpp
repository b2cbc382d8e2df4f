// inotify's instances are few, per user, and might be in use elsewhere at the moment.
#pragma once
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>

static inline int patient_inotify_init1(int flags)
{
  for (int k = 0;; ++k) {
    int fd = (int)syscall(SYS_inotify_init1, flags);
    if (fd >= 0 || errno != EMFILE || k == 200) return fd;
    // (It's not that we're out of descriptors?)
    int d = dup(2);
    if (d < 0) return errno = EMFILE, -1;
    close(d);
    usleep(50000);
  }
}
