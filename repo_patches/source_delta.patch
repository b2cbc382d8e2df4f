From 9dea9e4e61697cd1bebbaee21e0e22c1b2d174b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/40] fix: keep watching when epoll_wait is interrupted by a
 signal

epoll_wait fails with EINTR whenever a signal is handled on the watcher's
thread, when the process is stopped and continued, and when SIGCHLD is
blocked in another thread (as in system(3)). That is not an error.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 3 ++-
 include/wtr/watcher.hpp                                  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index a3cb946..ae506df 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -10,6 +10,7 @@
 #endif
 
 #include "wtr/watcher.hpp"
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -27,7 +28,7 @@ inline auto watch =
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
       if (ep_c < 0)
-        sr.ok = result::e_sys_api_epoll;
+        sr.ok = errno == EINTR ? sr.ok : result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
           if (is_ev_of(n, sr.il.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index bc1c85f..1e6996d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1647,6 +1647,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #error "Define 'WATER_WATCHER_USE_WARTHOG' on kernel versions < 2.7.0"
 #endif
 
+#include <errno.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter {
@@ -1664,7 +1665,7 @@ inline auto watch =
       int ep_c =
         epoll_wait(sr.ep.fd, sr.ep.interests, sr.ep.q_ulim, sr.ep.wake_ms);
       if (ep_c < 0)
-        sr.ok = result::e_sys_api_epoll;
+        sr.ok = errno == EINTR ? sr.ok : result::e_sys_api_epoll;
       else
         for (int n = 0; n < ep_c; ++n)
           if (is_ev_of(n, sr.il.fd))
-- 
2.43.0


From 255b83dfdf146f5300dfe0a70162b835e720f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 02/40] fix: don't let pending events override a close or an
 error

When epoll_wait reported both the close request and the filesystem events,
the result of the latter replaced 'complete' (or an error), and the watcher
kept running. Under a steady stream of events, close() might not return.
---
 devel/include/detail/wtr/watcher/adapter/linux/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index ae506df..487f5c0 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -30,7 +30,7 @@ inline auto watch =
       if (ep_c < 0)
         sr.ok = errno == EINTR ? sr.ok : result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 1e6996d..6016e32 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1667,7 +1667,7 @@ inline auto watch =
       if (ep_c < 0)
         sr.ok = errno == EINTR ? sr.ok : result::e_sys_api_epoll;
       else
-        for (int n = 0; n < ep_c; ++n)
+        for (int n = 0; n < ep_c && sr.ok < result::complete; ++n)
           if (is_ev_of(n, sr.il.fd))
             sr.ok = result::complete;
           else if (is_ev_of(n, sr.ke.fd))
-- 
2.43.0


From dd4f79608d75e7d86f7fb13e6bf9e2f335e9b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 03/40] fix: name the right directory in renames across
 directories (inotify)

The renamed-to path was built from the directory which the file was moved
from: 'mv a/f b/g' was reported as 'a/f -> a/g'.
---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp   | 15 +++++++++++----
 include/wtr/watcher.hpp                           | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2db6bc6..05c4e06 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -178,15 +178,19 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
+  /*  The two parts of a rename may be in
+      different directories. */
+  auto isknown = [&](inotify_event const* const m) -> bool
+  { return dm.find(m->wd) != dm.end(); };
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.find(m->wd)->second / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -194,7 +198,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && isknown(b);
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -342,7 +349,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 6016e32..c826537 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1457,15 +1457,19 @@ struct parsed {
 };
 
 inline auto parse_ev = [](
-                         std::filesystem::path const& dirname,
+                         ke_in_ev::paths const& dm,
                          inotify_event const* const in,
                          inotify_event const* const tail) -> parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
   using ev_et = enum ev::effect_type;
+  /*  The two parts of a rename may be in
+      different directories. */
+  auto isknown = [&](inotify_event const* const m) -> bool
+  { return dm.find(m->wd) != dm.end(); };
   auto pathof = [&](inotify_event const* const m)
-  { return dirname / std::filesystem::path{m->name}; };
+  { return dm.find(m->wd)->second / std::filesystem::path{m->name}; };
   auto pt = in->mask & IN_ISDIR ? ev_pt::dir : ev_pt::file;
   auto et = in->mask & IN_CREATE ? ev_et::create
           : in->mask & IN_DELETE ? ev_et::destroy
@@ -1473,7 +1477,10 @@ inline auto parse_ev = [](
           : in->mask & IN_MODIFY ? ev_et::modify
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
-  { return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename; };
+  {
+    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
+        && isknown(b);
+  };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
   auto one = [&](auto* a, auto* next) -> parsed
@@ -1621,7 +1628,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(dmhit->second, in_ev, in_ev_tail);
+        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & IN_CREATE)
           do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
-- 
2.43.0


From d5146db11fcda4ad739fa2fc27b0ea4e6f1acb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 04/40] fix: watch directories moved into the tree, and what
 new ones already have

A directory which was moved into the watched tree was never watched. Nor
were the directories inside of a new directory when they were made before
we marked it, as with 'mkdir -p a/b/c'.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 30 ++++++++---
 .../watcher/adapter/linux/inotify/watch.hpp   | 20 +++++++-
 include/wtr/watcher.hpp                       | 50 +++++++++++++++----
 3 files changed, 80 insertions(+), 20 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 49f995e..f90d4e4 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -219,15 +219,29 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                     : one(m);
 }
 
+/*  Marks a directory which appeared in our tree,
+    and whatever is already inside of it: It may
+    have been moved here with its content, or have
+    had content created before we marked it. */
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](
+    ::wtr::watcher::event const& ev,
+    unsigned long long mask,
+    int fa_fd,
+    auto const& cb) -> result
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  auto is_newdir = mask & FAN_ONDIR && mask & (FAN_CREATE | FAN_MOVED_TO);
+  if (! is_newdir) return result::complete;
+  auto dirpath = ev.path_name.c_str();
+  auto r = do_mark(dirpath, fa_fd, cb);
+  if (r == result::complete)
+    walkdir_do(
+      dirpath,
+      [&](auto dir)
+      {
+        if (strcmp(dir, dirpath) != 0) do_mark(dir, fa_fd, cb);
+      });
+  return r;
 };
 
 /*  Read some events from what fanotify gives
@@ -281,7 +295,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
         if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
+        do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
         cb(ev);
         mtd = n;
         read_len -= l;
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 05c4e06..02896ec 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -118,6 +118,22 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory which appeared in our tree,
+    and whatever is already inside of it: It may
+    have been moved here with its content, or have
+    had content created before we marked it. */
+inline auto do_mark_tree =
+  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> void
+{
+  if (do_mark(dirpath, dirfd, dm, cb) != result::complete) return;
+  walkdir_do(
+    dirpath,
+    [&](auto dir)
+    {
+      if (strcmp(dir, dirpath) != 0) do_mark(dir, dirfd, dm, cb);
+    });
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -350,8 +366,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
+          do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c826537..ef1f553 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1205,15 +1205,29 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                     : one(m);
 }
 
+/*  Marks a directory which appeared in our tree,
+    and whatever is already inside of it: It may
+    have been moved here with its content, or have
+    had content created before we marked it. */
 inline auto do_mark_if_newdir =
-  [](::wtr::watcher::event const& ev, int fa_fd, auto const& cb) -> result
+  [](
+    ::wtr::watcher::event const& ev,
+    unsigned long long mask,
+    int fa_fd,
+    auto const& cb) -> result
 {
-  auto is_newdir = ev.effect_type == ::wtr::watcher::event::effect_type::create
-                && ev.path_type == ::wtr::watcher::event::path_type::dir;
-  if (is_newdir)
-    return do_mark(ev.path_name.c_str(), fa_fd, cb);
-  else
-    return result::complete;
+  auto is_newdir = mask & FAN_ONDIR && mask & (FAN_CREATE | FAN_MOVED_TO);
+  if (! is_newdir) return result::complete;
+  auto dirpath = ev.path_name.c_str();
+  auto r = do_mark(dirpath, fa_fd, cb);
+  if (r == result::complete)
+    walkdir_do(
+      dirpath,
+      [&](auto dir)
+      {
+        if (strcmp(dir, dirpath) != 0) do_mark(dir, fa_fd, cb);
+      });
+  return r;
 };
 
 /*  Read some events from what fanotify gives
@@ -1267,7 +1281,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
         if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, sr.ke.fd, cb);
+        do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
         cb(ev);
         mtd = n;
         read_len -= l;
@@ -1397,6 +1411,22 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory which appeared in our tree,
+    and whatever is already inside of it: It may
+    have been moved here with its content, or have
+    had content created before we marked it. */
+inline auto do_mark_tree =
+  [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> void
+{
+  if (do_mark(dirpath, dirfd, dm, cb) != result::complete) return;
+  walkdir_do(
+    dirpath,
+    [&](auto dir)
+    {
+      if (strcmp(dir, dirpath) != 0) do_mark(dir, dirfd, dm, cb);
+    });
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -1629,8 +1659,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
-        if (msk & IN_ISDIR && msk & IN_CREATE)
-          do_mark(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
+          do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From a9c7d01e8da4e81db0234ec64e604e4f9c907aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 05/40] fix: keep up with directories which are moved (inotify)

Inotify's watches follow a directory when it is renamed, but our paths for
them didn't: After 'mv a b', events in 'b' were reported as being in 'a'.
If a directory was moved out of the watched tree, then events in it were
still reported, at a path where it isn't.

Watches which are gone are forgotten when the kernel says that they are
(on IN_IGNORED), so that removing one doesn't look like a phantom event.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 49 +++++++++++++++----
 include/wtr/watcher.hpp                       | 49 +++++++++++++++----
 2 files changed, 78 insertions(+), 20 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 02896ec..1528984 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -113,7 +113,7 @@ inline auto do_mark =
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -134,6 +134,31 @@ inline auto do_mark_tree =
     });
 };
 
+/*  Inotify's watches follow a directory when it is
+    moved. The paths in our map need to keep up with
+    the directory, and with every other one under it.
+    If it was moved out of our tree (without a `to`),
+    then we need to stop watching it. */
+inline auto do_move_tree = [](
+                             std::filesystem::path const& from,
+                             std::filesystem::path const* const to,
+                             int dirfd,
+                             auto& dm) -> void
+{
+  auto const& base = from.native();
+  for (auto it = dm.begin(); it != dm.end();) {
+    auto const& at = it->second.native();
+    auto is_within = at.compare(0, base.size(), base) == 0
+                  && (at.size() == base.size() || at[base.size()] == '/');
+    if (is_within && ! to)
+      inotify_rm_watch(dirfd, it->first), it = dm.erase(it);
+    else if (is_within)
+      it->second = to->native() + at.substr(base.size()), ++it;
+    else
+      ++it;
+  }
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -336,13 +361,11 @@ struct defer_dm_rm_wd {
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
   auto is_parity_lost = [](unsigned msk) -> bool
-  { return msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF); };
-  auto is_real_event = [](unsigned msk) -> bool
-  {
-    bool has_any = msk & ke_in_ev::recv_mask;
-    bool is_self_info = msk & (IN_IGNORED | IN_DELETE_SELF | IN_MOVE_SELF);
-    return has_any && ! is_self_info;
-  };
+  { return msk & IN_IGNORED; };
+  auto is_self_info = [](unsigned msk) -> bool
+  { return msk & (IN_IGNORED | IN_DELETE_SELF | IN_MOVE_SELF); };
+  auto is_real_event = [&](unsigned msk) -> bool
+  { return msk & ke_in_ev::recv_mask && ! is_self_info(msk); };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
   if (read_len < 0 && errno != EAGAIN)
@@ -360,14 +383,20 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
-      else if (dmhit == sr.ke.dm.end())
-        send_msg(result::w_sys_phantom, "", cb);
+      else if (dmhit == sr.ke.dm.end()) {
+        if (! is_self_info(msk)) send_msg(result::w_sys_phantom, "", cb);
+      }
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
           do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
+          auto to = ev.associated ? &ev.associated->path_name : nullptr;
+          do_move_tree(ev.path_name, to, sr.ke.fd, sr.ke.dm);
+          if (to) do_mark_tree(to->c_str(), sr.ke.fd, sr.ke.dm, cb);
+        }
         cb(ev);
         in_ev_next = next;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index ef1f553..fc149e5 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1406,7 +1406,7 @@ inline auto do_mark =
            ? inotify_add_watch(dirfd, real, ke_in_ev::recv_mask)
            : -1;
   if (wd > 0)
-    return dm.emplace(wd, real), result::complete;
+    return dm.insert_or_assign(wd, real), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -1427,6 +1427,31 @@ inline auto do_mark_tree =
     });
 };
 
+/*  Inotify's watches follow a directory when it is
+    moved. The paths in our map need to keep up with
+    the directory, and with every other one under it.
+    If it was moved out of our tree (without a `to`),
+    then we need to stop watching it. */
+inline auto do_move_tree = [](
+                             std::filesystem::path const& from,
+                             std::filesystem::path const* const to,
+                             int dirfd,
+                             auto& dm) -> void
+{
+  auto const& base = from.native();
+  for (auto it = dm.begin(); it != dm.end();) {
+    auto const& at = it->second.native();
+    auto is_within = at.compare(0, base.size(), base) == 0
+                  && (at.size() == base.size() || at[base.size()] == '/');
+    if (is_within && ! to)
+      inotify_rm_watch(dirfd, it->first), it = dm.erase(it);
+    else if (is_within)
+      it->second = to->native() + at.substr(base.size()), ++it;
+    else
+      ++it;
+  }
+};
+
 inline auto make_sysres = [](
                             char const* const base_path,
                             auto const& cb,
@@ -1629,13 +1654,11 @@ struct defer_dm_rm_wd {
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
   auto is_parity_lost = [](unsigned msk) -> bool
-  { return msk & IN_DELETE_SELF && ! (msk & IN_MOVE_SELF); };
-  auto is_real_event = [](unsigned msk) -> bool
-  {
-    bool has_any = msk & ke_in_ev::recv_mask;
-    bool is_self_info = msk & (IN_IGNORED | IN_DELETE_SELF | IN_MOVE_SELF);
-    return has_any && ! is_self_info;
-  };
+  { return msk & IN_IGNORED; };
+  auto is_self_info = [](unsigned msk) -> bool
+  { return msk & (IN_IGNORED | IN_DELETE_SELF | IN_MOVE_SELF); };
+  auto is_real_event = [&](unsigned msk) -> bool
+  { return msk & ke_in_ev::recv_mask && ! is_self_info(msk); };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
   if (read_len < 0 && errno != EAGAIN)
@@ -1653,14 +1676,20 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
-      else if (dmhit == sr.ke.dm.end())
-        send_msg(result::w_sys_phantom, "", cb);
+      else if (dmhit == sr.ke.dm.end()) {
+        if (! is_self_info(msk)) send_msg(result::w_sys_phantom, "", cb);
+      }
       else if (msk & IN_Q_OVERFLOW)
         send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
           do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
+        else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
+          auto to = ev.associated ? &ev.associated->path_name : nullptr;
+          do_move_tree(ev.path_name, to, sr.ke.fd, sr.ke.dm);
+          if (to) do_mark_tree(to->c_str(), sr.ke.fd, sr.ke.dm, cb);
+        }
         cb(ev);
         in_ev_next = next;
       }
-- 
2.43.0


From 024e6adc0f4a5ac62248b0327c7a536076b3a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 06/40] fix: report queue overflows as such (inotify)

The overflow event has no watch descriptor (it is -1), so that it was always
taken for an event from a path which we didn't mark.
---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp        | 4 ++--
 include/wtr/watcher.hpp                                       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 1528984..70f8868 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -383,11 +383,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end()) {
         if (! is_self_info(msk)) send_msg(result::w_sys_phantom, "", cb);
       }
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index fc149e5..2c84915 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1676,11 +1676,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (is_parity_lost(msk) && ! dmrm.push(in_ev->wd))
         return result::e_sys_ret;
+      else if (msk & IN_Q_OVERFLOW)
+        send_msg(result::w_sys_q_overflow, "", cb);
       else if (dmhit == sr.ke.dm.end()) {
         if (! is_self_info(msk)) send_msg(result::w_sys_phantom, "", cb);
       }
-      else if (msk & IN_Q_OVERFLOW)
-        send_msg(result::w_sys_q_overflow, dmhit->second.c_str(), cb);
       else if (is_real_event(msk)) {
         auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
         if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
-- 
2.43.0


From 1b867b74ec522bc775eb6bd563d866d84d8c8675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 07/40] fix: don't abandon a batch of events on a warning
 (fanotify)

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 28 +++++++++++++------
 include/wtr/watcher.hpp                       | 28 +++++++++++++------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index f90d4e4..c0ecb78 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -271,6 +271,13 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   { return (fanotify_event_info_fid*)(m + 1); };
   auto ev_has_dirname = [&](fanotify_event_metadata const* const m) -> bool
   { return ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME; };
+  auto ev_warning = [&](fanotify_event_metadata const* const m) -> result
+  {
+    return m->fd != FAN_NOFD        ? result::w_sys_bad_fd
+         : m->mask & FAN_Q_OVERFLOW ? result::w_sys_q_overflow
+         : ! ev_has_dirname(m)      ? result::w_sys_bad_meta
+                                    : result::pending;
+  };
 
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
@@ -285,18 +292,21 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
-      else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
-      else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+      else if (auto w = ev_warning(mtd); w != result::pending) {
+        auto next = peek(mtd, read_len);
+        read_len -= mtd->event_len;
+        mtd = next;
+        send_msg(w, "", cb);
+      }
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
-        cb(ev);
+        if (ec)
+          send_msg(result::w_sys_bad_fd, "", cb);
+        else {
+          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
+          cb(ev);
+        }
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 2c84915..5ead4cb 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1257,6 +1257,13 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   { return (fanotify_event_info_fid*)(m + 1); };
   auto ev_has_dirname = [&](fanotify_event_metadata const* const m) -> bool
   { return ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME; };
+  auto ev_warning = [&](fanotify_event_metadata const* const m) -> result
+  {
+    return m->fd != FAN_NOFD        ? result::w_sys_bad_fd
+         : m->mask & FAN_Q_OVERFLOW ? result::w_sys_q_overflow
+         : ! ev_has_dirname(m)      ? result::w_sys_bad_meta
+                                    : result::pending;
+  };
 
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
@@ -1271,18 +1278,21 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
-      else if (mtd->fd != FAN_NOFD)
-        return result::w_sys_bad_fd;
-      else if (mtd->mask & FAN_Q_OVERFLOW)
-        return result::w_sys_q_overflow;
-      else if (! ev_has_dirname(mtd))
-        return result::w_sys_bad_meta;
+      else if (auto w = ev_warning(mtd); w != result::pending) {
+        auto next = peek(mtd, read_len);
+        read_len -= mtd->event_len;
+        mtd = next;
+        send_msg(w, "", cb);
+      }
       else {
         int ec = 0;
         auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec) return result::w_sys_bad_fd;
-        do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
-        cb(ev);
+        if (ec)
+          send_msg(result::w_sys_bad_fd, "", cb);
+        else {
+          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
+          cb(ev);
+        }
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From e0c309cbe67eefc97cf64dbde8ab999b9b5d9289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 08/40] fix: report failed reads (fanotify), retry interrupted
 ones

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp       |  6 +++---
 .../detail/wtr/watcher/adapter/linux/inotify/watch.hpp |  4 +++-
 include/wtr/watcher.hpp                                | 10 ++++++----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index c0ecb78..e607f8c 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -282,10 +282,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
+  else if (read_len <= 0)
+    return result::pending;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 70f8868..a3fd492 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -368,8 +368,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   { return msk & ke_in_ev::recv_mask && ! is_self_info(msk); };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
+  else if (read_len <= 0)
+    return result::pending;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 5ead4cb..414fba0 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1268,10 +1268,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
-  if (read_len <= 0 && errno != EAGAIN)
-    return result::pending;
-  else if (read_len < 0)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
+  else if (read_len <= 0)
+    return result::pending;
   else
     while (mtd && FAN_EVENT_OK(mtd, read_len))
       if (read_ev_count++ > sr.ke.c_ulim)
@@ -1671,8 +1671,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   { return msk & ke_in_ev::recv_mask && ! is_self_info(msk); };
 
   auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
-  if (read_len < 0 && errno != EAGAIN)
+  if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
+  else if (read_len <= 0)
+    return result::pending;
   else {
     auto const* in_ev = (inotify_event*)(sr.ke.ev_buf);
     auto const* const in_ev_tail = (inotify_event*)(sr.ke.ev_buf + read_len);
-- 
2.43.0


From 7b6464fd8208c1d54b21e85d9ea954462af3725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 09/40] fix: handle an unreadable directory link (fanotify)

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp      | 5 +++++
 include/wtr/watcher.hpp                                      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index e607f8c..25e3d77 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -155,6 +155,11 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 414fba0..ebf4603 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1141,6 +1141,11 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   char fs_ev_pidpath[32] = {0};
   snprintf(fs_ev_pidpath, sizeof(fs_ev_pidpath), "/proc/self/fd/%d", fd);
   file_name_offset = readlink(fs_ev_pidpath, path_buf, path_ulim);
+  if (file_name_offset < 0) {
+    *ec = errno;
+    close(fd);
+    return {};
+  }
   close(fd);
   path_buf[file_name_offset] = 0;
   /*  File name ("Directory entry")
-- 
2.43.0


From f3a0ad00f58cfdd00d79c43942610a86f1942b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 10/40] fix: name removed directories as they were (fanotify)

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp   | 14 +++++++++++++-
 include/wtr/watcher.hpp                            | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 25e3d77..17e71a7 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -16,6 +16,7 @@
 #include <string>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter::fanotify {
@@ -160,8 +161,19 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     close(fd);
     return {};
   }
-  close(fd);
   path_buf[file_name_offset] = 0;
+  /*  The kernel appends this to the path of a
+      directory which was removed since the event
+      happened, but is still in use somewhere. */
+  constexpr char gone[] = " (deleted)";
+  constexpr ssize_t gone_len = sizeof(gone) - 1;
+  struct stat dir_stat;
+  if (
+    file_name_offset > gone_len
+    && strcmp(path_buf + file_name_offset - gone_len, gone) == 0
+    && fstat(fd, &dir_stat) == 0 && dir_stat.st_nlink == 0)
+    path_buf[file_name_offset -= gone_len] = 0;
+  close(fd);
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
       can start writing the file name after its offset. */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index ebf4603..dbbdf9d 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1002,6 +1002,7 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
 #include <string>
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 namespace detail::wtr::watcher::adapter::fanotify {
@@ -1146,8 +1147,19 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
     close(fd);
     return {};
   }
-  close(fd);
   path_buf[file_name_offset] = 0;
+  /*  The kernel appends this to the path of a
+      directory which was removed since the event
+      happened, but is still in use somewhere. */
+  constexpr char gone[] = " (deleted)";
+  constexpr ssize_t gone_len = sizeof(gone) - 1;
+  struct stat dir_stat;
+  if (
+    file_name_offset > gone_len
+    && strcmp(path_buf + file_name_offset - gone_len, gone) == 0
+    && fstat(fd, &dir_stat) == 0 && dir_stat.st_nlink == 0)
+    path_buf[file_name_offset -= gone_len] = 0;
+  close(fd);
   /*  File name ("Directory entry")
       If we wrote the directory name before here, we
       can start writing the file name after its offset. */
-- 
2.43.0


From 3d2f88b93d2c9aac4e57a5c76b1c7220f7c98fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 11/40] fix: number to string conversions of any length

---
 devel/include/wtr/watcher-/event.hpp | 13 ++++++++-----
 include/wtr/watcher.hpp              | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index ce6aaad..65f4c91 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -225,20 +225,23 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  One more than digits10 for the most significant
+      digit, and another for the sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index dbbdf9d..5f8bcd2 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -226,20 +226,23 @@ inline auto num_to_str(long long from) noexcept -> std::basic_string<Char> {
   );
   static_assert(is_narrow_char || is_wide_char);
 
-  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 1;
+  /*  One more than digits10 for the most significant
+      digit, and another for the sign. */
+  static constexpr auto buflen = std::numeric_limits<decltype(from)>::digits10 + 2;
   auto buf = std::array<char, buflen>{0};
-  auto [_, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto [end, ec] = std::to_chars(buf.data(), buf.data() + buf.size(), from);
+  auto len = static_cast<std::size_t>(end - buf.data());
   if (ec != std::errc{}) {
     return {};
   }
   else if constexpr (is_narrow_char) {
-    return {reinterpret_cast<Char const*>(buf.data()), buflen};
+    return {reinterpret_cast<Char const*>(buf.data()), len};
   }
   else if constexpr (is_wide_char) {
     auto xbuf = std::array<Char, buflen>{0};
-    for (std::size_t i = 0; i < buflen; ++i)
+    for (std::size_t i = 0; i < len; ++i)
       xbuf[i] = static_cast<Char>(static_cast<unsigned char>(buf[i]));
-    return {xbuf.data(), buflen};
+    return {xbuf.data(), len};
   }
 };
 
-- 
2.43.0


From 7129ca292188ae50eae0e84f8a32d68532b717cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 12/40] fix: escape path names in serialized events

---
 devel/include/wtr/watcher-/event.hpp | 22 ++++++++++++++++++++--
 include/wtr/watcher.hpp              | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 65f4c91..9286c92 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -172,7 +172,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + escaped(to<Cls>(from.path_name)) + Lit"\"";          \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -183,7 +183,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + escaped(to<Cls>(asc->path_name)) + Lit"\""; \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -195,6 +195,24 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Path names can contain characters which aren't allowed
+    in a json string. */
+template<class Char>
+inline auto escaped(std::basic_string<Char> const& from) noexcept -> std::basic_string<Char> {
+  static constexpr char hex[] = "0123456789abcdef";
+  auto into = std::basic_string<Char>{};
+  for (auto c : from) {
+    auto is_ctrl = static_cast<unsigned long>(c) < 0x20;
+    if (is_ctrl || c == '"' || c == '\\') into += static_cast<Char>('\\');
+    if (is_ctrl) {
+      for (auto x : {'u', '0', '0', hex[c >> 4], hex[c & 0xf]}) into += static_cast<Char>(x);
+    }
+    else
+      into += c;
+  }
+  return into;
+};
+
 /*  For types larger than char and/or char8_t, we can just cast
     each element in our `char` buffer to an `unsigned char`, and
     then zero-extend the elements to any of `wchar_t`, `char16_t`
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 5f8bcd2..ffda4d9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -173,7 +173,7 @@ namespace {
   using Cls = std::basic_string<Char>;                                        \
   auto&& etm = Lit"\"" + to<Cls>(from.effect_time) + Lit"\"";                 \
   auto&& ety = Lit"\"" + to<Cls>(from.effect_type) + Lit"\"";                 \
-  auto&& pnm = Lit"\"" + to<Cls>(from.path_name)   + Lit"\"";                 \
+  auto&& pnm = Lit"\"" + escaped(to<Cls>(from.path_name)) + Lit"\"";          \
   auto&& pty = Lit"\"" + to<Cls>(from.path_type)   + Lit"\"";                 \
   return {                         etm + Lit":{"                              \
          + Lit"\"effect_type\":" + ety + Lit","                               \
@@ -184,7 +184,7 @@ namespace {
               auto asc = from.associated.get();                               \
               auto ttl = Cls{Lit",\"associated\""};                           \
               auto ety = Lit"\"" + to<Cls>(asc->effect_type) + Lit"\"";       \
-              auto pnm = Lit"\"" + to<Cls>(asc->path_name)   + Lit"\"";       \
+              auto pnm = Lit"\"" + escaped(to<Cls>(asc->path_name)) + Lit"\""; \
               auto pty = Lit"\"" + to<Cls>(asc->path_type)   + Lit"\"";       \
               return { ttl                                                    \
                      + Lit":{"                                                \
@@ -196,6 +196,24 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Path names can contain characters which aren't allowed
+    in a json string. */
+template<class Char>
+inline auto escaped(std::basic_string<Char> const& from) noexcept -> std::basic_string<Char> {
+  static constexpr char hex[] = "0123456789abcdef";
+  auto into = std::basic_string<Char>{};
+  for (auto c : from) {
+    auto is_ctrl = static_cast<unsigned long>(c) < 0x20;
+    if (is_ctrl || c == '"' || c == '\\') into += static_cast<Char>('\\');
+    if (is_ctrl) {
+      for (auto x : {'u', '0', '0', hex[c >> 4], hex[c & 0xf]}) into += static_cast<Char>(x);
+    }
+    else
+      into += c;
+  }
+  return into;
+};
+
 /*  For types larger than char and/or char8_t, we can just cast
     each element in our `char` buffer to an `unsigned char`, and
     then zero-extend the elements to any of `wchar_t`, `char16_t`
-- 
2.43.0


From f3a321af76792894d37cff8d42762d577f534706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 13/40] fix: escape path names in the output of the cli

---
 src/wtr/watcher/main.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index b59649c..6cc96f4 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -89,16 +89,31 @@ struct Args {
   }
 };
 
+/*  Path names can contain characters which
+    aren't allowed in a json string. */
+auto escaped(string const& from) -> string
+{
+  auto into = string{};
+  for (unsigned char c : from)
+    if (c == '"' || c == '\\')
+      into += {'\\', (char)c};
+    else if (c < 0x20)
+      into += {'\\', 'u', '0', '0', "01"[c >> 4], "0123456789abcdef"[c & 0xf]};
+    else
+      into += c;
+  return into;
+}
+
 auto json(event const& e) -> string
 {
   auto tails = e.associated
                ? json(*e.associated)
                : "null";
   auto s = [](auto a) { return to<string>(a); };
-  auto q = [&](auto a) { return '"' + s(a) + '"'; };
-  return "{\"path_type\":"   + q(e.path_type)
-       + ",\"path_name\":"   + q(e.path_name)
-       + ",\"effect_type\":" + q(e.effect_type)
+  auto q = [](string a) { return '"' + a + '"'; };
+  return "{\"path_type\":"   + q(s(e.path_type))
+       + ",\"path_name\":"   + q(escaped(s(e.path_name)))
+       + ",\"effect_type\":" + q(s(e.effect_type))
        + ",\"effect_time\":" + s(e.effect_time)
        + ",\"associated\":"  + tails
        + "}";
-- 
2.43.0


From 796dd13cf7af4126e46f2b9913ade95c190f8298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 14/40] fix: escape path names in serialized events (python)

---
 watcher-py/watcher/watcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 3a263d4..838fdf8 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -4,6 +4,7 @@ Filesystem watcher. Simple, efficient and friendly.
 
 from __future__ import annotations
 import ctypes
+import json
 import os
 import sys
 from typing import Callable
@@ -141,10 +142,10 @@ class Event:
     path_type: PathType
 
     def to_json(self) -> str:
-        apn = f'"{self.associated_path_name}"' if self.associated_path_name else "null"
+        apn = json.dumps(self.associated_path_name or None)
         return f'{{\
 "effect_time":{self.effect_time},\
-"path_name":"{self.path_name}",\
+"path_name":{json.dumps(self.path_name)},\
 "associated_path_name":{apn},\
 "effect_type":"{_ET_TO_S[self.effect_type]}",\
 "path_type":"{_PT_TO_S[self.path_type]}"}}'
-- 
2.43.0


From 5ccff298cb28f9c0d6b792ed7c0b813956ff08cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 15/40] fix: deliver events on paths which aren't utf-8
 (python)

---
 watcher-py/watcher/watcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index 838fdf8..c90659e 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -66,9 +66,9 @@ def _as_utf8(s: str | bytes | memoryview | None) -> str:
     if isinstance(s, str):
         return s
     if isinstance(s, memoryview):
-        return s.tobytes().decode("utf-8")
+        return s.tobytes().decode("utf-8", "surrogateescape")
     if isinstance(s, bytes):
-        return s.decode("utf-8")
+        return s.decode("utf-8", "surrogateescape")
     raise TypeError()
 
 
@@ -175,7 +175,7 @@ class Watch:
             callback(py_event)
 
         self._lib = _lazy_static_solib_handle()
-        self._path = path.encode("utf-8")
+        self._path = path.encode("utf-8", "surrogateescape")
         self._c_callback = _CCallback(callback_bridge)
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
-- 
2.43.0


From 43cd3f2e9070672e93670f9b0e581fb2b36f23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 16/40] fix: keep path names which aren't utf-8 (rust)

---
 watcher-rs/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/watcher-rs/src/lib.rs b/watcher-rs/src/lib.rs
index 958063c..104df8c 100644
--- a/watcher-rs/src/lib.rs
+++ b/watcher-rs/src/lib.rs
@@ -7,7 +7,6 @@ use core::ffi::c_void;
 use core::ffi::CStr;
 use core::mem::transmute;
 use core::pin::Pin;
-use core::str;
 use core::task::Context;
 use core::task::Poll;
 use futures::channel::mpsc::unbounded as async_channel;
@@ -53,13 +52,12 @@ pub struct Event {
     pub path_type: PathType,
 }
 
-fn c_chars_as_str<'a>(ptr: *const c_char) -> Option<&'a str> {
+fn c_chars_as_string(ptr: *const c_char) -> Option<String> {
     match ptr.is_null() {
         true => None,
         false => {
             let b = unsafe { CStr::from_ptr(ptr).to_bytes() };
-            let s = str::from_utf8(b).unwrap_or_default();
-            Some(s)
+            Some(String::from_utf8_lossy(b).into_owned())
         }
     }
 }
@@ -93,8 +91,8 @@ fn path_type_from_c(path_type: i8) -> PathType {
 fn ev_from_c<'a>(ev: wtr_watcher_event) -> Event {
     Event {
         effect_time: ev.effect_time,
-        path_name: c_chars_as_str(ev.path_name).unwrap_or_default().to_string(),
-        associated_path_name: c_chars_as_str(ev.associated_path_name).map(str::to_string),
+        path_name: c_chars_as_string(ev.path_name).unwrap_or_default(),
+        associated_path_name: c_chars_as_string(ev.associated_path_name),
         effect_type: effect_type_from_c(ev.effect_type),
         path_type: path_type_from_c(ev.path_type),
     }
-- 
2.43.0


From 3ddf25b6f08fe83906b62a479d163d69c74943be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 17/40] fix: an error, not a crash, on repeated calls to close
 (c)

---
 watcher-c/src/watcher-c.cpp | 52 +++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/watcher-c/src/watcher-c.cpp b/watcher-c/src/watcher-c.cpp
index 52101fe..98a7636 100644
--- a/watcher-c/src/watcher-c.cpp
+++ b/watcher-c/src/watcher-c.cpp
@@ -1,5 +1,8 @@
 #include <cstdint>
 #include <cstdio>
+#include <memory>
+#include <mutex>
+#include <unordered_map>
 #include "wtr/watcher-c.h"
 #include "wtr/watcher.hpp"
 
@@ -9,6 +12,46 @@
 #include <stringapiset.h>
 #endif
 
+namespace {
+
+/*  The watchers which are open, by the handles
+    which we gave to the user. A handle is never
+    reused, so that closing a watcher which has
+    already been closed, or which doesn't exist,
+    is an error (and not something worse).
+    Whatever is still open is left alone on exit. */
+struct open_watchers {
+  using watch = wtr::watcher::watch;
+
+  std::mutex mtx{};
+  std::unordered_map<void*, std::unique_ptr<watch>> open{};
+  uintptr_t last = 0;
+
+  static auto get() -> open_watchers&
+  {
+    static auto& self = *new open_watchers{};
+    return self;
+  }
+
+  auto push(std::unique_ptr<watch> w) -> void*
+  {
+    auto _ = std::lock_guard{this->mtx};
+    auto handle = (void*)++this->last;
+    return this->open.emplace(handle, std::move(w)), handle;
+  }
+
+  auto pop(void* handle) -> std::unique_ptr<watch>
+  {
+    auto _ = std::lock_guard{this->mtx};
+    auto at = this->open.find(handle);
+    if (at == this->open.end()) return nullptr;
+    auto w = std::move(at->second);
+    return this->open.erase(at), std::move(w);
+  }
+};
+
+} /*  namespace */
+
 extern "C" {
 
 #ifdef _WIN32
@@ -63,15 +106,14 @@ void* wtr_watcher_open(
     ev_view.effect_time = ev_owned.effect_time;
     callback(ev_view, context);
   };
-  return (void*)new wtr::watcher::watch(path, wrapped_callback);
+  return open_watchers::get().push(
+    std::make_unique<wtr::watcher::watch>(path, wrapped_callback));
 }
 
 bool wtr_watcher_close(void* watcher)
 {
-  if (! watcher) return false;
-  if (! ((wtr::watcher::watch*)watcher)->close()) return false;
-  delete (wtr::watcher::watch*)watcher;
-  return true;
+  auto w = open_watchers::get().pop(watcher);
+  return w && w->close();
 }
 
 }  // extern "C"
-- 
2.43.0


From 0b2995aa9e09eae18973c35c52955f54f8fea07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 18/40] fix: don't lose events during bursts (nodejs)

---
 watcher-nodejs/lib/watcher-napi.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 62a6af2..780b344 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -79,8 +79,10 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
   event_owned->associated_path_name = event_view.associated_path_name ? strdup(event_view.associated_path_name) : NULL;
   event_owned->effect_type = event_view.effect_type;
   event_owned->path_type = event_view.path_type;
-  if (w->tsfn) {
-    napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking);
+  if (! w->tsfn || napi_call_threadsafe_function(w->tsfn, event_owned, napi_tsfn_nonblocking) != napi_ok) {
+    free((void*)event_owned->path_name);
+    free((void*)event_owned->associated_path_name);
+    free(event_owned);
   }
 #else
     napi_call_threadsafe_function(wrapper->tsfn, &event_view, napi_tsfn_blocking);
@@ -142,7 +144,9 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
   napi_create_reference(env, js_callback, 1, &wrapper->js_callback_ref);
   napi_value work_name;
   napi_create_string_utf8(env, "Watcher", NAPI_AUTO_LENGTH, &work_name);
-  size_t work_queue_size = 1024;
+  /*  Unlimited. We don't block on a full queue,
+      so we would lose events if it had a limit. */
+  size_t work_queue_size = 0;
   napi_create_threadsafe_function(
     env,
     js_callback,
-- 
2.43.0


From cf1107c74737e9b02bf862359b22963ddf0bc132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 19/40] fix: don't overflow on large times (cli)

---
 src/wtr/watcher/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index 6cc96f4..d40903c 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -79,6 +79,8 @@ struct Args {
       auto td = strtod(st, (char**)&stend);
       if (is_help || td == HUGE_VAL || td <= 0)
         return nullopt;
+      else if (td * ttons >= (double)nanoseconds::max().count())
+        return nanoseconds::max();
       else
         return nanoseconds(llroundl(td) * ttons);
     }();
-- 
2.43.0


From 4ece8fd4b87f0b65a71a0ebbe42faef54b508e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 20/40] fix: convert path names which aren't utf-8 to wide
 strings

---
 devel/include/wtr/watcher-/event.hpp | 30 +++++++++++++++++++++++++++-
 include/wtr/watcher.hpp              | 30 +++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/devel/include/wtr/watcher-/event.hpp b/devel/include/wtr/watcher-/event.hpp
index 9286c92..f232005 100644
--- a/devel/include/wtr/watcher-/event.hpp
+++ b/devel/include/wtr/watcher-/event.hpp
@@ -195,6 +195,34 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Path names aren't always valid utf-8, which
+    `path::wstring()` throws on (when it's narrow).
+    We replace what's invalid instead. */
+inline auto path_to_wstr(std::filesystem::path const& from) noexcept -> std::wstring {
+#ifdef _WIN32
+  return from.wstring();
+#else
+  auto into = std::wstring{};
+  auto const& s = from.native();
+  auto at = [&](std::size_t i) { return i < s.size() ? static_cast<unsigned char>(s[i]) : 0u; };
+  for (std::size_t i = 0; i < s.size();) {
+    auto c = at(i);
+    auto len = c < 0x80 ? 1u : c < 0xc2 ? 0u : c < 0xe0 ? 2u : c < 0xf0 ? 3u : c < 0xf5 ? 4u : 0u;
+    auto code = len < 2 ? c : c & (0x7fu >> len);
+    for (auto n = 1u; n < len; ++n) {
+      if ((at(i + n) & 0xc0) != 0x80) len = 0;
+      else code = code << 6 | (at(i + n) & 0x3f);
+    }
+    auto is_valid = len == 1 || len == 2
+                 || (len == 3 && code >= 0x800 && (code < 0xd800 || code > 0xdfff))
+                 || (len == 4 && code >= 0x10000 && code <= 0x10ffff);
+    into += static_cast<wchar_t>(is_valid ? code : 0xfffd);
+    i += is_valid ? len : 1;
+  }
+  return into;
+#endif
+};
+
 /*  Path names can contain characters which aren't allowed
     in a json string. */
 template<class Char>
@@ -323,7 +351,7 @@ template<> inline           auto to<std::basic_string     <char>>   (         ::
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string_view<wchar_t> { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string_view<wchar_t> { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string<wchar_t>      { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
-template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return {                     from.wstring()               };  }
+template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return                 path_to_wstr         (         from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::effect_time)      from) noexcept -> std::basic_string<wchar_t>      { return num_to_str           <wchar_t>(from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string<wchar_t>      { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(         ::wtr::event             const& from) noexcept -> std::basic_string<wchar_t>      { wtr_event_to_str_cls_as_json(wchar_t, from,  L""          );  }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index ffda4d9..0713c24 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -196,6 +196,34 @@ namespace {
          + Lit"}"                                                             \
          };
 
+/*  Path names aren't always valid utf-8, which
+    `path::wstring()` throws on (when it's narrow).
+    We replace what's invalid instead. */
+inline auto path_to_wstr(std::filesystem::path const& from) noexcept -> std::wstring {
+#ifdef _WIN32
+  return from.wstring();
+#else
+  auto into = std::wstring{};
+  auto const& s = from.native();
+  auto at = [&](std::size_t i) { return i < s.size() ? static_cast<unsigned char>(s[i]) : 0u; };
+  for (std::size_t i = 0; i < s.size();) {
+    auto c = at(i);
+    auto len = c < 0x80 ? 1u : c < 0xc2 ? 0u : c < 0xe0 ? 2u : c < 0xf0 ? 3u : c < 0xf5 ? 4u : 0u;
+    auto code = len < 2 ? c : c & (0x7fu >> len);
+    for (auto n = 1u; n < len; ++n) {
+      if ((at(i + n) & 0xc0) != 0x80) len = 0;
+      else code = code << 6 | (at(i + n) & 0x3f);
+    }
+    auto is_valid = len == 1 || len == 2
+                 || (len == 3 && code >= 0x800 && (code < 0xd800 || code > 0xdfff))
+                 || (len == 4 && code >= 0x10000 && code <= 0x10ffff);
+    into += static_cast<wchar_t>(is_valid ? code : 0xfffd);
+    i += is_valid ? len : 1;
+  }
+  return into;
+#endif
+};
+
 /*  Path names can contain characters which aren't allowed
     in a json string. */
 template<class Char>
@@ -324,7 +352,7 @@ template<> inline           auto to<std::basic_string     <char>>   (         ::
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string_view<wchar_t> { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline constexpr auto to<std::basic_string_view<wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string_view<wchar_t> { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::path_type         from) noexcept -> std::basic_string<wchar_t>      { wtr_path_type_to_str_lit(    wchar_t, from,  L""          );  }
-template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return {                     from.wstring()               };  }
+template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::path_name) const& from) noexcept -> std::basic_string<wchar_t>      { return                 path_to_wstr         (         from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(decltype(::wtr::event::effect_time)      from) noexcept -> std::basic_string<wchar_t>      { return num_to_str           <wchar_t>(from                );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(enum     ::wtr::event::effect_type       from) noexcept -> std::basic_string<wchar_t>      { wtr_effect_type_to_str_lit(  wchar_t, from,  L""          );  }
 template<> inline           auto to<std::basic_string     <wchar_t>>(         ::wtr::event             const& from) noexcept -> std::basic_string<wchar_t>      { wtr_event_to_str_cls_as_json(wchar_t, from,  L""          );  }
-- 
2.43.0


From b7fb7837473cf38fd1336bdffb088990d4d25585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 21/40] fix: put both parts of a rename together wherever they
 are (inotify)

---
 .../watcher/adapter/linux/inotify/watch.hpp   | 71 +++++++++++++------
 include/wtr/watcher.hpp                       | 71 +++++++++++++------
 2 files changed, 102 insertions(+), 40 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index a3fd492..ce58c72 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -10,6 +10,7 @@
 #include "wtr/watcher.hpp"
 #include <filesystem>
 #include <limits.h>
+#include <poll.h>
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
@@ -46,6 +47,11 @@ struct ke_in_ev {
   */
   static constexpr unsigned buf_len = 4096;
   static_assert(buf_len > one_ulim * 8, "capacity");
+  /*  Room for an event, beyond the buffer
+      above, in case a batch ends half-way
+      through a rename.
+  */
+  static constexpr unsigned buf_len_ulim = buf_len + one_ulim;
   /*  The upper limit of how many events
       we could possibly read into a buffer
       which is `buf_len` bytes large.
@@ -53,8 +59,8 @@ struct ke_in_ev {
       close to this value, we should
       be skeptical of the `read`.
   */
-  static constexpr unsigned c_ulim = buf_len / sizeof(inotify_event);
-  static_assert(c_ulim == 256);
+  static constexpr unsigned c_ulim = buf_len_ulim / sizeof(inotify_event);
+  static_assert(c_ulim == 273);
   /*  These are the kinds of events which
       we're intersted in. Inotify *should*
       only send us these events, but that's
@@ -89,7 +95,7 @@ struct ke_in_ev {
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
-  alignas(inotify_event) char ev_buf[buf_len]{0};
+  alignas(inotify_event) char ev_buf[buf_len_ulim]{0};
   int rm_wd_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
@@ -213,9 +219,33 @@ inline auto peek = [](
   return next < ev_tail ? next : nullptr;
 };
 
+/*  Reads some events. A rename is two events, and both
+    parts of it should be in one batch for us to put them
+    together. Without the second part at the end of this
+    batch, it's either available (but didn't fit), about
+    to be available (the parts aren't sent atomically), or
+    the path was moved out of our tree. */
+inline auto read_evs = [](ke_in_ev& ke) -> ssize_t
+{
+  auto len = read(ke.fd, ke.ev_buf, ke.buf_len);
+  if (len <= 0) return len;
+  auto const* const tail = (inotify_event*)(ke.ev_buf + len);
+  auto const* last = (inotify_event*)(ke.ev_buf);
+  while (auto next = peek(last, tail)) last = next;
+  auto pfd = pollfd{};
+  pfd.fd = ke.fd;
+  pfd.events = POLLIN;
+  if (last->mask & IN_MOVED_FROM && poll(&pfd, 1, 1) > 0) {
+    auto more = read(ke.fd, ke.ev_buf + len, ke.one_ulim);
+    if (more > 0) len += more;
+  }
+  return len;
+};
+
 struct parsed {
   ::wtr::watcher::event ev;
-  inotify_event* next = nullptr;
+  /*  The other part of a rename */
+  inotify_event* assoc = nullptr;
 };
 
 inline auto parse_ev = [](
@@ -240,20 +270,22 @@ inline auto parse_ev = [](
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
   {
-    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
-        && isknown(b);
+    return b->cookie && b->cookie == a->cookie && b->mask & IN_MOVE
+        && et == ev_et::rename && isknown(b);
   };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
-  auto one = [&](auto* a, auto* next) -> parsed
-  { return {ev(pathof(a), et, pt), next}; };
-  auto assoc = [&](auto* a, auto* b) -> parsed
-  { return {ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)), peek(b, tail)}; };
-  auto next = peek(in, tail);
-  return ! isassoc(in, next) ? one(in, next)
-       : isfromto(in, next)  ? assoc(in, next)
-       : isfromto(next, in)  ? assoc(next, in)
-                             : one(in, next);
+  auto one = [&](auto* a) -> parsed { return {ev(pathof(a), et, pt)}; };
+  auto assoc = [&](auto* a, auto* b, auto* other) -> parsed
+  { return {ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)), other}; };
+  /*  Usually the next event, but others (say,
+      from another process) might be between. */
+  auto next = in->cookie ? peek(in, tail) : nullptr;
+  while (next && ! isassoc(in, next)) next = peek(next, tail);
+  return ! next             ? one(in)
+       : isfromto(in, next) ? assoc(in, next, next)
+       : isfromto(next, in) ? assoc(next, in, next)
+                            : one(in);
 };
 
 struct defer_dm_rm_wd {
@@ -367,7 +399,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   auto is_real_event = [&](unsigned msk) -> bool
   { return msk & ke_in_ev::recv_mask && ! is_self_info(msk); };
 
-  auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
+  auto read_len = read_evs(sr.ke);
   if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
   else if (read_len <= 0)
@@ -378,7 +410,6 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     unsigned in_ev_c = 0;
     auto dmrm = defer_dm_rm_wd{sr.ke};
     while (in_ev && in_ev < in_ev_tail) {
-      auto in_ev_next = peek(in_ev, in_ev_tail);
       unsigned msk = in_ev->mask;
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
@@ -391,7 +422,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (! is_self_info(msk)) send_msg(result::w_sys_phantom, "", cb);
       }
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
+        auto [ev, assoc] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
+        if (assoc) assoc->mask = 0;
         if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
           do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
@@ -400,9 +432,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
           if (to) do_mark_tree(to->c_str(), sr.ke.fd, sr.ke.dm, cb);
         }
         cb(ev);
-        in_ev_next = next;
       }
-      in_ev = in_ev_next;
+      in_ev = peek(in_ev, in_ev_tail);
     }
     return result::pending;
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0713c24..808cbb9 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1379,6 +1379,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 
 #include <filesystem>
 #include <limits.h>
+#include <poll.h>
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
@@ -1415,6 +1416,11 @@ struct ke_in_ev {
   */
   static constexpr unsigned buf_len = 4096;
   static_assert(buf_len > one_ulim * 8, "capacity");
+  /*  Room for an event, beyond the buffer
+      above, in case a batch ends half-way
+      through a rename.
+  */
+  static constexpr unsigned buf_len_ulim = buf_len + one_ulim;
   /*  The upper limit of how many events
       we could possibly read into a buffer
       which is `buf_len` bytes large.
@@ -1422,8 +1428,8 @@ struct ke_in_ev {
       close to this value, we should
       be skeptical of the `read`.
   */
-  static constexpr unsigned c_ulim = buf_len / sizeof(inotify_event);
-  static_assert(c_ulim == 256);
+  static constexpr unsigned c_ulim = buf_len_ulim / sizeof(inotify_event);
+  static_assert(c_ulim == 273);
   /*  These are the kinds of events which
       we're intersted in. Inotify *should*
       only send us these events, but that's
@@ -1458,7 +1464,7 @@ struct ke_in_ev {
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
-  alignas(inotify_event) char ev_buf[buf_len]{0};
+  alignas(inotify_event) char ev_buf[buf_len_ulim]{0};
   int rm_wd_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
@@ -1582,9 +1588,33 @@ inline auto peek = [](
   return next < ev_tail ? next : nullptr;
 };
 
+/*  Reads some events. A rename is two events, and both
+    parts of it should be in one batch for us to put them
+    together. Without the second part at the end of this
+    batch, it's either available (but didn't fit), about
+    to be available (the parts aren't sent atomically), or
+    the path was moved out of our tree. */
+inline auto read_evs = [](ke_in_ev& ke) -> ssize_t
+{
+  auto len = read(ke.fd, ke.ev_buf, ke.buf_len);
+  if (len <= 0) return len;
+  auto const* const tail = (inotify_event*)(ke.ev_buf + len);
+  auto const* last = (inotify_event*)(ke.ev_buf);
+  while (auto next = peek(last, tail)) last = next;
+  auto pfd = pollfd{};
+  pfd.fd = ke.fd;
+  pfd.events = POLLIN;
+  if (last->mask & IN_MOVED_FROM && poll(&pfd, 1, 1) > 0) {
+    auto more = read(ke.fd, ke.ev_buf + len, ke.one_ulim);
+    if (more > 0) len += more;
+  }
+  return len;
+};
+
 struct parsed {
   ::wtr::watcher::event ev;
-  inotify_event* next = nullptr;
+  /*  The other part of a rename */
+  inotify_event* assoc = nullptr;
 };
 
 inline auto parse_ev = [](
@@ -1609,20 +1639,22 @@ inline auto parse_ev = [](
                                  : ev_et::other;
   auto isassoc = [&](auto* a, auto* b) -> bool
   {
-    return b && b->cookie && b->cookie == a->cookie && et == ev_et::rename
-        && isknown(b);
+    return b->cookie && b->cookie == a->cookie && b->mask & IN_MOVE
+        && et == ev_et::rename && isknown(b);
   };
   auto isfromto = [](auto* a, auto* b) -> bool
   { return (a->mask & IN_MOVED_FROM) && (b->mask & IN_MOVED_TO); };
-  auto one = [&](auto* a, auto* next) -> parsed
-  { return {ev(pathof(a), et, pt), next}; };
-  auto assoc = [&](auto* a, auto* b) -> parsed
-  { return {ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)), peek(b, tail)}; };
-  auto next = peek(in, tail);
-  return ! isassoc(in, next) ? one(in, next)
-       : isfromto(in, next)  ? assoc(in, next)
-       : isfromto(next, in)  ? assoc(next, in)
-                             : one(in, next);
+  auto one = [&](auto* a) -> parsed { return {ev(pathof(a), et, pt)}; };
+  auto assoc = [&](auto* a, auto* b, auto* other) -> parsed
+  { return {ev(ev(pathof(a), et, pt), ev(pathof(b), et, pt)), other}; };
+  /*  Usually the next event, but others (say,
+      from another process) might be between. */
+  auto next = in->cookie ? peek(in, tail) : nullptr;
+  while (next && ! isassoc(in, next)) next = peek(next, tail);
+  return ! next             ? one(in)
+       : isfromto(in, next) ? assoc(in, next, next)
+       : isfromto(next, in) ? assoc(next, in, next)
+                            : one(in);
 };
 
 struct defer_dm_rm_wd {
@@ -1736,7 +1768,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
   auto is_real_event = [&](unsigned msk) -> bool
   { return msk & ke_in_ev::recv_mask && ! is_self_info(msk); };
 
-  auto read_len = read(sr.ke.fd, sr.ke.ev_buf, sizeof(sr.ke.ev_buf));
+  auto read_len = read_evs(sr.ke);
   if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
   else if (read_len <= 0)
@@ -1747,7 +1779,6 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
     unsigned in_ev_c = 0;
     auto dmrm = defer_dm_rm_wd{sr.ke};
     while (in_ev && in_ev < in_ev_tail) {
-      auto in_ev_next = peek(in_ev, in_ev_tail);
       unsigned msk = in_ev->mask;
       auto dmhit = sr.ke.dm.find(in_ev->wd);
       if (in_ev_c++ > ke_in_ev::c_ulim)
@@ -1760,7 +1791,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         if (! is_self_info(msk)) send_msg(result::w_sys_phantom, "", cb);
       }
       else if (is_real_event(msk)) {
-        auto [ev, next] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
+        auto [ev, assoc] = parse_ev(sr.ke.dm, in_ev, in_ev_tail);
+        if (assoc) assoc->mask = 0;
         if (msk & IN_ISDIR && msk & (IN_CREATE | IN_MOVED_TO))
           do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
@@ -1769,9 +1801,8 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
           if (to) do_mark_tree(to->c_str(), sr.ke.fd, sr.ke.dm, cb);
         }
         cb(ev);
-        in_ev_next = next;
       }
-      in_ev = in_ev_next;
+      in_ev = peek(in_ev, in_ev_tail);
     }
     return result::pending;
   }
-- 
2.43.0


From f62379284399fe255c9162a5f5c1826a9b10c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 22/40] fix: put both parts of a rename together after another
 path left (inotify)

---
 .../wtr/watcher/adapter/linux/inotify/watch.hpp     | 13 +++++++------
 include/wtr/watcher.hpp                             | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index ce58c72..fb4bc26 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -229,17 +229,18 @@ inline auto read_evs = [](ke_in_ev& ke) -> ssize_t
 {
   auto len = read(ke.fd, ke.ev_buf, ke.buf_len);
   if (len <= 0) return len;
-  auto const* const tail = (inotify_event*)(ke.ev_buf + len);
   auto const* last = (inotify_event*)(ke.ev_buf);
-  while (auto next = peek(last, tail)) last = next;
   auto pfd = pollfd{};
   pfd.fd = ke.fd;
   pfd.events = POLLIN;
-  if (last->mask & IN_MOVED_FROM && poll(&pfd, 1, 1) > 0) {
-    auto more = read(ke.fd, ke.ev_buf + len, ke.one_ulim);
-    if (more > 0) len += more;
+  for (;;) {
+    auto const* const tail = (inotify_event*)(ke.ev_buf + len);
+    while (auto next = peek(last, tail)) last = next;
+    if (! (last->mask & IN_MOVED_FROM) || poll(&pfd, 1, 1) <= 0) return len;
+    auto more = read(ke.fd, ke.ev_buf + len, ke.buf_len_ulim - len);
+    if (more <= 0) return len;
+    len += more;
   }
-  return len;
 };
 
 struct parsed {
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 808cbb9..c62700a 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1598,17 +1598,18 @@ inline auto read_evs = [](ke_in_ev& ke) -> ssize_t
 {
   auto len = read(ke.fd, ke.ev_buf, ke.buf_len);
   if (len <= 0) return len;
-  auto const* const tail = (inotify_event*)(ke.ev_buf + len);
   auto const* last = (inotify_event*)(ke.ev_buf);
-  while (auto next = peek(last, tail)) last = next;
   auto pfd = pollfd{};
   pfd.fd = ke.fd;
   pfd.events = POLLIN;
-  if (last->mask & IN_MOVED_FROM && poll(&pfd, 1, 1) > 0) {
-    auto more = read(ke.fd, ke.ev_buf + len, ke.one_ulim);
-    if (more > 0) len += more;
+  for (;;) {
+    auto const* const tail = (inotify_event*)(ke.ev_buf + len);
+    while (auto next = peek(last, tail)) last = next;
+    if (! (last->mask & IN_MOVED_FROM) || poll(&pfd, 1, 1) <= 0) return len;
+    auto more = read(ke.fd, ke.ev_buf + len, ke.buf_len_ulim - len);
+    if (more <= 0) return len;
+    len += more;
   }
-  return len;
 };
 
 struct parsed {
-- 
2.43.0


From b62c4f0355e4cf961555b129299b14ff995df510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 23/40] fix: don't run out of stack or file descriptors on deep
 trees

---
 .../wtr/watcher/adapter/linux/sysres.hpp      | 33 ++++++++++++-------
 include/wtr/watcher.hpp                       | 33 ++++++++++++-------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 5d6a7ba..1f5e811 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -15,6 +15,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter {
 
@@ -151,19 +152,27 @@ inline auto is_dir(char const* const path) -> bool
 template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
-  if (DIR* d = opendir(path)) {
-    f(path);
-    while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
-      if (strcmp(de->d_name, ".") == 0) continue;
-      if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+  /*  Not recursive. A deep tree would run us
+      out of stack or file descriptors. */
+  auto todo = std::vector<std::string>{path};
+  while (! todo.empty()) {
+    auto const at = std::move(todo.back());
+    todo.pop_back();
+    if (DIR* d = opendir(at.c_str())) {
+      f(at.c_str());
+      while (dirent* de = readdir(d)) {
+        char next[PATH_MAX];
+        char real[PATH_MAX];
+        if (de->d_type != DT_DIR) continue;
+        if (strcmp(de->d_name, ".") == 0) continue;
+        if (strcmp(de->d_name, "..") == 0) continue;
+        if (snprintf(next, PATH_MAX, "%s/%s", at.c_str(), de->d_name) <= 0)
+          continue;
+        if (! realpath(next, real)) continue;
+        todo.emplace_back(real);
+      }
+      (void)closedir(d);
     }
-    (void)closedir(d);
   }
 }
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index c62700a..66eb1a5 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -880,6 +880,7 @@ inline auto watch(
 #include <sys/types.h>
 #include <unistd.h>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter {
 
@@ -1016,19 +1017,27 @@ inline auto is_dir(char const* const path) -> bool
 template<class Fn>
 inline auto walkdir_do(char const* const path, Fn const& f) -> void
 {
-  if (DIR* d = opendir(path)) {
-    f(path);
-    while (dirent* de = readdir(d)) {
-      char next[PATH_MAX];
-      char real[PATH_MAX];
-      if (de->d_type != DT_DIR) continue;
-      if (strcmp(de->d_name, ".") == 0) continue;
-      if (strcmp(de->d_name, "..") == 0) continue;
-      if (snprintf(next, PATH_MAX, "%s/%s", path, de->d_name) <= 0) continue;
-      if (! realpath(next, real)) continue;
-      walkdir_do(real, f);
+  /*  Not recursive. A deep tree would run us
+      out of stack or file descriptors. */
+  auto todo = std::vector<std::string>{path};
+  while (! todo.empty()) {
+    auto const at = std::move(todo.back());
+    todo.pop_back();
+    if (DIR* d = opendir(at.c_str())) {
+      f(at.c_str());
+      while (dirent* de = readdir(d)) {
+        char next[PATH_MAX];
+        char real[PATH_MAX];
+        if (de->d_type != DT_DIR) continue;
+        if (strcmp(de->d_name, ".") == 0) continue;
+        if (strcmp(de->d_name, "..") == 0) continue;
+        if (snprintf(next, PATH_MAX, "%s/%s", at.c_str(), de->d_name) <= 0)
+          continue;
+        if (! realpath(next, real)) continue;
+        todo.emplace_back(real);
+      }
+      (void)closedir(d);
     }
-    (void)closedir(d);
   }
 }
 
-- 
2.43.0


From 944e967741d83306bc50e9559f65eedbb91fc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 24/40] fix: warn about, and look below, directories which
 can't be watched

A directory which couldn't be opened or resolved while walking a tree was
skipped silently. When one which appeared couldn't be marked, nothing below
it was looked at.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 33 +++++-----
 .../watcher/adapter/linux/inotify/watch.hpp   | 17 ++---
 .../wtr/watcher/adapter/linux/sysres.hpp      | 14 ++--
 include/wtr/watcher.hpp                       | 64 +++++++++----------
 4 files changed, 60 insertions(+), 68 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 17e71a7..f20afc1 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -84,6 +84,19 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory, and whatever is inside of it.
+    One which just appeared in our tree may have been
+    moved here with its content, or have had content
+    created before we marked it. */
+inline auto do_mark_tree =
+  [](char const* const dirpath, int fa_fd, auto const& cb) -> void
+{
+  walkdir_do(
+    dirpath,
+    [&](auto dir) { do_mark(dir, fa_fd, cb); },
+    [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
+};
+
 /*  Grabs the resources we need from `fanotify`
     and `epoll`. Marks itself invalid on errors,
     sends diagnostics on warnings and errors.
@@ -96,7 +109,7 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  do_mark_tree(base_path, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -236,29 +249,15 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                     : one(m);
 }
 
-/*  Marks a directory which appeared in our tree,
-    and whatever is already inside of it: It may
-    have been moved here with its content, or have
-    had content created before we marked it. */
 inline auto do_mark_if_newdir =
   [](
     ::wtr::watcher::event const& ev,
     unsigned long long mask,
     int fa_fd,
-    auto const& cb) -> result
+    auto const& cb) -> void
 {
   auto is_newdir = mask & FAN_ONDIR && mask & (FAN_CREATE | FAN_MOVED_TO);
-  if (! is_newdir) return result::complete;
-  auto dirpath = ev.path_name.c_str();
-  auto r = do_mark(dirpath, fa_fd, cb);
-  if (r == result::complete)
-    walkdir_do(
-      dirpath,
-      [&](auto dir)
-      {
-        if (strcmp(dir, dirpath) != 0) do_mark(dir, fa_fd, cb);
-      });
-  return r;
+  if (is_newdir) do_mark_tree(ev.path_name.c_str(), fa_fd, cb);
 };
 
 /*  Read some events from what fanotify gives
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index fb4bc26..77b995e 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -124,20 +124,17 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
-/*  Marks a directory which appeared in our tree,
-    and whatever is already inside of it: It may
-    have been moved here with its content, or have
-    had content created before we marked it. */
+/*  Marks a directory, and whatever is inside of it.
+    One which just appeared in our tree may have been
+    moved here with its content, or have had content
+    created before we marked it. */
 inline auto do_mark_tree =
   [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> void
 {
-  if (do_mark(dirpath, dirfd, dm, cb) != result::complete) return;
   walkdir_do(
     dirpath,
-    [&](auto dir)
-    {
-      if (strcmp(dir, dirpath) != 0) do_mark(dir, dirfd, dm, cb);
-    });
+    [&](auto dir) { do_mark(dir, dirfd, dm, cb); },
+    [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
 };
 
 /*  Inotify's watches follow a directory when it is
@@ -182,7 +179,7 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    do_mark_tree(base_path, in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
index 1f5e811..104c143 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp
@@ -149,8 +149,9 @@ inline auto is_dir(char const* const path) -> bool
     hot find-and-mark path, despite
     not having a full picture.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class ErrFn>
+inline auto
+walkdir_do(char const* const path, Fn const& f, ErrFn const& on_err) -> void
 {
   /*  Not recursive. A deep tree would run us
       out of stack or file descriptors. */
@@ -161,18 +162,17 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     if (DIR* d = opendir(at.c_str())) {
       f(at.c_str());
       while (dirent* de = readdir(d)) {
-        char next[PATH_MAX];
         char real[PATH_MAX];
         if (de->d_type != DT_DIR) continue;
         if (strcmp(de->d_name, ".") == 0) continue;
         if (strcmp(de->d_name, "..") == 0) continue;
-        if (snprintf(next, PATH_MAX, "%s/%s", at.c_str(), de->d_name) <= 0)
-          continue;
-        if (! realpath(next, real)) continue;
-        todo.emplace_back(real);
+        auto next = at + '/' + de->d_name;
+        todo.emplace_back(realpath(next.c_str(), real) ? real : next);
       }
       (void)closedir(d);
     }
+    else
+      on_err(at.c_str());
   }
 }
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 66eb1a5..0291aeb 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1014,8 +1014,9 @@ inline auto is_dir(char const* const path) -> bool
     hot find-and-mark path, despite
     not having a full picture.
 */
-template<class Fn>
-inline auto walkdir_do(char const* const path, Fn const& f) -> void
+template<class Fn, class ErrFn>
+inline auto
+walkdir_do(char const* const path, Fn const& f, ErrFn const& on_err) -> void
 {
   /*  Not recursive. A deep tree would run us
       out of stack or file descriptors. */
@@ -1026,18 +1027,17 @@ inline auto walkdir_do(char const* const path, Fn const& f) -> void
     if (DIR* d = opendir(at.c_str())) {
       f(at.c_str());
       while (dirent* de = readdir(d)) {
-        char next[PATH_MAX];
         char real[PATH_MAX];
         if (de->d_type != DT_DIR) continue;
         if (strcmp(de->d_name, ".") == 0) continue;
         if (strcmp(de->d_name, "..") == 0) continue;
-        if (snprintf(next, PATH_MAX, "%s/%s", at.c_str(), de->d_name) <= 0)
-          continue;
-        if (! realpath(next, real)) continue;
-        todo.emplace_back(real);
+        auto next = at + '/' + de->d_name;
+        todo.emplace_back(realpath(next.c_str(), real) ? real : next);
       }
       (void)closedir(d);
     }
+    else
+      on_err(at.c_str());
   }
 }
 
@@ -1128,6 +1128,19 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
+/*  Marks a directory, and whatever is inside of it.
+    One which just appeared in our tree may have been
+    moved here with its content, or have had content
+    created before we marked it. */
+inline auto do_mark_tree =
+  [](char const* const dirpath, int fa_fd, auto const& cb) -> void
+{
+  walkdir_do(
+    dirpath,
+    [&](auto dir) { do_mark(dir, fa_fd, cb); },
+    [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
+};
+
 /*  Grabs the resources we need from `fanotify`
     and `epoll`. Marks itself invalid on errors,
     sends diagnostics on warnings and errors.
@@ -1140,7 +1153,7 @@ inline auto make_sysres = [](
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  walkdir_do(base_path, [&](auto dir) { do_mark(dir, fa_fd, cb); });
+  do_mark_tree(base_path, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
   if (ep.fd < 1)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
@@ -1280,29 +1293,15 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                     : one(m);
 }
 
-/*  Marks a directory which appeared in our tree,
-    and whatever is already inside of it: It may
-    have been moved here with its content, or have
-    had content created before we marked it. */
 inline auto do_mark_if_newdir =
   [](
     ::wtr::watcher::event const& ev,
     unsigned long long mask,
     int fa_fd,
-    auto const& cb) -> result
+    auto const& cb) -> void
 {
   auto is_newdir = mask & FAN_ONDIR && mask & (FAN_CREATE | FAN_MOVED_TO);
-  if (! is_newdir) return result::complete;
-  auto dirpath = ev.path_name.c_str();
-  auto r = do_mark(dirpath, fa_fd, cb);
-  if (r == result::complete)
-    walkdir_do(
-      dirpath,
-      [&](auto dir)
-      {
-        if (strcmp(dir, dirpath) != 0) do_mark(dir, fa_fd, cb);
-      });
-  return r;
+  if (is_newdir) do_mark_tree(ev.path_name.c_str(), fa_fd, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1502,20 +1501,17 @@ inline auto do_mark =
     return send_msg(e, dirpath, cb), e;
 };
 
-/*  Marks a directory which appeared in our tree,
-    and whatever is already inside of it: It may
-    have been moved here with its content, or have
-    had content created before we marked it. */
+/*  Marks a directory, and whatever is inside of it.
+    One which just appeared in our tree may have been
+    moved here with its content, or have had content
+    created before we marked it. */
 inline auto do_mark_tree =
   [](char const* const dirpath, int dirfd, auto& dm, auto const& cb) -> void
 {
-  if (do_mark(dirpath, dirfd, dm, cb) != result::complete) return;
   walkdir_do(
     dirpath,
-    [&](auto dir)
-    {
-      if (strcmp(dir, dirpath) != 0) do_mark(dir, dirfd, dm, cb);
-    });
+    [&](auto dir) { do_mark(dir, dirfd, dm, cb); },
+    [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
 };
 
 /*  Inotify's watches follow a directory when it is
@@ -1560,7 +1556,7 @@ inline auto make_sysres = [](
   {
     auto dm = ke_in_ev::paths{};
     if (*ok >= result::e) return dm;
-    walkdir_do(base_path, [&](auto dir) { do_mark(dir, in_fd, dm, cb); });
+    do_mark_tree(base_path, in_fd, dm, cb);
     if (dm.empty()) *ok = result::e_self_noent;
     return dm;
   };
-- 
2.43.0


From 0d919f2f3f541560d36fb15ac23407f5f5cc40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 25/40] fix: deliver the good half of a rename whose other half
 is odd (fanotify)

---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 75 +++++++++++--------
 include/wtr/watcher.hpp                       | 75 +++++++++++--------
 2 files changed, 90 insertions(+), 60 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index f20afc1..0657067 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -212,14 +212,32 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
     return nullptr;
 }
 
+/*  What's odd about an event, if something is. The
+    information about its directory and name may be
+    of some other kind, or may not be there at all. */
+inline auto oddity(fanotify_event_metadata const* const m) -> result
+{
+  constexpr auto min_len = sizeof(*m) + sizeof(fanotify_event_info_fid);
+  auto info = (fanotify_event_info_fid*)(m + 1);
+  auto has_dirname = m->event_len >= min_len
+                  && info->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME;
+  return m->fd != FAN_NOFD        ? result::w_sys_bad_fd
+       : m->mask & FAN_Q_OVERFLOW ? result::w_sys_q_overflow
+       : ! has_dirname            ? result::w_sys_bad_meta
+                                  : result::pending;
+}
+
 struct Parsed {
   ::wtr::watcher::event ev;
   fanotify_event_metadata const* next = nullptr;
   unsigned this_len = 0;
+  unsigned long long mask = 0;
 };
 
+/*  The error codes are those of this event and, if
+    they are both parts of one rename, of the next. */
 inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
+parse_ev(fanotify_event_metadata const* const m, size_t read_len, int (&ec)[2])
   -> Parsed
 {
   using ev = ::wtr::watcher::event;
@@ -234,19 +252,28 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                  : ev_et::other;
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
-  auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  auto one = [&]() -> Parsed
+  { return {ev(pathof(m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
+  /*  Half of a rename is still an event if there's
+      something wrong with the other half. */
+  auto assoc = [&](bool m_to_n) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    auto mev = ev(pathof(m, &ec[0]), et, pt);
+    auto nev = ev(pathof(n, &ec[1]), et, pt);
+    auto e = ec[0]  ? nev
+           : ec[1]  ? mev
+           : m_to_n ? ev(mev, ev(nev))
+                    : ev(nev, ev(mev));
+    return {e, nn, here_to_nnn, ec[0] ? n->mask : m->mask};
   };
-  return ! n                        ? one(m)
-       : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
-                                    : one(m);
+  bool n_ok = n && n->vers == FANOTIFY_METADATA_VERSION
+           && oddity(n) == result::pending;
+  return ! n_ok                     ? one()
+       : isfromto(m->mask, n->mask) ? assoc(true)
+       : isfromto(n->mask, m->mask) ? assoc(false)
+                                    : one();
 }
 
 inline auto do_mark_if_newdir =
@@ -283,18 +310,6 @@ inline auto do_mark_if_newdir =
     version we were compiled with. */
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
-  auto ev_info = [](fanotify_event_metadata const* const m)
-  { return (fanotify_event_info_fid*)(m + 1); };
-  auto ev_has_dirname = [&](fanotify_event_metadata const* const m) -> bool
-  { return ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME; };
-  auto ev_warning = [&](fanotify_event_metadata const* const m) -> result
-  {
-    return m->fd != FAN_NOFD        ? result::w_sys_bad_fd
-         : m->mask & FAN_Q_OVERFLOW ? result::w_sys_q_overflow
-         : ! ev_has_dirname(m)      ? result::w_sys_bad_meta
-                                    : result::pending;
-  };
-
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
@@ -308,21 +323,21 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
-      else if (auto w = ev_warning(mtd); w != result::pending) {
+      else if (auto w = oddity(mtd); w != result::pending) {
         auto next = peek(mtd, read_len);
         read_len -= mtd->event_len;
         mtd = next;
         send_msg(w, "", cb);
       }
       else {
-        int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec)
-          send_msg(result::w_sys_bad_fd, "", cb);
-        else {
-          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
+        int ec[2]{0, 0};
+        auto [ev, n, l, mask] = parse_ev(mtd, read_len, ec);
+        if (ec[0]) send_msg(result::w_sys_bad_fd, "", cb);
+        if (! ev.path_name.empty()) {
+          do_mark_if_newdir(ev, mask, sr.ke.fd, cb);
           cb(ev);
         }
+        if (ec[1]) send_msg(result::w_sys_bad_fd, "", cb);
         mtd = n;
         read_len -= l;
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 0291aeb..19e903b 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1256,14 +1256,32 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
     return nullptr;
 }
 
+/*  What's odd about an event, if something is. The
+    information about its directory and name may be
+    of some other kind, or may not be there at all. */
+inline auto oddity(fanotify_event_metadata const* const m) -> result
+{
+  constexpr auto min_len = sizeof(*m) + sizeof(fanotify_event_info_fid);
+  auto info = (fanotify_event_info_fid*)(m + 1);
+  auto has_dirname = m->event_len >= min_len
+                  && info->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME;
+  return m->fd != FAN_NOFD        ? result::w_sys_bad_fd
+       : m->mask & FAN_Q_OVERFLOW ? result::w_sys_q_overflow
+       : ! has_dirname            ? result::w_sys_bad_meta
+                                  : result::pending;
+}
+
 struct Parsed {
   ::wtr::watcher::event ev;
   fanotify_event_metadata const* next = nullptr;
   unsigned this_len = 0;
+  unsigned long long mask = 0;
 };
 
+/*  The error codes are those of this event and, if
+    they are both parts of one rename, of the next. */
 inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
+parse_ev(fanotify_event_metadata const* const m, size_t read_len, int (&ec)[2])
   -> Parsed
 {
   using ev = ::wtr::watcher::event;
@@ -1278,19 +1296,28 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int* ec)
                                  : ev_et::other;
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
-  auto one = [&](auto* m) -> Parsed
-  { return {ev(pathof(m, ec), et, pt), n, m->event_len}; };
-  auto assoc = [&](auto* m, auto* n) -> Parsed
+  auto one = [&]() -> Parsed
+  { return {ev(pathof(m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
+  /*  Half of a rename is still an event if there's
+      something wrong with the other half. */
+  auto assoc = [&](bool m_to_n) -> Parsed
   {
-    auto nn = peek(n, read_len);
+    auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto e = ev(ev(pathof(m, ec), et, pt), ev(pathof(n, ec), et, pt));
-    return {e, nn, here_to_nnn};
+    auto mev = ev(pathof(m, &ec[0]), et, pt);
+    auto nev = ev(pathof(n, &ec[1]), et, pt);
+    auto e = ec[0]  ? nev
+           : ec[1]  ? mev
+           : m_to_n ? ev(mev, ev(nev))
+                    : ev(nev, ev(mev));
+    return {e, nn, here_to_nnn, ec[0] ? n->mask : m->mask};
   };
-  return ! n                        ? one(m)
-       : isfromto(m->mask, n->mask) ? assoc(m, n)
-       : isfromto(n->mask, m->mask) ? assoc(n, m)
-                                    : one(m);
+  bool n_ok = n && n->vers == FANOTIFY_METADATA_VERSION
+           && oddity(n) == result::pending;
+  return ! n_ok                     ? one()
+       : isfromto(m->mask, n->mask) ? assoc(true)
+       : isfromto(n->mask, m->mask) ? assoc(false)
+                                    : one();
 }
 
 inline auto do_mark_if_newdir =
@@ -1327,18 +1354,6 @@ inline auto do_mark_if_newdir =
     version we were compiled with. */
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
-  auto ev_info = [](fanotify_event_metadata const* const m)
-  { return (fanotify_event_info_fid*)(m + 1); };
-  auto ev_has_dirname = [&](fanotify_event_metadata const* const m) -> bool
-  { return ev_info(m)->hdr.info_type == FAN_EVENT_INFO_TYPE_DFID_NAME; };
-  auto ev_warning = [&](fanotify_event_metadata const* const m) -> result
-  {
-    return m->fd != FAN_NOFD        ? result::w_sys_bad_fd
-         : m->mask & FAN_Q_OVERFLOW ? result::w_sys_q_overflow
-         : ! ev_has_dirname(m)      ? result::w_sys_bad_meta
-                                    : result::pending;
-  };
-
   unsigned read_ev_count = 0;
   int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
@@ -1352,21 +1367,21 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         return result::e_sys_ret;
       else if (mtd->vers != FANOTIFY_METADATA_VERSION)
         return result::e_sys_lim_kernel_version;
-      else if (auto w = ev_warning(mtd); w != result::pending) {
+      else if (auto w = oddity(mtd); w != result::pending) {
         auto next = peek(mtd, read_len);
         read_len -= mtd->event_len;
         mtd = next;
         send_msg(w, "", cb);
       }
       else {
-        int ec = 0;
-        auto [ev, n, l] = parse_ev(mtd, read_len, &ec);
-        if (ec)
-          send_msg(result::w_sys_bad_fd, "", cb);
-        else {
-          do_mark_if_newdir(ev, mtd->mask, sr.ke.fd, cb);
+        int ec[2]{0, 0};
+        auto [ev, n, l, mask] = parse_ev(mtd, read_len, ec);
+        if (ec[0]) send_msg(result::w_sys_bad_fd, "", cb);
+        if (! ev.path_name.empty()) {
+          do_mark_if_newdir(ev, mask, sr.ke.fd, cb);
           cb(ev);
         }
+        if (ec[1]) send_msg(result::w_sys_bad_fd, "", cb);
         mtd = n;
         read_len -= l;
       }
-- 
2.43.0


From afb0a37956c3a3d6b127e781ced931fd6bc72710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 26/40] fix: pair only the parts of a rename which can be of
 one (fanotify)

---
 .../wtr/watcher/adapter/linux/fanotify/watch.hpp  | 15 +++++++--------
 include/wtr/watcher.hpp                           | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 0657067..c3f5787 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -256,23 +256,22 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int (&ec)[2])
   { return {ev(pathof(m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
   /*  Half of a rename is still an event if there's
       something wrong with the other half. */
-  auto assoc = [&](bool m_to_n) -> Parsed
+  auto assoc = [&]() -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto mev = ev(pathof(m, &ec[0]), et, pt);
     auto nev = ev(pathof(n, &ec[1]), et, pt);
-    auto e = ec[0]  ? nev
-           : ec[1]  ? mev
-           : m_to_n ? ev(mev, ev(nev))
-                    : ev(nev, ev(mev));
+    auto e = ec[0] ? nev : ec[1] ? mev : ev(mev, ev(nev));
     return {e, nn, here_to_nnn, ec[0] ? n->mask : m->mask};
   };
+  /*  The parts of a rename come in this order, and
+      a file doesn't become a directory. */
   bool n_ok = n && n->vers == FANOTIFY_METADATA_VERSION
-           && oddity(n) == result::pending;
+           && oddity(n) == result::pending
+           && (m->mask & FAN_ONDIR) == (n->mask & FAN_ONDIR);
   return ! n_ok                     ? one()
-       : isfromto(m->mask, n->mask) ? assoc(true)
-       : isfromto(n->mask, m->mask) ? assoc(false)
+       : isfromto(m->mask, n->mask) ? assoc()
                                     : one();
 }
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 19e903b..69fee2f 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1300,23 +1300,22 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int (&ec)[2])
   { return {ev(pathof(m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
   /*  Half of a rename is still an event if there's
       something wrong with the other half. */
-  auto assoc = [&](bool m_to_n) -> Parsed
+  auto assoc = [&]() -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto mev = ev(pathof(m, &ec[0]), et, pt);
     auto nev = ev(pathof(n, &ec[1]), et, pt);
-    auto e = ec[0]  ? nev
-           : ec[1]  ? mev
-           : m_to_n ? ev(mev, ev(nev))
-                    : ev(nev, ev(mev));
+    auto e = ec[0] ? nev : ec[1] ? mev : ev(mev, ev(nev));
     return {e, nn, here_to_nnn, ec[0] ? n->mask : m->mask};
   };
+  /*  The parts of a rename come in this order, and
+      a file doesn't become a directory. */
   bool n_ok = n && n->vers == FANOTIFY_METADATA_VERSION
-           && oddity(n) == result::pending;
+           && oddity(n) == result::pending
+           && (m->mask & FAN_ONDIR) == (n->mask & FAN_ONDIR);
   return ! n_ok                     ? one()
-       : isfromto(m->mask, n->mask) ? assoc(true)
-       : isfromto(n->mask, m->mask) ? assoc(false)
+       : isfromto(m->mask, n->mask) ? assoc()
                                     : one();
 }
 
-- 
2.43.0


From 7968ab3517ee508faf26c18fb87fca70f4bb0692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:16 +0000
Subject: [PATCH 27/40] fix: put both parts of a rename together in long bursts
 (inotify)

A batch which was topped up, because it ended half-way through a rename,
could end half-way through another one.
---
 .../watcher/adapter/linux/inotify/watch.hpp   | 36 ++++++++++---------
 include/wtr/watcher.hpp                       | 36 ++++++++++---------
 2 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 77b995e..23d2d58 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -47,11 +47,6 @@ struct ke_in_ev {
   */
   static constexpr unsigned buf_len = 4096;
   static_assert(buf_len > one_ulim * 8, "capacity");
-  /*  Room for an event, beyond the buffer
-      above, in case a batch ends half-way
-      through a rename.
-  */
-  static constexpr unsigned buf_len_ulim = buf_len + one_ulim;
   /*  The upper limit of how many events
       we could possibly read into a buffer
       which is `buf_len` bytes large.
@@ -59,8 +54,8 @@ struct ke_in_ev {
       close to this value, we should
       be skeptical of the `read`.
   */
-  static constexpr unsigned c_ulim = buf_len_ulim / sizeof(inotify_event);
-  static_assert(c_ulim == 273);
+  static constexpr unsigned c_ulim = buf_len / sizeof(inotify_event);
+  static_assert(c_ulim == 256);
   /*  These are the kinds of events which
       we're intersted in. Inotify *should*
       only send us these events, but that's
@@ -95,7 +90,10 @@ struct ke_in_ev {
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
-  alignas(inotify_event) char ev_buf[buf_len_ulim]{0};
+  alignas(inotify_event) char ev_buf[buf_len]{0};
+  /*  An event at the end of the last batch (half of a
+      rename) which we'll start the next batch with. */
+  inotify_event const* held = nullptr;
   int rm_wd_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
@@ -219,24 +217,30 @@ inline auto peek = [](
 /*  Reads some events. A rename is two events, and both
     parts of it should be in one batch for us to put them
     together. Without the second part at the end of this
-    batch, it's either available (but didn't fit), about
-    to be available (the parts aren't sent atomically), or
-    the path was moved out of our tree. */
+    batch, it's either available (but might not fit, so
+    we'll hold the first part back for the next batch),
+    about to be available (the parts aren't sent
+    atomically), or the path was moved out of our tree. */
 inline auto read_evs = [](ke_in_ev& ke) -> ssize_t
 {
-  auto len = read(ke.fd, ke.ev_buf, ke.buf_len);
-  if (len <= 0) return len;
+  auto lenof = [](auto* ev) { return (ssize_t)(sizeof(*ev) + ev->len); };
+  ssize_t len = ke.held ? lenof(ke.held) : 0;
+  if (len) memmove(ke.ev_buf, ke.held, len);
   auto const* last = (inotify_event*)(ke.ev_buf);
+  ke.held = len ? last : nullptr;
   auto pfd = pollfd{};
   pfd.fd = ke.fd;
   pfd.events = POLLIN;
   for (;;) {
+    auto more = read(ke.fd, ke.ev_buf + len, ke.buf_len - len);
+    if (more <= 0) return ke.held || ! len ? more : len;
+    ke.held = nullptr;
+    len += more;
     auto const* const tail = (inotify_event*)(ke.ev_buf + len);
     while (auto next = peek(last, tail)) last = next;
     if (! (last->mask & IN_MOVED_FROM) || poll(&pfd, 1, 1) <= 0) return len;
-    auto more = read(ke.fd, ke.ev_buf + len, ke.buf_len_ulim - len);
-    if (more <= 0) return len;
-    len += more;
+    if (ke.buf_len - len < ke.one_ulim)
+      return ke.held = last, len - lenof(last);
   }
 };
 
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 69fee2f..b94e023 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1438,11 +1438,6 @@ struct ke_in_ev {
   */
   static constexpr unsigned buf_len = 4096;
   static_assert(buf_len > one_ulim * 8, "capacity");
-  /*  Room for an event, beyond the buffer
-      above, in case a batch ends half-way
-      through a rename.
-  */
-  static constexpr unsigned buf_len_ulim = buf_len + one_ulim;
   /*  The upper limit of how many events
       we could possibly read into a buffer
       which is `buf_len` bytes large.
@@ -1450,8 +1445,8 @@ struct ke_in_ev {
       close to this value, we should
       be skeptical of the `read`.
   */
-  static constexpr unsigned c_ulim = buf_len_ulim / sizeof(inotify_event);
-  static_assert(c_ulim == 273);
+  static constexpr unsigned c_ulim = buf_len / sizeof(inotify_event);
+  static_assert(c_ulim == 256);
   /*  These are the kinds of events which
       we're intersted in. Inotify *should*
       only send us these events, but that's
@@ -1486,7 +1481,10 @@ struct ke_in_ev {
   int fd = -1;
   using paths = std::unordered_map<int, std::filesystem::path>;
   paths dm{};
-  alignas(inotify_event) char ev_buf[buf_len_ulim]{0};
+  alignas(inotify_event) char ev_buf[buf_len]{0};
+  /*  An event at the end of the last batch (half of a
+      rename) which we'll start the next batch with. */
+  inotify_event const* held = nullptr;
   int rm_wd_buf[buf_len]{0};
 
   static_assert(sizeof(ev_buf) % sizeof(inotify_event) == 0, "alignment");
@@ -1610,24 +1608,30 @@ inline auto peek = [](
 /*  Reads some events. A rename is two events, and both
     parts of it should be in one batch for us to put them
     together. Without the second part at the end of this
-    batch, it's either available (but didn't fit), about
-    to be available (the parts aren't sent atomically), or
-    the path was moved out of our tree. */
+    batch, it's either available (but might not fit, so
+    we'll hold the first part back for the next batch),
+    about to be available (the parts aren't sent
+    atomically), or the path was moved out of our tree. */
 inline auto read_evs = [](ke_in_ev& ke) -> ssize_t
 {
-  auto len = read(ke.fd, ke.ev_buf, ke.buf_len);
-  if (len <= 0) return len;
+  auto lenof = [](auto* ev) { return (ssize_t)(sizeof(*ev) + ev->len); };
+  ssize_t len = ke.held ? lenof(ke.held) : 0;
+  if (len) memmove(ke.ev_buf, ke.held, len);
   auto const* last = (inotify_event*)(ke.ev_buf);
+  ke.held = len ? last : nullptr;
   auto pfd = pollfd{};
   pfd.fd = ke.fd;
   pfd.events = POLLIN;
   for (;;) {
+    auto more = read(ke.fd, ke.ev_buf + len, ke.buf_len - len);
+    if (more <= 0) return ke.held || ! len ? more : len;
+    ke.held = nullptr;
+    len += more;
     auto const* const tail = (inotify_event*)(ke.ev_buf + len);
     while (auto next = peek(last, tail)) last = next;
     if (! (last->mask & IN_MOVED_FROM) || poll(&pfd, 1, 1) <= 0) return len;
-    auto more = read(ke.fd, ke.ev_buf + len, ke.buf_len_ulim - len);
-    if (more <= 0) return len;
-    len += more;
+    if (ke.buf_len - len < ke.one_ulim)
+      return ke.held = last, len - lenof(last);
   }
 };
 
-- 
2.43.0


From 5a35e25cb0a3b0bfd1a0353b5bbd49d682f217c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 28/40] fix: show the help for paths which can't be looked up
 (cli)

---
 src/wtr/watcher/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index d40903c..6f3397c 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -7,6 +7,7 @@
 #include <optional>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <thread>
 
 using namespace wtr;
@@ -54,10 +55,13 @@ struct Args {
 
     bool is_help = argis(1, "-h") || argis(1, "--help");
 
+    /*  Some paths (too long, in a loop) and a current
+        directory which was removed are errors to ask for. */
+    auto ec = error_code{};
     auto path =
       is_help ? nullopt
-      : argc < 2 ? optional(fs::current_path())
-      : fs::exists(argv[1]) ? optional(fs::path(argv[1]))
+      : argc < 2 ? optional(fs::current_path(ec))
+      : fs::exists(argv[1], ec) ? optional(fs::path(argv[1]))
       : nullopt;
 
     auto time = [&]() -> optional<nanoseconds> {
-- 
2.43.0


From 1f2a8b087f4a89af10ce2b357e4aca78d1ac1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 29/40] fix: a time which isn't a number is no time (cli)

---
 src/wtr/watcher/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wtr/watcher/main.cpp b/src/wtr/watcher/main.cpp
index 6f3397c..cd94f6e 100644
--- a/src/wtr/watcher/main.cpp
+++ b/src/wtr/watcher/main.cpp
@@ -81,7 +81,7 @@ struct Args {
         : targis("-years")        || targis("-y")   ? 365 * 24 * 60 * 60 * 1e9
                                                     :                      1e6;
       auto td = strtod(st, (char**)&stend);
-      if (is_help || td == HUGE_VAL || td <= 0)
+      if (is_help || td == HUGE_VAL || ! (td > 0))
         return nullopt;
       else if (td * ttons >= (double)nanoseconds::max().count())
         return nanoseconds::max();
-- 
2.43.0


From d63f264254b64a03b97954322d9bab31d942cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 30/40] fix: Python programs which end with a watcher open
 don't abort

---
 watcher-py/watcher/watcher.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/watcher-py/watcher/watcher.py b/watcher-py/watcher/watcher.py
index c90659e..024a0a2 100644
--- a/watcher-py/watcher/watcher.py
+++ b/watcher-py/watcher/watcher.py
@@ -3,10 +3,12 @@ Filesystem watcher. Simple, efficient and friendly.
 """
 
 from __future__ import annotations
+import atexit
 import ctypes
 import json
 import os
 import sys
+import weakref
 from typing import Callable
 from dataclasses import dataclass
 from enum import Enum
@@ -151,6 +153,17 @@ class Event:
 "path_type":"{_PT_TO_S[self.path_type]}"}}'
 
 
+# Whatever is still open when the interpreter exits is closed before it finalizes.
+# A watcher's thread must not call into it after that.
+_OPEN: weakref.WeakSet[Watch] = weakref.WeakSet()
+
+
+@atexit.register
+def _close_all():
+    for watch in list(_OPEN):
+        watch.close()
+
+
 class Watch:
     """
     Filesystem watcher.
@@ -180,6 +193,7 @@ class Watch:
         self._watcher = self._lib.wtr_watcher_open(self._path, self._c_callback, None)
         if not self._watcher:
             raise RuntimeError("Failed to open a watcher")
+        _OPEN.add(self)
 
     def close(self):
         """
-- 
2.43.0


From 1a08b597ce1474d2050740aec0402979b5fe2a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 31/40] fix: Node.js watchers are closed when a worker (or the
 program) ends

---
 watcher-nodejs/lib/watcher-napi.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index 780b344..d352bbc 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -89,6 +89,16 @@ static void callback_bridge(struct wtr_watcher_event event_view, void* ctx)
 #endif
 }
 
+/*  Called when the environment (the program's, or a worker's) ends
+    before the watcher was closed. The thread-safe function goes away
+    with the environment, so the watcher must not use it after that. */
+static void close_with_env(void* ctx)
+{
+  struct watcher_lifetime* w = (struct watcher_lifetime*)ctx;
+  wtr_watcher_close(w->watcher);
+  free(w);
+}
+
 /*  Should be called by the user when they are done with the watcher.
     Ends event processing and releases any owned resources. */
 static napi_value close(napi_env env, napi_callback_info func_arg_info)
@@ -101,6 +111,7 @@ static napi_value close(napi_env env, napi_callback_info func_arg_info)
     return result;
   }
   watcher_lifetime* w = (watcher_lifetime*)ctx;
+  napi_remove_env_cleanup_hook(env, close_with_env, w);
   bool closed_ok = wtr_watcher_close(w->watcher);
   napi_get_boolean(env, closed_ok, &result);
   if (w->tsfn) {
@@ -164,6 +175,7 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
   }
+  napi_add_env_cleanup_hook(env, close_with_env, wrapper);
   napi_value watcher_obj = NULL;
   napi_create_object(env, &watcher_obj);
   napi_value close_func = NULL;
-- 
2.43.0


From fb172f891481dd6423fb85e1b449ff0287983818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 32/40] fix: failing to open a Node.js watcher doesn't keep the
 program running

---
 watcher-nodejs/lib/watcher-napi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/watcher-nodejs/lib/watcher-napi.cpp b/watcher-nodejs/lib/watcher-napi.cpp
index d352bbc..e9f9ceb 100644
--- a/watcher-nodejs/lib/watcher-napi.cpp
+++ b/watcher-nodejs/lib/watcher-napi.cpp
@@ -172,6 +172,9 @@ static napi_value watch(napi_env env, napi_callback_info func_arg_info)
     &wrapper->tsfn);
   wrapper->watcher = wtr_watcher_open(path, callback_bridge, wrapper);
   if (wrapper->watcher == NULL) {
+    napi_release_threadsafe_function(wrapper->tsfn, napi_tsfn_release);
+    napi_delete_reference(env, wrapper->js_callback_ref);
+    free(wrapper);
     napi_throw_error(env, NULL, "Failed to open watcher");
     return NULL;
   }
-- 
2.43.0


From f05f33a090124ec7e10bc19ee7a827c6143a98e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 33/40] fix: programs which are run meanwhile don't inherit a
 watcher's kernel descriptors

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp        | 1 +
 .../include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp | 2 +-
 include/wtr/watcher.hpp                                        | 3 ++-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index c3f5787..0e1b171 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -41,6 +41,7 @@ struct ke_fa_ev {
     | O_NONBLOCK;
   static constexpr auto init_flags
     = FAN_CLASS_NOTIF
+    | FAN_CLOEXEC
     | FAN_REPORT_FID
     | FAN_REPORT_DIR_FID
     | FAN_REPORT_NAME
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 23d2d58..2ee2283 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -168,7 +168,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index b94e023..f2fd370 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1085,6 +1085,7 @@ struct ke_fa_ev {
     | O_NONBLOCK;
   static constexpr auto init_flags
     = FAN_CLASS_NOTIF
+    | FAN_CLOEXEC
     | FAN_REPORT_FID
     | FAN_REPORT_DIR_FID
     | FAN_REPORT_NAME
@@ -1559,7 +1560,7 @@ inline auto make_sysres = [](
   auto make_inotify = [](result* ok) -> int
   {
     if (*ok >= result::e) return -1;
-    int in_fd = inotify_init();
+    int in_fd = inotify_init1(IN_CLOEXEC);
     if (in_fd < 0) *ok = result::e_sys_api_inotify;
     return in_fd;
   };
-- 
2.43.0


From d52b2f0f7a0d0e6d1365956f1aa94fd57da35e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 34/40] fix: descriptor zero is a descriptor like any other

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp     | 6 +++---
 include/wtr/watcher.hpp                                     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 0e1b171..06f6088 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -109,10 +109,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   do_mark_tree(base_path, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -163,7 +163,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index f2fd370..a9c90b7 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1153,10 +1153,10 @@ inline auto make_sysres = [](
                             semabin const& living) -> sysres
 {
   int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 1) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
   do_mark_tree(base_path, fa_fd, cb);
   auto ep = make_ep(fa_fd, living.fd);
-  if (ep.fd < 1)
+  if (ep.fd < 0)
     return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
@@ -1207,7 +1207,7 @@ pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
   ssize_t file_name_offset = 0;
   /*  Directory name */
   int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
-  if (fd <= 0) {
+  if (fd < 0) {
     *ec = errno;
     return {};
   }
-- 
2.43.0


From b6df98c30ba32c0df8343a728eaf1dbc346e8a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:56 +0000
Subject: [PATCH 35/40] fix: fanotify's file handles are opened on their own
 filesystem

They were opened relative to the current directory, so nothing below a
directory on some other filesystem was reported.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 95 ++++++++++++++-----
 include/wtr/watcher.hpp                       | 95 ++++++++++++++-----
 2 files changed, 140 insertions(+), 50 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 06f6088..63a95f2 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -17,7 +17,9 @@
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
 #include <sys/stat.h>
+#include <sys/statfs.h>
 #include <unistd.h>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -58,6 +60,13 @@ struct ke_fa_ev {
     | FAN_EVENT_ON_CHILD;
 
   int fd = -1;
+  /*  A directory on each of the filesystems which
+      we watch. File handles are relative to them. */
+  struct mount {
+    decltype(fanotify_event_info_fid::fsid) id{};
+    std::string path{};
+  };
+  std::vector<mount> mounts{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -70,17 +79,49 @@ struct sysres {
   adapter::ep ep{};
 };
 
+inline auto add_mount = [](char const* const dirpath, ke_fa_ev& ke) -> void
+{
+  struct statfs fs;
+  ke_fa_ev::mount m{};
+  static_assert(sizeof(fs.f_fsid) == sizeof(m.id));
+  if (statfs(dirpath, &fs) != 0) return;
+  memcpy(&m.id, &fs.f_fsid, sizeof(m.id));
+  for (auto const& has : ke.mounts)
+    if (memcmp(&has.id, &m.id, sizeof(m.id)) == 0) return;
+  m.path = dirpath;
+  ke.mounts.push_back(std::move(m));
+};
+
+/*  Opens the directory of an event. Its handle is only
+    meaningful on its own filesystem, which isn't always
+    the one with the directory which we're running in. */
+inline auto open_dir =
+  [](ke_fa_ev const& ke, fanotify_event_info_fid* const dir_info) -> int
+{
+  constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
+  int at = AT_FDCWD;
+  for (auto const& m : ke.mounts)
+    if (memcmp(&m.id, &dir_info->fsid, sizeof(m.id)) == 0)
+      at = open(m.path.c_str(), O_RDONLY | O_CLOEXEC | O_DIRECTORY);
+  if (at == -1) at = AT_FDCWD;
+  int fd = open_by_handle_at(at, (file_handle*)(dir_info->handle), ofl);
+  auto ec = errno;
+  if (at != AT_FDCWD) close(at);
+  errno = ec;
+  return fd;
+};
+
 inline auto do_mark =
-  [](char const* const dirpath, int fa_fd, auto const& cb) -> result
+  [](char const* const dirpath, ke_fa_ev& ke, auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
   int anonymous_wd =
     realpath(dirpath, real) && is_dir(real)
-      ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
+      ? fanotify_mark(ke.fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
       : -1;
   if (anonymous_wd == 0)
-    return result::complete;
+    return add_mount(real, ke), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -90,11 +131,11 @@ inline auto do_mark =
     moved here with its content, or have had content
     created before we marked it. */
 inline auto do_mark_tree =
-  [](char const* const dirpath, int fa_fd, auto const& cb) -> void
+  [](char const* const dirpath, ke_fa_ev& ke, auto const& cb) -> void
 {
   walkdir_do(
     dirpath,
-    [&](auto dir) { do_mark(dir, fa_fd, cb); },
+    [&](auto dir) { do_mark(dir, ke, cb); },
     [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
 };
 
@@ -108,15 +149,16 @@ inline auto make_sysres = [](
                             auto const& cb,
                             semabin const& living) -> sysres
 {
-  int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  do_mark_tree(base_path, fa_fd, cb);
-  auto ep = make_ep(fa_fd, living.fd);
+  auto ke = ke_fa_ev{};
+  ke.fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
+  if (ke.fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  do_mark_tree(base_path, ke, cb);
+  auto ep = make_ep(ke.fd, living.fd);
   if (ep.fd < 0)
-    return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
+    return close(ke.fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-    .ke{.fd = fa_fd},
+    .ke = std::move(ke),
     .il = living,
     .ep = ep,
   };
@@ -152,17 +194,18 @@ inline auto make_sysres = [](
     character string to the event's directory entry
     after the file handle to the directory.
     Confusing, right? */
-inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+inline auto pathof(
+  ke_fa_ev const& ke,
+  fanotify_event_metadata const* const mtd,
+  int* ec) -> std::string
 {
   constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
-  constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
   ssize_t file_name_offset = 0;
   /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
+  int fd = open_dir(ke, dir_info);
   if (fd < 0) {
     *ec = errno;
     return {};
@@ -237,9 +280,11 @@ struct Parsed {
 
 /*  The error codes are those of this event and, if
     they are both parts of one rename, of the next. */
-inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int (&ec)[2])
-  -> Parsed
+inline auto parse_ev(
+  ke_fa_ev const& ke,
+  fanotify_event_metadata const* const m,
+  size_t read_len,
+  int (&ec)[2]) -> Parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
@@ -254,15 +299,15 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int (&ec)[2])
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&]() -> Parsed
-  { return {ev(pathof(m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
+  { return {ev(pathof(ke, m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
   /*  Half of a rename is still an event if there's
       something wrong with the other half. */
   auto assoc = [&]() -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto mev = ev(pathof(m, &ec[0]), et, pt);
-    auto nev = ev(pathof(n, &ec[1]), et, pt);
+    auto mev = ev(pathof(ke, m, &ec[0]), et, pt);
+    auto nev = ev(pathof(ke, n, &ec[1]), et, pt);
     auto e = ec[0] ? nev : ec[1] ? mev : ev(mev, ev(nev));
     return {e, nn, here_to_nnn, ec[0] ? n->mask : m->mask};
   };
@@ -280,11 +325,11 @@ inline auto do_mark_if_newdir =
   [](
     ::wtr::watcher::event const& ev,
     unsigned long long mask,
-    int fa_fd,
+    ke_fa_ev& ke,
     auto const& cb) -> void
 {
   auto is_newdir = mask & FAN_ONDIR && mask & (FAN_CREATE | FAN_MOVED_TO);
-  if (is_newdir) do_mark_tree(ev.path_name.c_str(), fa_fd, cb);
+  if (is_newdir) do_mark_tree(ev.path_name.c_str(), ke, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -331,10 +376,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       }
       else {
         int ec[2]{0, 0};
-        auto [ev, n, l, mask] = parse_ev(mtd, read_len, ec);
+        auto [ev, n, l, mask] = parse_ev(sr.ke, mtd, read_len, ec);
         if (ec[0]) send_msg(result::w_sys_bad_fd, "", cb);
         if (! ev.path_name.empty()) {
-          do_mark_if_newdir(ev, mask, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mask, sr.ke, cb);
           cb(ev);
         }
         if (ec[1]) send_msg(result::w_sys_bad_fd, "", cb);
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index a9c90b7..7b68a53 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1061,7 +1061,9 @@ walkdir_do(char const* const path, Fn const& f, ErrFn const& on_err) -> void
 #include <sys/epoll.h>
 #include <sys/fanotify.h>
 #include <sys/stat.h>
+#include <sys/statfs.h>
 #include <unistd.h>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::fanotify {
 
@@ -1102,6 +1104,13 @@ struct ke_fa_ev {
     | FAN_EVENT_ON_CHILD;
 
   int fd = -1;
+  /*  A directory on each of the filesystems which
+      we watch. File handles are relative to them. */
+  struct mount {
+    decltype(fanotify_event_info_fid::fsid) id{};
+    std::string path{};
+  };
+  std::vector<mount> mounts{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
 };
 
@@ -1114,17 +1123,49 @@ struct sysres {
   adapter::ep ep{};
 };
 
+inline auto add_mount = [](char const* const dirpath, ke_fa_ev& ke) -> void
+{
+  struct statfs fs;
+  ke_fa_ev::mount m{};
+  static_assert(sizeof(fs.f_fsid) == sizeof(m.id));
+  if (statfs(dirpath, &fs) != 0) return;
+  memcpy(&m.id, &fs.f_fsid, sizeof(m.id));
+  for (auto const& has : ke.mounts)
+    if (memcmp(&has.id, &m.id, sizeof(m.id)) == 0) return;
+  m.path = dirpath;
+  ke.mounts.push_back(std::move(m));
+};
+
+/*  Opens the directory of an event. Its handle is only
+    meaningful on its own filesystem, which isn't always
+    the one with the directory which we're running in. */
+inline auto open_dir =
+  [](ke_fa_ev const& ke, fanotify_event_info_fid* const dir_info) -> int
+{
+  constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
+  int at = AT_FDCWD;
+  for (auto const& m : ke.mounts)
+    if (memcmp(&m.id, &dir_info->fsid, sizeof(m.id)) == 0)
+      at = open(m.path.c_str(), O_RDONLY | O_CLOEXEC | O_DIRECTORY);
+  if (at == -1) at = AT_FDCWD;
+  int fd = open_by_handle_at(at, (file_handle*)(dir_info->handle), ofl);
+  auto ec = errno;
+  if (at != AT_FDCWD) close(at);
+  errno = ec;
+  return fd;
+};
+
 inline auto do_mark =
-  [](char const* const dirpath, int fa_fd, auto const& cb) -> result
+  [](char const* const dirpath, ke_fa_ev& ke, auto const& cb) -> result
 {
   auto e = result::w_sys_not_watched;
   char real[PATH_MAX];
   int anonymous_wd =
     realpath(dirpath, real) && is_dir(real)
-      ? fanotify_mark(fa_fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
+      ? fanotify_mark(ke.fd, FAN_MARK_ADD, ke_fa_ev::recv_flags, AT_FDCWD, real)
       : -1;
   if (anonymous_wd == 0)
-    return result::complete;
+    return add_mount(real, ke), result::complete;
   else
     return send_msg(e, dirpath, cb), e;
 };
@@ -1134,11 +1175,11 @@ inline auto do_mark =
     moved here with its content, or have had content
     created before we marked it. */
 inline auto do_mark_tree =
-  [](char const* const dirpath, int fa_fd, auto const& cb) -> void
+  [](char const* const dirpath, ke_fa_ev& ke, auto const& cb) -> void
 {
   walkdir_do(
     dirpath,
-    [&](auto dir) { do_mark(dir, fa_fd, cb); },
+    [&](auto dir) { do_mark(dir, ke, cb); },
     [&](auto dir) { send_msg(result::w_sys_not_watched, dir, cb); });
 };
 
@@ -1152,15 +1193,16 @@ inline auto make_sysres = [](
                             auto const& cb,
                             semabin const& living) -> sysres
 {
-  int fa_fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
-  if (fa_fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
-  do_mark_tree(base_path, fa_fd, cb);
-  auto ep = make_ep(fa_fd, living.fd);
+  auto ke = ke_fa_ev{};
+  ke.fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
+  if (ke.fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  do_mark_tree(base_path, ke, cb);
+  auto ep = make_ep(ke.fd, living.fd);
   if (ep.fd < 0)
-    return close(fa_fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
+    return close(ke.fd), sysres{.ok = result::e_sys_api_epoll, .il = living};
   return sysres{
     .ok = result::pending,
-    .ke{.fd = fa_fd},
+    .ke = std::move(ke),
     .il = living,
     .ep = ep,
   };
@@ -1196,17 +1238,18 @@ inline auto make_sysres = [](
     character string to the event's directory entry
     after the file handle to the directory.
     Confusing, right? */
-inline auto
-pathof(fanotify_event_metadata const* const mtd, int* ec) -> std::string
+inline auto pathof(
+  ke_fa_ev const& ke,
+  fanotify_event_metadata const* const mtd,
+  int* ec) -> std::string
 {
   constexpr size_t path_ulim = PATH_MAX - sizeof('\0');
-  constexpr int ofl = O_RDONLY | O_CLOEXEC | O_PATH;
   auto dir_info = (fanotify_event_info_fid*)(mtd + 1);
   auto dir_fh = (file_handle*)(dir_info->handle);
   char path_buf[PATH_MAX];
   ssize_t file_name_offset = 0;
   /*  Directory name */
-  int fd = open_by_handle_at(AT_FDCWD, dir_fh, ofl);
+  int fd = open_dir(ke, dir_info);
   if (fd < 0) {
     *ec = errno;
     return {};
@@ -1281,9 +1324,11 @@ struct Parsed {
 
 /*  The error codes are those of this event and, if
     they are both parts of one rename, of the next. */
-inline auto
-parse_ev(fanotify_event_metadata const* const m, size_t read_len, int (&ec)[2])
-  -> Parsed
+inline auto parse_ev(
+  ke_fa_ev const& ke,
+  fanotify_event_metadata const* const m,
+  size_t read_len,
+  int (&ec)[2]) -> Parsed
 {
   using ev = ::wtr::watcher::event;
   using ev_pt = enum ev::path_type;
@@ -1298,15 +1343,15 @@ parse_ev(fanotify_event_metadata const* const m, size_t read_len, int (&ec)[2])
   auto isfromto = [et](unsigned a, unsigned b) -> bool
   { return et == ev_et::rename && a & FAN_MOVED_FROM && b & FAN_MOVED_TO; };
   auto one = [&]() -> Parsed
-  { return {ev(pathof(m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
+  { return {ev(pathof(ke, m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
   /*  Half of a rename is still an event if there's
       something wrong with the other half. */
   auto assoc = [&]() -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
-    auto mev = ev(pathof(m, &ec[0]), et, pt);
-    auto nev = ev(pathof(n, &ec[1]), et, pt);
+    auto mev = ev(pathof(ke, m, &ec[0]), et, pt);
+    auto nev = ev(pathof(ke, n, &ec[1]), et, pt);
     auto e = ec[0] ? nev : ec[1] ? mev : ev(mev, ev(nev));
     return {e, nn, here_to_nnn, ec[0] ? n->mask : m->mask};
   };
@@ -1324,11 +1369,11 @@ inline auto do_mark_if_newdir =
   [](
     ::wtr::watcher::event const& ev,
     unsigned long long mask,
-    int fa_fd,
+    ke_fa_ev& ke,
     auto const& cb) -> void
 {
   auto is_newdir = mask & FAN_ONDIR && mask & (FAN_CREATE | FAN_MOVED_TO);
-  if (is_newdir) do_mark_tree(ev.path_name.c_str(), fa_fd, cb);
+  if (is_newdir) do_mark_tree(ev.path_name.c_str(), ke, cb);
 };
 
 /*  Read some events from what fanotify gives
@@ -1375,10 +1420,10 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
       }
       else {
         int ec[2]{0, 0};
-        auto [ev, n, l, mask] = parse_ev(mtd, read_len, ec);
+        auto [ev, n, l, mask] = parse_ev(sr.ke, mtd, read_len, ec);
         if (ec[0]) send_msg(result::w_sys_bad_fd, "", cb);
         if (! ev.path_name.empty()) {
-          do_mark_if_newdir(ev, mask, sr.ke.fd, cb);
+          do_mark_if_newdir(ev, mask, sr.ke, cb);
           cb(ev);
         }
         if (ec[1]) send_msg(result::w_sys_bad_fd, "", cb);
-- 
2.43.0


From 8f6e9028780e4267f556e97ac768a41346debc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:58 +0000
Subject: [PATCH 36/40] fix: a rename is one event when its parts are read one
 after the other (fanotify)

The kernel sends a rename as two events. Only the parts which happened
to be in one read were put together; the others were reported as if a
path was moved out of, and another one into, the tree. We now wait for
the second part, and hold the first one back if the second won't fit,
as we do with inotify.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 39 ++++++++++++++++++-
 include/wtr/watcher.hpp                       | 39 ++++++++++++++++++-
 2 files changed, 76 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 63a95f2..8a8593d 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -11,6 +11,7 @@
 #include <errno.h>
 #include <fcntl.h>
 #include <limits.h>
+#include <poll.h>
 #include <stdio.h>
 #include <string.h>
 #include <string>
@@ -36,6 +37,9 @@ namespace detail::wtr::watcher::adapter::fanotify {
 // clang-format off
 struct ke_fa_ev {
   static constexpr auto buf_len = 4096;
+  /*  More than the longest event: What's in front, two
+      file handles of 128 bytes and a name of 255. */
+  static constexpr auto one_ulim = 640;
   static constexpr auto c_ulim = buf_len / sizeof(fanotify_event_metadata);
   static constexpr auto init_io_flags
     = O_RDONLY
@@ -68,6 +72,9 @@ struct ke_fa_ev {
   };
   std::vector<mount> mounts{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
+  /*  An event at the end of the last batch (half of a
+      rename) which we'll start the next batch with. */
+  fanotify_event_metadata const* held = nullptr;
 };
 
 // clang-format on
@@ -256,6 +263,36 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
     return nullptr;
 }
 
+/*  Reads some events. A rename is two events, and both
+    parts of it should be in one batch for us to put them
+    together. Without the second part at the end of this
+    batch, it's either available (but might not fit, so
+    we'll hold the first part back for the next batch),
+    about to be available (the parts aren't sent
+    atomically), or the path was moved out of our tree. */
+inline auto read_evs = [](ke_fa_ev& ke) -> ssize_t
+{
+  ssize_t len = ke.held ? ke.held->event_len : 0;
+  if (len) memmove(ke.buf, ke.held, len);
+  auto const* last = (fanotify_event_metadata*)(ke.buf);
+  ke.held = len ? last : nullptr;
+  auto pfd = pollfd{};
+  pfd.fd = ke.fd;
+  pfd.events = POLLIN;
+  for (;;) {
+    auto more = read(ke.fd, ke.buf + len, ke.buf_len - len);
+    if (more <= 0) return ke.held || ! len ? more : len;
+    ke.held = nullptr;
+    len += more;
+    auto left = [&] { return (size_t)(ke.buf + len - (char*)last); };
+    if (! FAN_EVENT_OK(last, left())) return len;
+    while (auto next = peek(last, left())) last = next;
+    if (! (last->mask & FAN_MOVED_FROM) || poll(&pfd, 1, 1) <= 0) return len;
+    if (ke.buf_len - len < ke.one_ulim)
+      return ke.held = last, len - last->event_len;
+  }
+};
+
 /*  What's odd about an event, if something is. The
     information about its directory and name may be
     of some other kind, or may not be there at all. */
@@ -356,7 +393,7 @@ inline auto do_mark_if_newdir =
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
   unsigned read_ev_count = 0;
-  int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
+  int read_len = read_evs(sr.ke);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
   if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 7b68a53..6a7f0ed 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1055,6 +1055,7 @@ walkdir_do(char const* const path, Fn const& f, ErrFn const& on_err) -> void
 #include <errno.h>
 #include <fcntl.h>
 #include <limits.h>
+#include <poll.h>
 #include <stdio.h>
 #include <string.h>
 #include <string>
@@ -1080,6 +1081,9 @@ namespace detail::wtr::watcher::adapter::fanotify {
 // clang-format off
 struct ke_fa_ev {
   static constexpr auto buf_len = 4096;
+  /*  More than the longest event: What's in front, two
+      file handles of 128 bytes and a name of 255. */
+  static constexpr auto one_ulim = 640;
   static constexpr auto c_ulim = buf_len / sizeof(fanotify_event_metadata);
   static constexpr auto init_io_flags
     = O_RDONLY
@@ -1112,6 +1116,9 @@ struct ke_fa_ev {
   };
   std::vector<mount> mounts{};
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
+  /*  An event at the end of the last batch (half of a
+      rename) which we'll start the next batch with. */
+  fanotify_event_metadata const* held = nullptr;
 };
 
 // clang-format on
@@ -1300,6 +1307,36 @@ inline auto peek(fanotify_event_metadata const* const m, size_t read_len)
     return nullptr;
 }
 
+/*  Reads some events. A rename is two events, and both
+    parts of it should be in one batch for us to put them
+    together. Without the second part at the end of this
+    batch, it's either available (but might not fit, so
+    we'll hold the first part back for the next batch),
+    about to be available (the parts aren't sent
+    atomically), or the path was moved out of our tree. */
+inline auto read_evs = [](ke_fa_ev& ke) -> ssize_t
+{
+  ssize_t len = ke.held ? ke.held->event_len : 0;
+  if (len) memmove(ke.buf, ke.held, len);
+  auto const* last = (fanotify_event_metadata*)(ke.buf);
+  ke.held = len ? last : nullptr;
+  auto pfd = pollfd{};
+  pfd.fd = ke.fd;
+  pfd.events = POLLIN;
+  for (;;) {
+    auto more = read(ke.fd, ke.buf + len, ke.buf_len - len);
+    if (more <= 0) return ke.held || ! len ? more : len;
+    ke.held = nullptr;
+    len += more;
+    auto left = [&] { return (size_t)(ke.buf + len - (char*)last); };
+    if (! FAN_EVENT_OK(last, left())) return len;
+    while (auto next = peek(last, left())) last = next;
+    if (! (last->mask & FAN_MOVED_FROM) || poll(&pfd, 1, 1) <= 0) return len;
+    if (ke.buf_len - len < ke.one_ulim)
+      return ke.held = last, len - last->event_len;
+  }
+};
+
 /*  What's odd about an event, if something is. The
     information about its directory and name may be
     of some other kind, or may not be there at all. */
@@ -1400,7 +1437,7 @@ inline auto do_mark_if_newdir =
 inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 {
   unsigned read_ev_count = 0;
-  int read_len = read(sr.ke.fd, sr.ke.buf, sr.ke.buf_len);
+  int read_len = read_evs(sr.ke);
   auto const* mtd = (fanotify_event_metadata*)(sr.ke.buf);
   if (read_len < 0 && errno != EAGAIN && errno != EINTR)
     return result::e_sys_api_read;
-- 
2.43.0


From 2ea29f741308766fa14ef01c27359f230055fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:47 +0000
Subject: [PATCH 37/40] fix: directories which were moved out of a tree aren't
 reported any more (fanotify)

Directories keep their marks when they're moved elsewhere, so whatever
happened inside of them was reported as if it were still being watched,
by paths which aren't in the tree.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 37 +++++++++++++++++--
 include/wtr/watcher.hpp                       | 37 +++++++++++++++++--
 2 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 8a8593d..522488f 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -71,6 +71,11 @@ struct ke_fa_ev {
     std::string path{};
   };
   std::vector<mount> mounts{};
+  /*  What we watch. A directory which was moved out of
+      it keeps its mark, and we'd still have its events. */
+  std::string base{};
+  struct stat base_stat{};
+  bool has_left = false;
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
   /*  An event at the end of the last batch (half of a
       rename) which we'll start the next batch with. */
@@ -99,6 +104,22 @@ inline auto add_mount = [](char const* const dirpath, ke_fa_ev& ke) -> void
   ke.mounts.push_back(std::move(m));
 };
 
+/*  Whether something isn't (any more) in our tree. It
+    can't be, unless a directory was moved out of there.
+    If the base path itself was moved, then there's no
+    telling: The paths of everything inside changed. */
+inline auto is_outside =
+  [](ke_fa_ev const& ke, std::string const& path) -> bool
+{
+  struct stat s;
+  auto const n = ke.base == "/" ? 0 : ke.base.size();
+  if (! ke.has_left || path.empty() || ke.base.empty()) return false;
+  if (path == ke.base) return false;
+  if (path.compare(0, n, ke.base, 0, n) == 0 && path[n] == '/') return false;
+  return stat(ke.base.c_str(), &s) == 0 && s.st_dev == ke.base_stat.st_dev
+      && s.st_ino == ke.base_stat.st_ino;
+};
+
 /*  Opens the directory of an event. Its handle is only
     meaningful on its own filesystem, which isn't always
     the one with the directory which we're running in. */
@@ -159,6 +180,9 @@ inline auto make_sysres = [](
   auto ke = ke_fa_ev{};
   ke.fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (ke.fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  char real[PATH_MAX];
+  if (realpath(base_path, real) && stat(real, &ke.base_stat) == 0)
+    ke.base = real;
   do_mark_tree(base_path, ke, cb);
   auto ep = make_ep(ke.fd, living.fd);
   if (ep.fd < 0)
@@ -338,15 +362,18 @@ inline auto parse_ev(
   auto one = [&]() -> Parsed
   { return {ev(pathof(ke, m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
   /*  Half of a rename is still an event if there's
-      something wrong with the other half. */
+      something wrong with the other half, or if that
+      happened outside of our tree. */
   auto assoc = [&]() -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto mev = ev(pathof(ke, m, &ec[0]), et, pt);
     auto nev = ev(pathof(ke, n, &ec[1]), et, pt);
-    auto e = ec[0] ? nev : ec[1] ? mev : ev(mev, ev(nev));
-    return {e, nn, here_to_nnn, ec[0] ? n->mask : m->mask};
+    bool no_m = ec[0] || is_outside(ke, mev.path_name);
+    bool no_n = ec[1] || is_outside(ke, nev.path_name);
+    auto e = no_m ? nev : no_n ? mev : ev(mev, ev(nev));
+    return {e, nn, here_to_nnn, no_m ? n->mask : m->mask};
   };
   /*  The parts of a rename come in this order, and
       a file doesn't become a directory. */
@@ -415,9 +442,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         int ec[2]{0, 0};
         auto [ev, n, l, mask] = parse_ev(sr.ke, mtd, read_len, ec);
         if (ec[0]) send_msg(result::w_sys_bad_fd, "", cb);
-        if (! ev.path_name.empty()) {
+        if (! ev.path_name.empty() && ! is_outside(sr.ke, ev.path_name)) {
           do_mark_if_newdir(ev, mask, sr.ke, cb);
           cb(ev);
+          auto is_from = mask & FAN_ONDIR && mask & FAN_MOVED_FROM;
+          if (is_from && ! ev.associated) sr.ke.has_left = true;
         }
         if (ec[1]) send_msg(result::w_sys_bad_fd, "", cb);
         mtd = n;
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 6a7f0ed..423380c 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1115,6 +1115,11 @@ struct ke_fa_ev {
     std::string path{};
   };
   std::vector<mount> mounts{};
+  /*  What we watch. A directory which was moved out of
+      it keeps its mark, and we'd still have its events. */
+  std::string base{};
+  struct stat base_stat{};
+  bool has_left = false;
   alignas(fanotify_event_metadata) char buf[buf_len]{0};
   /*  An event at the end of the last batch (half of a
       rename) which we'll start the next batch with. */
@@ -1143,6 +1148,22 @@ inline auto add_mount = [](char const* const dirpath, ke_fa_ev& ke) -> void
   ke.mounts.push_back(std::move(m));
 };
 
+/*  Whether something isn't (any more) in our tree. It
+    can't be, unless a directory was moved out of there.
+    If the base path itself was moved, then there's no
+    telling: The paths of everything inside changed. */
+inline auto is_outside =
+  [](ke_fa_ev const& ke, std::string const& path) -> bool
+{
+  struct stat s;
+  auto const n = ke.base == "/" ? 0 : ke.base.size();
+  if (! ke.has_left || path.empty() || ke.base.empty()) return false;
+  if (path == ke.base) return false;
+  if (path.compare(0, n, ke.base, 0, n) == 0 && path[n] == '/') return false;
+  return stat(ke.base.c_str(), &s) == 0 && s.st_dev == ke.base_stat.st_dev
+      && s.st_ino == ke.base_stat.st_ino;
+};
+
 /*  Opens the directory of an event. Its handle is only
     meaningful on its own filesystem, which isn't always
     the one with the directory which we're running in. */
@@ -1203,6 +1224,9 @@ inline auto make_sysres = [](
   auto ke = ke_fa_ev{};
   ke.fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (ke.fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  char real[PATH_MAX];
+  if (realpath(base_path, real) && stat(real, &ke.base_stat) == 0)
+    ke.base = real;
   do_mark_tree(base_path, ke, cb);
   auto ep = make_ep(ke.fd, living.fd);
   if (ep.fd < 0)
@@ -1382,15 +1406,18 @@ inline auto parse_ev(
   auto one = [&]() -> Parsed
   { return {ev(pathof(ke, m, &ec[0]), et, pt), n, m->event_len, m->mask}; };
   /*  Half of a rename is still an event if there's
-      something wrong with the other half. */
+      something wrong with the other half, or if that
+      happened outside of our tree. */
   auto assoc = [&]() -> Parsed
   {
     auto nn = peek(n, read_len - m->event_len);
     auto here_to_nnn = m->event_len + n->event_len;
     auto mev = ev(pathof(ke, m, &ec[0]), et, pt);
     auto nev = ev(pathof(ke, n, &ec[1]), et, pt);
-    auto e = ec[0] ? nev : ec[1] ? mev : ev(mev, ev(nev));
-    return {e, nn, here_to_nnn, ec[0] ? n->mask : m->mask};
+    bool no_m = ec[0] || is_outside(ke, mev.path_name);
+    bool no_n = ec[1] || is_outside(ke, nev.path_name);
+    auto e = no_m ? nev : no_n ? mev : ev(mev, ev(nev));
+    return {e, nn, here_to_nnn, no_m ? n->mask : m->mask};
   };
   /*  The parts of a rename come in this order, and
       a file doesn't become a directory. */
@@ -1459,9 +1486,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
         int ec[2]{0, 0};
         auto [ev, n, l, mask] = parse_ev(sr.ke, mtd, read_len, ec);
         if (ec[0]) send_msg(result::w_sys_bad_fd, "", cb);
-        if (! ev.path_name.empty()) {
+        if (! ev.path_name.empty() && ! is_outside(sr.ke, ev.path_name)) {
           do_mark_if_newdir(ev, mask, sr.ke, cb);
           cb(ev);
+          auto is_from = mask & FAN_ONDIR && mask & FAN_MOVED_FROM;
+          if (is_from && ! ev.associated) sr.ke.has_left = true;
         }
         if (ec[1]) send_msg(result::w_sys_bad_fd, "", cb);
         mtd = n;
-- 
2.43.0


From 88256f639d1501ad93b51bafb0bad25533edd3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:45 +0000
Subject: [PATCH 38/40] fix: use inotify where fanotify can't mark the
 directory, or its handles can't be opened

On many overlay filesystems (containers' own), and without the capability
CAP_DAC_READ_SEARCH, every event was lost, with a warning for each.
---
 .../watcher/adapter/linux/fanotify/watch.hpp  | 27 +++++++++++++++++
 .../wtr/watcher/adapter/linux/watch.hpp       |  3 ++
 include/wtr/watcher.hpp                       | 30 +++++++++++++++++++
 3 files changed, 60 insertions(+)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index 522488f..b47f6fd 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -139,6 +139,30 @@ inline auto open_dir =
   return fd;
 };
 
+/*  Some directories can't be marked. Others can, but the
+    handles in their events can't be opened: Many overlay
+    filesystems don't support that, and we might lack the
+    permission to. Without that, we wouldn't ever find the
+    path of an event. */
+inline auto can_watch =
+  [](char const* const dirpath, ke_fa_ev const& ke) -> bool
+{
+  constexpr auto add = FAN_MARK_ADD;
+  constexpr auto recv = ke_fa_ev::recv_flags;
+  constexpr auto ofl = O_RDONLY | O_CLOEXEC;
+  alignas(file_handle) char buf[sizeof(file_handle) + MAX_HANDLE_SZ]{0};
+  auto fh = (file_handle*)buf;
+  int id, fd = -1;
+  fh->handle_bytes = MAX_HANDLE_SZ;
+  if (fanotify_mark(ke.fd, add, recv, AT_FDCWD, dirpath) != 0) return false;
+  int at = open(dirpath, ofl | O_DIRECTORY);
+  if (at < 0) return false;
+  if (name_to_handle_at(AT_FDCWD, dirpath, fh, &id, AT_SYMLINK_FOLLOW) == 0)
+    fd = open_by_handle_at(at, fh, ofl | O_PATH);
+  if (fd >= 0) close(fd);
+  return close(at), fd >= 0;
+};
+
 inline auto do_mark =
   [](char const* const dirpath, ke_fa_ev& ke, auto const& cb) -> result
 {
@@ -180,6 +204,9 @@ inline auto make_sysres = [](
   auto ke = ke_fa_ev{};
   ke.fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (ke.fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (! can_watch(base_path, ke))
+    return close(ke.fd),
+           sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
   if (realpath(base_path, real) && stat(real, &ke.base_stat) == 0)
     ke.base = real;
diff --git a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
index 487f5c0..b32f200 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/watch.hpp
@@ -66,6 +66,9 @@ inline auto watch =
       IOW -- We're probably inside a container if we're
       root but lack permission to use fanotify.
 
+      Nor do all filesystems work with fanotify. Those
+      of containers often don't.
+
       The same error applies to being built on a kernel
       which doesn't have the fanotify api.
   */
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 423380c..561de82 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1183,6 +1183,30 @@ inline auto open_dir =
   return fd;
 };
 
+/*  Some directories can't be marked. Others can, but the
+    handles in their events can't be opened: Many overlay
+    filesystems don't support that, and we might lack the
+    permission to. Without that, we wouldn't ever find the
+    path of an event. */
+inline auto can_watch =
+  [](char const* const dirpath, ke_fa_ev const& ke) -> bool
+{
+  constexpr auto add = FAN_MARK_ADD;
+  constexpr auto recv = ke_fa_ev::recv_flags;
+  constexpr auto ofl = O_RDONLY | O_CLOEXEC;
+  alignas(file_handle) char buf[sizeof(file_handle) + MAX_HANDLE_SZ]{0};
+  auto fh = (file_handle*)buf;
+  int id, fd = -1;
+  fh->handle_bytes = MAX_HANDLE_SZ;
+  if (fanotify_mark(ke.fd, add, recv, AT_FDCWD, dirpath) != 0) return false;
+  int at = open(dirpath, ofl | O_DIRECTORY);
+  if (at < 0) return false;
+  if (name_to_handle_at(AT_FDCWD, dirpath, fh, &id, AT_SYMLINK_FOLLOW) == 0)
+    fd = open_by_handle_at(at, fh, ofl | O_PATH);
+  if (fd >= 0) close(fd);
+  return close(at), fd >= 0;
+};
+
 inline auto do_mark =
   [](char const* const dirpath, ke_fa_ev& ke, auto const& cb) -> result
 {
@@ -1224,6 +1248,9 @@ inline auto make_sysres = [](
   auto ke = ke_fa_ev{};
   ke.fd = fanotify_init(ke_fa_ev::init_flags, ke_fa_ev::init_io_flags);
   if (ke.fd < 0) return sysres{.ok = result::e_sys_api_fanotify, .il = living};
+  if (! can_watch(base_path, ke))
+    return close(ke.fd),
+           sysres{.ok = result::e_sys_api_fanotify, .il = living};
   char real[PATH_MAX];
   if (realpath(base_path, real) && stat(real, &ke.base_stat) == 0)
     ke.base = real;
@@ -2014,6 +2041,9 @@ inline auto watch =
       IOW -- We're probably inside a container if we're
       root but lack permission to use fanotify.
 
+      Nor do all filesystems work with fanotify. Those
+      of containers often don't.
+
       The same error applies to being built on a kernel
       which doesn't have the fanotify api.
   */
-- 
2.43.0


From e3c778b98ad6626217ccedd6f36651a537ba143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:16 +0000
Subject: [PATCH 39/40] fix: directories which were exchanged are watched, and
 reported by their paths (inotify)

---
 .../watcher/adapter/linux/inotify/watch.hpp   | 21 ++++++++++++++-----
 include/wtr/watcher.hpp                       | 21 ++++++++++++++-----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
index 2ee2283..31867a5 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp
@@ -14,9 +14,11 @@
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::inotify {
 
@@ -139,25 +141,35 @@ inline auto do_mark_tree =
     moved. The paths in our map need to keep up with
     the directory, and with every other one under it.
     If it was moved out of our tree (without a `to`),
-    then we need to stop watching it. */
+    then we need to stop watching it. Two directories
+    might have been exchanged, so we need to look for
+    another directory at the path which it had. */
 inline auto do_move_tree = [](
                              std::filesystem::path const& from,
                              std::filesystem::path const* const to,
                              int dirfd,
-                             auto& dm) -> void
+                             auto& dm,
+                             auto const& cb) -> void
 {
   auto const& base = from.native();
+  auto gone = std::vector<int>{};
   for (auto it = dm.begin(); it != dm.end();) {
     auto const& at = it->second.native();
     auto is_within = at.compare(0, base.size(), base) == 0
                   && (at.size() == base.size() || at[base.size()] == '/');
     if (is_within && ! to)
-      inotify_rm_watch(dirfd, it->first), it = dm.erase(it);
+      gone.push_back(it->first), it = dm.erase(it);
     else if (is_within)
       it->second = to->native() + at.substr(base.size()), ++it;
     else
       ++it;
   }
+  struct stat s;
+  if (to) do_mark_tree(to->c_str(), dirfd, dm, cb);
+  if (lstat(from.c_str(), &s) == 0 && S_ISDIR(s.st_mode))
+    do_mark_tree(from.c_str(), dirfd, dm, cb);
+  for (auto wd : gone)
+    if (dm.find(wd) == dm.end()) inotify_rm_watch(dirfd, wd);
 };
 
 inline auto make_sysres = [](
@@ -430,8 +442,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
           do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
           auto to = ev.associated ? &ev.associated->path_name : nullptr;
-          do_move_tree(ev.path_name, to, sr.ke.fd, sr.ke.dm);
-          if (to) do_mark_tree(to->c_str(), sr.ke.fd, sr.ke.dm, cb);
+          do_move_tree(ev.path_name, to, sr.ke.fd, sr.ke.dm, cb);
         }
         cb(ev);
       }
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 561de82..1c554d2 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1544,9 +1544,11 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
 #include <string.h>
 #include <sys/epoll.h>
 #include <sys/inotify.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 namespace detail::wtr::watcher::adapter::inotify {
 
@@ -1669,25 +1671,35 @@ inline auto do_mark_tree =
     moved. The paths in our map need to keep up with
     the directory, and with every other one under it.
     If it was moved out of our tree (without a `to`),
-    then we need to stop watching it. */
+    then we need to stop watching it. Two directories
+    might have been exchanged, so we need to look for
+    another directory at the path which it had. */
 inline auto do_move_tree = [](
                              std::filesystem::path const& from,
                              std::filesystem::path const* const to,
                              int dirfd,
-                             auto& dm) -> void
+                             auto& dm,
+                             auto const& cb) -> void
 {
   auto const& base = from.native();
+  auto gone = std::vector<int>{};
   for (auto it = dm.begin(); it != dm.end();) {
     auto const& at = it->second.native();
     auto is_within = at.compare(0, base.size(), base) == 0
                   && (at.size() == base.size() || at[base.size()] == '/');
     if (is_within && ! to)
-      inotify_rm_watch(dirfd, it->first), it = dm.erase(it);
+      gone.push_back(it->first), it = dm.erase(it);
     else if (is_within)
       it->second = to->native() + at.substr(base.size()), ++it;
     else
       ++it;
   }
+  struct stat s;
+  if (to) do_mark_tree(to->c_str(), dirfd, dm, cb);
+  if (lstat(from.c_str(), &s) == 0 && S_ISDIR(s.st_mode))
+    do_mark_tree(from.c_str(), dirfd, dm, cb);
+  for (auto wd : gone)
+    if (dm.find(wd) == dm.end()) inotify_rm_watch(dirfd, wd);
 };
 
 inline auto make_sysres = [](
@@ -1960,8 +1972,7 @@ inline auto do_ev_recv = [](auto const& cb, sysres& sr) -> result
           do_mark_tree(ev.path_name.c_str(), sr.ke.fd, sr.ke.dm, cb);
         else if (msk & IN_ISDIR && msk & IN_MOVED_FROM) {
           auto to = ev.associated ? &ev.associated->path_name : nullptr;
-          do_move_tree(ev.path_name, to, sr.ke.fd, sr.ke.dm);
-          if (to) do_mark_tree(to->c_str(), sr.ke.fd, sr.ke.dm, cb);
+          do_move_tree(ev.path_name, to, sr.ke.fd, sr.ke.dm, cb);
         }
         cb(ev);
       }
-- 
2.43.0


From 968f2ed1da8a8f8b9b0a88e65364c15583eded3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:16 +0000
Subject: [PATCH 40/40] fix: a directory which was renamed right after it was
 created is watched (fanotify)

---
 .../detail/wtr/watcher/adapter/linux/fanotify/watch.hpp   | 8 +++++++-
 include/wtr/watcher.hpp                                   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
index b47f6fd..f515506 100644
--- a/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
+++ b/devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp
@@ -419,8 +419,14 @@ inline auto do_mark_if_newdir =
     ke_fa_ev& ke,
     auto const& cb) -> void
 {
+  /*  A directory which was renamed keeps its mark, but it
+      doesn't have one yet if it was created a moment ago. */
+  auto is_moved = mask & FAN_ONDIR && ev.associated;
   auto is_newdir = mask & FAN_ONDIR && mask & (FAN_CREATE | FAN_MOVED_TO);
-  if (is_newdir) do_mark_tree(ev.path_name.c_str(), ke, cb);
+  if (is_moved)
+    do_mark_tree(ev.associated->path_name.c_str(), ke, cb);
+  else if (is_newdir)
+    do_mark_tree(ev.path_name.c_str(), ke, cb);
 };
 
 /*  Read some events from what fanotify gives
diff --git a/include/wtr/watcher.hpp b/include/wtr/watcher.hpp
index 1c554d2..ce8d923 100644
--- a/include/wtr/watcher.hpp
+++ b/include/wtr/watcher.hpp
@@ -1463,8 +1463,14 @@ inline auto do_mark_if_newdir =
     ke_fa_ev& ke,
     auto const& cb) -> void
 {
+  /*  A directory which was renamed keeps its mark, but it
+      doesn't have one yet if it was created a moment ago. */
+  auto is_moved = mask & FAN_ONDIR && ev.associated;
   auto is_newdir = mask & FAN_ONDIR && mask & (FAN_CREATE | FAN_MOVED_TO);
-  if (is_newdir) do_mark_tree(ev.path_name.c_str(), ke, cb);
+  if (is_moved)
+    do_mark_tree(ev.associated->path_name.c_str(), ke, cb);
+  else if (is_newdir)
+    do_mark_tree(ev.path_name.c_str(), ke, cb);
 };
 
 /*  Read some events from what fanotify gives
-- 
2.43.0

