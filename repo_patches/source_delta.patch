From 931b82aa337a20ef215a052e1bb906c3478c8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 1/3] fix: do not lose a wakeup when poll() is notified before
 the notification is written

`notify` sets `notified` before it writes to the pipe. A `wait` in between
consumed the flag and then failed with `WouldBlock`, so the call returned an
error, and the outer `Poller` kept believing that a notification was pending:
no later `notify` had any effect.
---
 src/poll.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 45407c7..e042e2c 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -221,8 +221,10 @@ impl Poller {
             loop {
                 if self.notified.swap(false, Ordering::SeqCst) {
                     // `notify` will have sent a notification in case we were polling. We weren't,
-                    // so remove it.
-                    return self.notify.pop_notification();
+                    // so remove it. It may not have been sent yet, in which case it is discarded
+                    // by a later call to `wait`; either way this call has been notified.
+                    let _ = self.notify.pop_notification();
+                    return Ok(());
                 } else if self.waiting_operations.load(Ordering::SeqCst) == 0 {
                     break;
                 }
-- 
2.43.0


From 2d8758921ee9d54abb40039e281fba418001c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 2/3] fix: leave the poll() registration alone when modify
 rejects the mode

---
 src/poll.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index e042e2c..4789980 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -156,6 +156,8 @@ impl Poller {
                 .fd_data
                 .get_mut(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
+            // Reject unsupported modes before changing anything.
+            data.remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
             let poll_fds_index = data.poll_fds_index;
 
@@ -165,7 +167,6 @@ impl Poller {
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
-            data.remove = cvt_mode_as_remove(mode)?;
 
             Ok(())
         })
-- 
2.43.0


From 5707184324515bef347eebaa082fa6629e16972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 3/3] fix: poll for priority events when the interest asks for
 them

---
 src/poll.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poll.rs b/src/poll.rs
index 4789980..691990e 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -352,6 +352,10 @@ fn poll_events(ev: Event) -> PollFlags {
         PollFlags::OUT | PollFlags::WRBAND
     } else {
         PollFlags::empty()
+    }) | (if ev.extra.is_pri() {
+        PollFlags::PRI
+    } else {
+        PollFlags::empty()
     })
 }
 
-- 
2.43.0

