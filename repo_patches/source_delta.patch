From 0a1be2de98b795624e41f731605bdf3041af1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:27 +0000
Subject: [PATCH 01/36] fix: treat deadlines before the start of the monotonic
 clock as expired

A boot-time deadline that lies further in the past than the monotonic clock has
been running, as happens after a suspend, was converted to a negative time. The
kernel rejects it with EINVAL. The condition wait then returned without the
mutex, and still put it on the list of held mutexes.
---
 src/clock.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/clock.h b/src/clock.h
index 6369205..712f56f 100644
--- a/src/clock.h
+++ b/src/clock.h
@@ -50,7 +50,14 @@ a0_err_t a0_clock_convert(
   A0_RETURN_ERR_ON_ERR(a0_clock_now(target_clk, &target_now));
 
   int64_t add_nsec = (orig_ts.tv_sec - orig_now.tv_sec) * NS_PER_SEC + (orig_ts.tv_nsec - orig_now.tv_nsec);
-  return a0_clock_add(target_now, add_nsec, target_ts);
+  A0_RETURN_ERR_ON_ERR(a0_clock_add(target_now, add_nsec, target_ts));
+  // A time before the start of the target clock can only be expressed as the start.
+  // The kernel rejects negative times.
+  if (target_ts->tv_sec < 0) {
+    target_ts->tv_sec = 0;
+    target_ts->tv_nsec = 0;
+  }
+  return A0_OK;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From c9d92c00ed340be5d0c9a727808219e989c407d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:27 +0000
Subject: [PATCH 02/36] fix: do not give up a timed lock early when the wall
 clock is stepped forward

FUTEX_LOCK_PI measures its timeout with the wall clock. A forward step made the
lock report a timeout before its boot-time deadline. Wait again until the
deadline has really passed.
---
 src/mtx.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mtx.c b/src/mtx.c
index 536fc47..942f8a8 100644
--- a/src/mtx.c
+++ b/src/mtx.c
@@ -18,6 +18,15 @@
 #include "robust.h"
 #include "tsan.h"
 
+A0_STATIC_INLINE
+bool a0_mtx_deadline_passed(const a0_time_mono_t* timeout) {
+  timespec_t now;
+  if (a0_clock_now(CLOCK_BOOTTIME, &now)) {
+    return true;
+  }
+  return now.tv_sec > timeout->ts.tv_sec || (now.tv_sec == timeout->ts.tv_sec && now.tv_nsec >= timeout->ts.tv_nsec);
+}
+
 A0_STATIC_INLINE
 a0_err_t a0_mtx_timedlock_robust(a0_mtx_t* mtx, a0_time_mono_t* timeout) {
   const uint32_t tid = a0_tid();
@@ -29,6 +38,10 @@ a0_err_t a0_mtx_timedlock_robust(a0_mtx_t* mtx, a0_time_mono_t* timeout) {
 
   // Ask the kernel to lock.
   a0_err_t err = a0_ftx_lock_pi(&mtx->ftx, timeout);
+  // The kernel measures this timeout with the wall clock, which may be stepped forward.
+  while (A0_SYSERR(err) == ETIMEDOUT && !a0_mtx_deadline_passed(timeout)) {
+    err = a0_ftx_lock_pi(&mtx->ftx, timeout);
+  }
   if (!err) {
     return a0_ftx_owner_died(a0_atomic_load(&mtx->ftx)) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
   }
-- 
2.43.0


From 13890f2d85e57f52a03f72760816e5428e0e5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:07 +0000
Subject: [PATCH 03/36] fix: discard a dead writer's incomplete changes when a
 channel wait wakes up

A waiter that reacquired the channel lock after its holder died looked at the
working state left behind by the dead process. It could see, and later commit,
a message that was never committed.
---
 src/transport.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index af9b36a..c67c0f0 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -367,6 +367,8 @@ a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a
 
   while (!lk.transport->_shutdown) {
     err = a0_cnd_timedwait(&hdr->cnd, &hdr->mtx, timeout);
+    // The lock was released while waiting. Clear any incomplete changes.
+    *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
     if (A0_SYSERR(err) == ETIMEDOUT) {
       break;
     }
-- 
2.43.0


From 9b4175fd3a074e7c64d4cdd6affac7fe4df533a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:07 +0000
Subject: [PATCH 04/36] fix: discard incomplete changes when locking an
 exclusive or read-only channel

A file left behind by a writer that died in the middle of a write showed the
uncommitted message to whoever opened it in exclusive or read-only mode.
---
 src/transport.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index c67c0f0..bfdba24 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -189,6 +189,13 @@ a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_
   lk_out->transport = transport;
 
   if (transport->_arena.mode != A0_ARENA_MODE_SHARED) {
+    // Clear any incomplete changes, left by a process that died.
+    // Only write if needed, since the arena may not be writable.
+    a0_transport_state_t* working_page = a0_transport_working_page(*lk_out);
+    a0_transport_state_t* committed_page = a0_transport_committed_page(*lk_out);
+    if (memcmp(working_page, committed_page, sizeof(a0_transport_state_t)) != 0) {
+      *working_page = *committed_page;
+    }
     return A0_OK;
   }
 
-- 
2.43.0


From 5a906a3665c178e2c52673ab603d42fb968f1619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:28 +0000
Subject: [PATCH 05/36] fix: notify waiters of a commit even if the writer dies
 right after it

The commit became visible before the waiters were notified. If the writer died
in between, readers slept although a new message was available.
---
 src/transport.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index bfdba24..dec35f2 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -682,11 +682,14 @@ a0_err_t a0_transport_commit(a0_transport_locked_t lk) {
   // transport. It's possible that the copying of B into A will fail (prog crash),
   // leaving A in an inconsistent state. We set B as the committed page, before
   // copying the page info.
+  //
+  // Waiters are notified first. They cannot run until the lock is released, and
+  // would never be notified if this process died right after the commit.
+  a0_cnd_broadcast(&hdr->cnd, &hdr->mtx);
+
   hdr->committed_page_idx = !hdr->committed_page_idx;
   *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
 
-  a0_cnd_broadcast(&hdr->cnd, &hdr->mtx);
-
   return A0_OK;
 }
 
-- 
2.43.0


From cd34895568af7352338e0d6e8bb150a069d758d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:47 +0000
Subject: [PATCH 06/36] fix: report a packet that does not fit the channel
 instead of writing past it

The result of the allocation was ignored while serializing a packet, so a
packet too large for the channel was written through an uninitialized
pointer. Copying a packet had the same problem with the caller's allocator.
The writer now releases the channel lock and returns the error.
---
 src/packet.c | 10 +++++-----
 src/writer.c |  6 +++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/packet.c b/src/packet.c
index eb14424..919e14b 100644
--- a/src/packet.c
+++ b/src/packet.c
@@ -85,7 +85,7 @@ a0_err_t a0_packet_serialize(a0_packet_t pkt, a0_alloc_t alloc, a0_flat_packet_t
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(pkt, &stats));
 
-  a0_alloc(alloc, stats.serial_size, out);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.serial_size, out));
 
   // Write pointer into index.
   size_t idx_off = 0;
@@ -147,7 +147,7 @@ a0_err_t a0_packet_deserialize(a0_flat_packet_t fpkt, a0_alloc_t alloc, a0_packe
   a0_packet_stats_t stats;
   a0_flat_packet_stats(fpkt, &stats);
 
-  a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf));
 
   uint8_t* write_ptr = out_buf->data;
   out_pkt->headers_block.headers = (a0_packet_header_t*)write_ptr;
@@ -193,9 +193,9 @@ a0_err_t a0_packet_deep_copy(a0_packet_t in, a0_alloc_t alloc, a0_packet_t* out_
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(in, &stats));
 
-  a0_alloc(alloc,
-           stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
-           out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc,
+                                stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
+                                out_buf));
 
   out_pkt->headers_block.headers = (a0_packet_header_t*)out_buf->data;
   out_pkt->headers_block.size = stats.num_hdrs;
diff --git a/src/writer.c b/src/writer.c
index d539303..8313a15 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -95,7 +95,11 @@ a0_err_t a0_write_action_process_locked(void* user_data, a0_transport_locked_t t
 
   a0_alloc_t alloc;
   a0_transport_allocator(&tlk, &alloc);
-  a0_packet_serialize(*pkt, alloc, NULL);
+  a0_err_t err = a0_packet_serialize(*pkt, alloc, NULL);
+  if (err) {
+    a0_transport_unlock(tlk);
+    return err;
+  }
 
   a0_transport_commit(tlk);
   a0_transport_unlock(tlk);
-- 
2.43.0


From 4fd230ffc71b7f8ba3b07c8d83efc3242d116c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:16 +0000
Subject: [PATCH 07/36] fix: report a failing allocator from synchronous reads

The message could not be copied, but the read returned success with a packet
that was never filled in. A threaded reader now skips a message that it cannot
copy instead of handing out an uninitialized packet.
---
 src/reader.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 5bcd239..34d6341 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -251,6 +251,7 @@ a0_err_t a0_reader_sync_can_read(a0_reader_sync_t* reader_sync, bool* can_read)
 typedef struct a0_reader_sync_read_data_s {
   a0_alloc_t alloc;
   a0_packet_t* out_pkt;
+  a0_err_t err;
 } a0_reader_sync_read_data_t;
 
 A0_STATIC_INLINE
@@ -258,7 +259,7 @@ void a0_reader_sync_read_impl(void* user_data, a0_transport_locked_t tlk, a0_fla
   A0_MAYBE_UNUSED(tlk);
   a0_reader_sync_read_data_t* data = (a0_reader_sync_read_data_t*)user_data;
   a0_buf_t unused;
-  a0_packet_deserialize(fpkt, data->alloc, data->out_pkt, &unused);
+  data->err = a0_packet_deserialize(fpkt, data->alloc, data->out_pkt, &unused);
 }
 
 a0_err_t a0_reader_sync_read(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
@@ -267,12 +268,14 @@ a0_err_t a0_reader_sync_read(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
   a0_reader_sync_read_data_t data = (a0_reader_sync_read_data_t){
       .alloc = reader_sync->_alloc,
       .out_pkt = pkt,
+      .err = A0_OK,
   };
   a0_zero_copy_callback_t zc_cb = (a0_zero_copy_callback_t){
       .user_data = &data,
       .fn = a0_reader_sync_read_impl,
   };
-  return a0_reader_sync_zc_read(&reader_sync->_reader_sync_zc, zc_cb);
+  A0_RETURN_ERR_ON_ERR(a0_reader_sync_zc_read(&reader_sync->_reader_sync_zc, zc_cb));
+  return data.err;
 }
 
 a0_err_t a0_reader_sync_read_blocking(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
@@ -285,12 +288,14 @@ a0_err_t a0_reader_sync_read_blocking_timeout(a0_reader_sync_t* reader_sync, a0_
   a0_reader_sync_read_data_t data = (a0_reader_sync_read_data_t){
       .alloc = reader_sync->_alloc,
       .out_pkt = pkt,
+      .err = A0_OK,
   };
   a0_zero_copy_callback_t zc_cb = (a0_zero_copy_callback_t){
       .user_data = &data,
       .fn = a0_reader_sync_read_impl,
   };
-  return a0_reader_sync_zc_read_blocking_timeout(&reader_sync->_reader_sync_zc, timeout, zc_cb);
+  A0_RETURN_ERR_ON_ERR(a0_reader_sync_zc_read_blocking_timeout(&reader_sync->_reader_sync_zc, timeout, zc_cb));
+  return data.err;
 }
 
 // Threaded zero-copy version.
@@ -437,7 +442,9 @@ void a0_reader_onpacket_wrapper(void* user_data, a0_transport_locked_t tlk, a0_f
   a0_reader_t* reader = (a0_reader_t*)user_data;
   a0_packet_t pkt;
   a0_buf_t buf;
-  a0_packet_deserialize(fpkt, reader->_alloc, &pkt, &buf);
+  if (a0_packet_deserialize(fpkt, reader->_alloc, &pkt, &buf)) {
+    return;
+  }
   a0_transport_unlock(tlk);
 
   a0_packet_callback_call(reader->_onpacket, pkt);
-- 
2.43.0


From 0f4e85d2c0bc1f21adfb0877f020a54e7fd6dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:02 +0000
Subject: [PATCH 08/36] fix: refuse random access to a message that is no
 longer in the channel

The error was ignored and the callback ran with an uninitialized frame.
---
 src/reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 34d6341..42c95ae 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -486,7 +486,11 @@ a0_err_t a0_read_random_access(a0_arena_t arena, size_t off, a0_zero_copy_callba
     return err;
   }
   a0_transport_frame_t* frame;
-  a0_transport_frame(tlk, &frame);
+  err = a0_transport_frame(tlk, &frame);
+  if (err) {
+    a0_transport_unlock(tlk);
+    return err;
+  }
 
   cb.fn(cb.user_data, tlk, (a0_flat_packet_t){{frame->data, frame->hdr.data_size}});
 
-- 
2.43.0


From 992b0a07d9702b3ede22a9ed21f52dee0c7d1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:47 +0000
Subject: [PATCH 09/36] fix: do not treat an uncommitted message as readable by
 its place in the channel

A writer that died after preparing a message left a frame whose sequence
number is one past the newest. Reading at its offset returned that frame.
---
 src/transport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport.c b/src/transport.c
index dec35f2..690b053 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -450,7 +450,7 @@ a0_err_t a0_transport_seq_high(a0_transport_locked_t lk, uint64_t* out) {
 a0_err_t a0_transport_frame(a0_transport_locked_t lk, a0_transport_frame_t** frame_out) {
   a0_transport_state_t* state = a0_transport_working_page(lk);
 
-  if (lk.transport->_seq < state->seq_low) {
+  if (lk.transport->_seq < state->seq_low || lk.transport->_seq > state->seq_high) {
     return A0_MAKE_SYSERR(ESPIPE);
   }
 
-- 
2.43.0


From 2521e200597173fedb020e538faf224ff5036df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:51 +0000
Subject: [PATCH 10/36] fix: keep waiting for an event when another participant
 dies, and wake waiters if the setter dies

---
 src/event.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index af52d7b..e46a93e 100644
--- a/src/event.c
+++ b/src/event.c
@@ -20,8 +20,9 @@ a0_err_t a0_event_set(a0_event_t* e) {
   if (!a0_mtx_lock_successful(err)) {
     return err;
   }
-  e->_val = true;
+  // Waiters are moved to the mutex first, so that a death in between cannot strand them.
   a0_cnd_broadcast(&e->_cnd, &e->_mtx);
+  e->_val = true;
   a0_mtx_unlock(&e->_mtx);
   return A0_OK;
 }
@@ -39,6 +40,9 @@ a0_err_t a0_event_timedwait(a0_event_t* e, a0_time_mono_t* timeout) {
 
   while (!err && !e->_val) {
     err = a0_cnd_timedwait(&e->_cnd, &e->_mtx, timeout);
+    if (a0_mtx_lock_successful(err)) {
+      err = A0_OK;
+    }
   }
   a0_mtx_unlock(&e->_mtx);
   return err;
-- 
2.43.0


From 1f4889b9b0d1f14b96da255b11a2f5675f73868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:51 +0000
Subject: [PATCH 11/36] fix: wake latch waiters even if the last arrival dies
 right after counting down

---
 src/latch.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/latch.c b/src/latch.c
index 58795e9..b0003b9 100644
--- a/src/latch.c
+++ b/src/latch.c
@@ -18,10 +18,11 @@ a0_err_t a0_latch_count_down(a0_latch_t* l, int32_t update) {
     return err;
   }
 
-  l->_val -= update;
-  if (l->_val <= 0) {
+  // Waiters are moved to the mutex first, so that a death in between cannot strand them.
+  if (l->_val - update <= 0) {
     a0_cnd_broadcast(&l->_cnd, &l->_mtx);
   }
+  l->_val -= update;
 
   a0_mtx_unlock(&l->_mtx);
   return A0_OK;
@@ -49,10 +50,11 @@ a0_err_t a0_latch_arrive_and_wait(a0_latch_t* l, int32_t update) {
     return err;
   }
 
-  l->_val -= update;
-  if (l->_val <= 0) {
+  // Waiters are moved to the mutex first, so that a death in between cannot strand them.
+  if (l->_val - update <= 0) {
     a0_cnd_broadcast(&l->_cnd, &l->_mtx);
   }
+  l->_val -= update;
   while (l->_val > 0) {
     a0_cnd_wait(&l->_cnd, &l->_mtx);
   }
-- 
2.43.0


From 9637a951fc52be707d08ae8706dba0bae3cff081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:05 +0000
Subject: [PATCH 12/36] fix: continue a deadman wait that is interrupted by a
 signal

---
 src/deadman_mtx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index adda50b..86651ee 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -82,7 +82,7 @@ a0_err_t a0_deadman_mtx_lock(a0_deadman_mtx_t* d) {
 A0_STATIC_INLINE
 a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* timeout) {
   a0_err_t err = A0_OK;
-  while (!err || A0_SYSERR(err) == EAGAIN) {
+  while (!err || A0_SYSERR(err) == EAGAIN || A0_SYSERR(err) == EINTR) {
     uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
     err = a0_deadman_mtx_trylock_impl(d);
     if (!err || A0_SYSERR(err) != EBUSY) {
@@ -154,7 +154,7 @@ a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
-      if (err && A0_SYSERR(err) != EAGAIN) {
+      if (err && A0_SYSERR(err) != EAGAIN && A0_SYSERR(err) != EINTR) {
         return err;
       }
     }
@@ -197,7 +197,7 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
-      if (err && A0_SYSERR(err) != EAGAIN) {
+      if (err && A0_SYSERR(err) != EAGAIN && A0_SYSERR(err) != EINTR) {
         return err;
       }
     }
-- 
2.43.0


From 0e2f2bc29395cee3554b6adb2be8138a4f6420fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:36 +0000
Subject: [PATCH 13/36] fix: publish a deadman's token before it counts as
 taken, and wake every waiter of a dead owner

---
 src/deadman_mtx.c | 49 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index 86651ee..4b18a66 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -23,12 +23,23 @@ a0_err_t a0_deadman_mtx_init(a0_deadman_mtx_t* d, a0_deadman_mtx_shared_token_t*
   return A0_OK;
 }
 
+// Those who wait for the switch to be locked sleep on the token, which changes
+// with every lock. On the mutex itself, they could use up the only wake-up that
+// the kernel sends when the owner dies.
+A0_STATIC_INLINE
+a0_ftx_t* a0_deadman_mtx_tkn_ftx(a0_deadman_mtx_t* d) {
+  const uint16_t one = 1;
+  const bool little_endian = *(const uint8_t*)&one;
+  return (a0_ftx_t*)&d->_stkn->_tkn + (little_endian ? 0 : 1);
+}
+
 a0_err_t a0_deadman_mtx_shutdown(a0_deadman_mtx_t* d) {
   A0_TSAN_HAPPENS_BEFORE(&d->_shutdown);
   a0_atomic_store(&d->_shutdown, true);
   while (a0_atomic_load(&d->_inop)) {
     // Yes, this is awful. Find a better way to do this.
     a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+    a0_ftx_broadcast(a0_deadman_mtx_tkn_ftx(d));
   }
   return A0_OK;
 }
@@ -45,12 +56,16 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
   uint32_t tid = a0_tid();
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   if (!a0_ftx_tid(old)) {
-    uint32_t new = (old | tid) & (~FUTEX_OWNER_DIED);
+    // The switch counts as locked once the new token is in place. Until then,
+    // it is marked as if the owner died.
+    uint32_t new = old | tid | FUTEX_OWNER_DIED;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
       d->_is_owner = true;
       d->_stkn->_tkn++;
+      a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_OWNER_DIED);
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+      a0_ftx_broadcast(a0_deadman_mtx_tkn_ftx(d));
     }
   } else if (a0_ftx_tid(old) == tid) {
     err = A0_MAKE_SYSERR(EDEADLK);
@@ -86,12 +101,16 @@ a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* time
     uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
     err = a0_deadman_mtx_trylock_impl(d);
     if (!err || A0_SYSERR(err) != EBUSY) {
+      if (A0_SYSERR(err) == ESHUTDOWN) {
+        // Pass on a wake-up that was meant for a thread that can lock.
+        a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+      }
       return err;
     }
     err = A0_OK;
 
     uint32_t new = old | FUTEX_WAITERS;
-    if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
+    if (a0_ftx_tid(old) && a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
     }
   }
@@ -129,12 +148,12 @@ a0_err_t a0_deadman_mtx_unlock(a0_deadman_mtx_t* d) {
   a0_robust_op_del(&d->_stkn->_mtx);
 
   a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, FUTEX_WAITERS);
+  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
 
   a0_robust_op_end(&d->_stkn->_mtx);
   __tsan_mutex_post_unlock(&d->_stkn->_mtx, 0);
 
   d->_is_owner = false;
-  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
   return A0_OK;
 }
 
@@ -144,26 +163,25 @@ a0_err_t a0_deadman_mtx_wait_locked(a0_deadman_mtx_t* d, uint64_t* out_tkn) {
 
 A0_STATIC_INLINE
 a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t* out_tkn) {
+  uint64_t tkn = a0_atomic_load(&d->_stkn->_tkn);
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
-  while (!a0_ftx_tid(old) || a0_ftx_owner_died(old)) {
+  while (!a0_ftx_tid(old) || a0_ftx_owner_died(old) || tkn != a0_atomic_load(&d->_stkn->_tkn)) {
     if (a0_atomic_load(&d->_shutdown)) {
       A0_TSAN_HAPPENS_AFTER(&d->_shutdown);
       return A0_MAKE_SYSERR(ESHUTDOWN);
     }
 
-    uint32_t new = old | FUTEX_WAITERS;
-    if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
-      if (err && A0_SYSERR(err) != EAGAIN && A0_SYSERR(err) != EINTR) {
-        return err;
-      }
+    a0_err_t err = a0_ftx_wait(a0_deadman_mtx_tkn_ftx(d), (uint32_t)tkn, timeout);
+    if (err && A0_SYSERR(err) != EAGAIN && A0_SYSERR(err) != EINTR) {
+      return err;
     }
 
+    tkn = a0_atomic_load(&d->_stkn->_tkn);
     old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   }
 
   __tsan_mutex_pre_lock(&d->_stkn->_tkn, __tsan_mutex_try_lock);
-  *out_tkn = a0_atomic_load(&d->_stkn->_tkn);
+  *out_tkn = tkn;
   __tsan_mutex_post_lock(&d->_stkn->_tkn, __tsan_mutex_try_lock | __tsan_mutex_try_lock_failed, 0);
   A0_TSAN_HAPPENS_AFTER(&d->_stkn->_mtx.ftx);
   return A0_OK;
@@ -209,7 +227,11 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 
 a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t tkn) {
   a0_atomic_store(&d->_inop, true);
+  a0_robust_op_start(&d->_stkn->_mtx);
   a0_err_t err = a0_deadman_mtx_timedwait_unlocked_impl(d, timeout, tkn);
+  // The kernel wakes a single thread when the owner dies. Pass it on.
+  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+  a0_robust_op_end(&d->_stkn->_mtx);
   a0_atomic_store(&d->_inop, false);
   return err;
 }
@@ -217,8 +239,9 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t*
 A0_NO_TSAN
 a0_err_t a0_deadman_mtx_state(a0_deadman_mtx_t* d, a0_deadman_mtx_state_t* out_state) {
   out_state->is_owner = a0_atomic_load(&d->_is_owner);
-  out_state->owner_tid = a0_ftx_tid(a0_atomic_load(&d->_stkn->_mtx.ftx));
-  if (a0_ftx_owner_died(out_state->owner_tid)) {
+  uint32_t ftx = a0_atomic_load(&d->_stkn->_mtx.ftx);
+  out_state->owner_tid = a0_ftx_tid(ftx);
+  if (a0_ftx_owner_died(ftx)) {
     out_state->owner_tid = 0;
   }
   out_state->is_locked = out_state->owner_tid != 0;
-- 
2.43.0


From 01ada64d844c480f33d28d69a0cdd89c56de602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:42 +0000
Subject: [PATCH 14/36] fix: remove the temporary file when creating a file
 fails

---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 17e4b34..5deedf5 100644
--- a/src/file.c
+++ b/src/file.c
@@ -144,6 +144,7 @@ a0_err_t a0_mktmp(const char* dir, a0_file_create_options_t opts, a0_file_t* fil
     close(file->fd);
     file->fd = -1;
 
+    unlink(path);
     free(path);
     file->path = NULL;
 
@@ -251,6 +252,7 @@ a0_err_t a0_do_open(
     err = a0_mmap(file, &opts->open_options);
     if (err) {
       close(file->fd);
+      unlink(file->path);
       free((void*)file->path);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From 05a9c590ad6cdb73012baf701317d984e6a775f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:04 +0000
Subject: [PATCH 15/36] fix: unmap the temporary file when it cannot be moved
 into place

---
 src/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file.c b/src/file.c
index 5deedf5..bf1e06c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -261,6 +261,7 @@ a0_err_t a0_do_open(
 
     err = a0_tmp_move(file, path);
     if (err) {
+      a0_munmap(file);
       close(file->fd);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From eb8a2f3b13841932c39ae6f14507dfdf773b9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:43 +0000
Subject: [PATCH 16/36] fix: do not repeat ids after a fork or when the random
 source is unavailable

---
 src/rand.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/rand.c b/src/rand.c
index b269f7b..f5d44c3 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -1,23 +1,68 @@
 #include "rand.h"
 
+#include <a0/inline.h>
 #include <a0/thread_local.h>
+#include <a0/tid.h>
 
+#include <errno.h>
 #include <fcntl.h>
+#include <pthread.h>
 #include <stdbool.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <time.h>
 #include <unistd.h>
 
 A0_THREAD_LOCAL uint16_t a0_xsubi[3];
 A0_THREAD_LOCAL bool a0_xsubi_init = false;
 
+// A forked child must not continue the sequence of its parent.
+A0_STATIC_INLINE
+void a0_xsubi_reset() {
+  a0_xsubi_init = false;
+}
+
+A0_STATIC_INLINE
+void a0_xsubi_reset_atfork() {
+  pthread_atfork(NULL, NULL, &a0_xsubi_reset);
+}
+
+static pthread_once_t a0_xsubi_reset_atfork_once;
+
+// Used if the system's random source is not available.
+A0_STATIC_INLINE
+void a0_xsubi_fallback() {
+  struct timespec ts;
+  clock_gettime(CLOCK_BOOTTIME, &ts);
+  uint64_t seed = (uint64_t)ts.tv_sec * 1000000000 + ts.tv_nsec;
+  seed = (seed ^ ((uint64_t)a0_tid() << 40)) * 0x9E3779B97F4A7C15;
+  seed = (seed ^ (seed >> 29)) * 0xBF58476D1CE4E5B9;
+  a0_xsubi[0] = seed >> 16;
+  a0_xsubi[1] = seed >> 32;
+  a0_xsubi[2] = seed >> 48;
+}
+
 uint32_t a0_mrand48() {
   if (!a0_xsubi_init) {
-    // TODO(lshamis): error handling.
+    pthread_once(&a0_xsubi_reset_atfork_once, a0_xsubi_reset_atfork);
+
+    size_t got = 0;
     int fd = open("/dev/urandom", O_RDONLY);
-    ssize_t todo_use_this = read(fd, a0_xsubi, sizeof(a0_xsubi));
-    (void)todo_use_this;
-    close(fd);
+    while (fd != -1 && got < sizeof(a0_xsubi)) {
+      ssize_t n = read(fd, (uint8_t*)a0_xsubi + got, sizeof(a0_xsubi) - got);
+      if (n > 0) {
+        got += n;
+      } else if (!n || errno != EINTR) {
+        break;
+      }
+    }
+    if (fd != -1) {
+      close(fd);
+    }
+    if (got < sizeof(a0_xsubi)) {
+      a0_xsubi_fallback();
+    }
     a0_xsubi_init = true;
   }
   return jrand48(a0_xsubi);
-- 
2.43.0


From aff5edfcf9fdb1b753a2b0acf01b13434d6ced5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:44 +0000
Subject: [PATCH 17/36] fix: do not read a directory that vanished before
 discovery could open it

---
 src/discovery.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/discovery.c b/src/discovery.c
index ddd1fe7..780ee31 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -90,7 +90,10 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
 
   a0_file_iter_t iter;
   a0_file_iter_entry_t entry;
-  a0_file_iter_init(&iter, path);
+  if (a0_file_iter_init(&iter, path)) {
+    // The directory is already gone.
+    return;
+  }
   while (!a0_file_iter_next(&iter, &entry)) {
     if (entry.d_type == DT_DIR) {
       a0_discovery_watch_recursive(d, entry.fullpath);
-- 
2.43.0


From 54d9115fde8374595631ce7d0512b76cd9dc0037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:21 +0000
Subject: [PATCH 18/36] fix: report failures to set up discovery

---
 src/discovery.c | 57 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/src/discovery.c b/src/discovery.c
index 780ee31..03a8aa1 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -118,23 +118,27 @@ void a0_discovery_watch_root(a0_discovery_t* d) {
 }
 
 A0_STATIC_INLINE
-void a0_discovery_closefd_init(a0_discovery_t* d, int epoll_fd) {
+a0_err_t a0_discovery_closefd_init(a0_discovery_t* d, int epoll_fd) {
   d->_close_fd = eventfd(0, EFD_NONBLOCK);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_close_fd);
 
   epoll_event_t evt = A0_EMPTY;
   evt.events = EPOLLIN;
   evt.data.fd = d->_close_fd;
-  epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_close_fd, &evt);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_close_fd, &evt));
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
-void a0_discovery_inotify_init(a0_discovery_t* d, int epoll_fd) {
+a0_err_t a0_discovery_inotify_init(a0_discovery_t* d, int epoll_fd) {
   d->_inotify_fd = inotify_init1(IN_NONBLOCK);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_inotify_fd);
 
   epoll_event_t evt = A0_EMPTY;
   evt.events = EPOLLIN;
   evt.data.fd = d->_inotify_fd;
-  epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_inotify_fd, &evt);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_inotify_fd, &evt));
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
@@ -193,8 +197,10 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
 }
 
 A0_STATIC_INLINE
-void a0_discovery_epoll_init(a0_discovery_t* d) {
+a0_err_t a0_discovery_epoll_init(a0_discovery_t* d) {
   d->_epoll_fd = epoll_create1(0);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_epoll_fd);
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
@@ -238,6 +244,26 @@ void* a0_discovery_thread(void* arg) {
   return NULL;
 }
 
+A0_STATIC_INLINE
+a0_err_t a0_discovery_start(a0_discovery_t* d) {
+  A0_RETURN_ERR_ON_ERR(a0_discovery_epoll_init(d));
+  A0_RETURN_ERR_ON_ERR(a0_discovery_closefd_init(d, d->_epoll_fd));
+  A0_RETURN_ERR_ON_ERR(a0_discovery_inotify_init(d, d->_epoll_fd));
+
+  int err = pthread_create(&d->_thread, NULL, a0_discovery_thread, d);
+  return err ? A0_MAKE_SYSERR(err) : A0_OK;
+}
+
+A0_STATIC_INLINE
+void a0_discovery_closefds(a0_discovery_t* d) {
+  int fds[] = {d->_epoll_fd, d->_inotify_fd, d->_close_fd};
+  for (size_t i = 0; i < sizeof(fds) / sizeof(int); i++) {
+    if (fds[i] != -1) {
+      close(fds[i]);
+    }
+  }
+}
+
 a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_discovery_callback_t callback) {
   d->_callback = callback;
 
@@ -282,11 +308,18 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
     return err;
   }
 
-  a0_discovery_epoll_init(d);
-  a0_discovery_closefd_init(d, d->_epoll_fd);
-  a0_discovery_inotify_init(d, d->_epoll_fd);
-
-  pthread_create(&d->_thread, NULL, a0_discovery_thread, d);
+  d->_epoll_fd = -1;
+  d->_inotify_fd = -1;
+  d->_close_fd = -1;
+  err = a0_discovery_start(d);
+  if (err) {
+    a0_discovery_closefds(d);
+    a0_map_close(&d->_discovered_map);
+    a0_map_close(&d->_reverse_watch_map);
+    a0_map_close(&d->_watch_map);
+    a0_pathglob_close(&d->_pathglob);
+    return err;
+  }
 
   return A0_OK;
 }
@@ -316,9 +349,7 @@ a0_err_t a0_discovery_close(a0_discovery_t* d) {
   a0_map_close(&d->_discovered_map);
 
   a0_pathglob_close(&d->_pathglob);
-  close(d->_epoll_fd);
-  close(d->_inotify_fd);
-  close(d->_close_fd);
+  a0_discovery_closefds(d);
 
   return A0_OK;
 }
\ No newline at end of file
-- 
2.43.0


From c67183503139d04ec4c9ec5c321455e6c901cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:58 +0000
Subject: [PATCH 19/36] fix: discovery follows re-created directories and
 survives a full event queue

---
 include/a0/discovery.h |  5 +--
 src/discovery.c        | 90 ++++++++++++++++++++----------------------
 2 files changed, 45 insertions(+), 50 deletions(-)

diff --git a/include/a0/discovery.h b/include/a0/discovery.h
index 43eeb1e..00331d6 100644
--- a/include/a0/discovery.h
+++ b/include/a0/discovery.h
@@ -21,9 +21,8 @@ typedef struct a0_discovery_s {
   a0_discovery_callback_t _callback;
   pthread_t _thread;
 
-  a0_map_t _watch_map;          // inotify watch descriptor -> absolute dir path
-  a0_map_t _reverse_watch_map;  // absolute dir path -> nothing
-  a0_map_t _discovered_map;     // absolute file path -> nothing
+  a0_map_t _watch_map;       // inotify watch descriptor -> absolute dir path
+  a0_map_t _discovered_map;  // absolute file path -> nothing
   int _epoll_fd;
   int _inotify_fd;
   int _close_fd;
diff --git a/src/discovery.c b/src/discovery.c
index 03a8aa1..a460fe5 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -28,48 +28,34 @@
 typedef struct epoll_event epoll_event_t;
 typedef struct inotify_event inotify_event_t;
 
+// Length of the directory, with a trailing slash, below which all matches are.
 A0_STATIC_INLINE
 size_t a0_discovery_rootlen(a0_discovery_t* d) {
   a0_pathglob_t* glob = &d->_pathglob;
-  char* start_ptr = (char*)glob->parts[0].str.data - 1;
-  for (size_t i = 0; i + 1 < glob->depth; i++) {
-    char* exclude_ptr = (char*)glob->parts[i].str.data;
-
-    if (glob->parts[i].type != A0_PATHGLOB_PART_TYPE_VERBATIM) {
-      return exclude_ptr - start_ptr;
-    }
-
-    char* end_ptr = exclude_ptr + glob->parts[i].str.size + 1;
-    char old = *end_ptr;
-    *end_ptr = '\0';
-
-    stat_t unused;
-    int err = stat(start_ptr, &unused);
-
-    *end_ptr = old;
-    if (err) {
-      return exclude_ptr - start_ptr;
-    }
+  size_t i = 0;
+  while (i + 1 < glob->depth && glob->parts[i].type == A0_PATHGLOB_PART_TYPE_VERBATIM) {
+    i++;
   }
-  return (char*)glob->parts[glob->depth - 1].str.data - start_ptr;
+  return glob->parts[i].str.data - glob->abspath.data;
 }
 
 A0_STATIC_INLINE
 void a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
-  bool already_watching;
-  a0_map_has(&d->_reverse_watch_map, &path, &already_watching);
-  if (already_watching) {
+  // A directory that was removed and created again needs a new watch.
+  // For a directory that is already watched, this returns the same descriptor.
+  int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE);
+  if (wd < 0) {
     return;
   }
 
-  int wd = inotify_add_watch(d->_inotify_fd, path, IN_CREATE);
-  if (wd < 0) {
+  bool already_watching;
+  a0_map_has(&d->_watch_map, &wd, &already_watching);
+  if (already_watching) {
     return;
   }
+
   char* dup = strdup(path);
   a0_map_put(&d->_watch_map, &wd, &dup);
-  int unused = 0;
-  a0_map_put(&d->_reverse_watch_map, &dup, &unused);
 }
 
 A0_STATIC_INLINE
@@ -108,15 +94,34 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
   a0_file_iter_close(&iter);
 }
 
+// Watches the root and all its parents, any of which may show up later.
 A0_STATIC_INLINE
 void a0_discovery_watch_root(a0_discovery_t* d) {
   size_t root_size = a0_discovery_rootlen(d);
   char root_path[PATH_MAX];
-  memcpy(root_path, d->_pathglob.abspath.data, root_size);
+  for (size_t i = 0; i < root_size; i++) {
+    root_path[i] = d->_pathglob.abspath.data[i];
+    if (root_path[i] == '/' && i + 1 < root_size) {
+      root_path[i + 1] = '\0';
+      a0_discovery_watch_path(d, root_path);
+    }
+  }
   root_path[root_size] = '\0';
   a0_discovery_watch_recursive(d, root_path);
 }
 
+A0_STATIC_INLINE
+bool a0_discovery_is_root_or_parent(a0_discovery_t* d, const char* path) {
+  size_t size = strlen(path);
+  const char* pattern = (const char*)d->_pathglob.abspath.data;
+  return size < a0_discovery_rootlen(d) && !memcmp(path, pattern, size) && pattern[size] == '/';
+}
+
+A0_STATIC_INLINE
+bool a0_discovery_is_within_root(a0_discovery_t* d, const char* path) {
+  return !strncmp(path, (const char*)d->_pathglob.abspath.data, a0_discovery_rootlen(d));
+}
+
 A0_STATIC_INLINE
 a0_err_t a0_discovery_closefd_init(a0_discovery_t* d, int epoll_fd) {
   d->_close_fd = eventfd(0, EFD_NONBLOCK);
@@ -159,7 +164,10 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
 
   for (size_t i = 0; i < (size_t)buf_size;) {
     inotify_event_t* evt = (inotify_event_t*)&buf[i];
-    if (evt->len) {
+    if (evt->mask & IN_Q_OVERFLOW) {
+      // Some events were lost.
+      a0_discovery_watch_root(d);
+    } else if (evt->len) {
       a0_buf_t path = (a0_buf_t){(uint8_t*)evt->name, strlen(evt->name)};
 
       bool is_dir = evt->mask & IN_ISDIR;
@@ -178,8 +186,12 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
       memcpy(abspath + parent_size + !parent_ends_with_slash, path.data, path.size);
       abspath[parent_size + !parent_ends_with_slash + path.size] = '\0';
 
-      if (is_dir) {
-        a0_discovery_watch_recursive(d, abspath);
+      if (a0_discovery_is_root_or_parent(d, abspath)) {
+        a0_discovery_watch_root(d);
+      } else if (is_dir) {
+        if (a0_discovery_is_within_root(d, abspath)) {
+          a0_discovery_watch_recursive(d, abspath);
+        }
       } else {
         bool is_match = false;
         a0_pathglob_match(&d->_pathglob, abspath, &is_match);
@@ -283,18 +295,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
     return err;
   }
 
-  err = a0_map_init(
-      &d->_reverse_watch_map,
-      sizeof(char*),
-      sizeof(int),
-      A0_HASH_STR,
-      A0_CMP_STR);
-  if (err) {
-    a0_map_close(&d->_watch_map);
-    a0_pathglob_close(&d->_pathglob);
-    return err;
-  }
-
   err = a0_map_init(
       &d->_discovered_map,
       sizeof(char*),
@@ -302,7 +302,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
       A0_HASH_STR,
       A0_CMP_STR);
   if (err) {
-    a0_map_close(&d->_reverse_watch_map);
     a0_map_close(&d->_watch_map);
     a0_pathglob_close(&d->_pathglob);
     return err;
@@ -315,7 +314,6 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
   if (err) {
     a0_discovery_closefds(d);
     a0_map_close(&d->_discovered_map);
-    a0_map_close(&d->_reverse_watch_map);
     a0_map_close(&d->_watch_map);
     a0_pathglob_close(&d->_pathglob);
     return err;
@@ -339,8 +337,6 @@ a0_err_t a0_discovery_close(a0_discovery_t* d) {
     free(*(void**)val);
   }
   a0_map_close(&d->_watch_map);
-  // Note: _reverse_watch_map doesn't own any memory.
-  a0_map_close(&d->_reverse_watch_map);
 
   a0_map_iterator_init(&iter, &d->_discovered_map);
   while (!a0_map_iterator_next(&iter, &key, &val)) {
-- 
2.43.0


From b26b00a8640aa22a269198fd6e258e4638c322cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:57 +0000
Subject: [PATCH 20/36] fix: a progress callback is not invoked by another
 client's cancellation

---
 src/prpc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prpc.c b/src/prpc.c
index 67b73ec..ce75e4c 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -152,6 +152,9 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
 
   bool is_complete = !strcmp(type_hdr.val, PRPC_TYPE_COMPLETE);
+  if (!is_complete && strcmp(type_hdr.val, PRPC_TYPE_PROGRESS) != 0) {
+    return;
+  }
 
   a0_err_t err;
   a0_prpc_progress_callback_t cb;
-- 
2.43.0


From ea9a1c06ec9d1352f3deccd52fd8c032cf7b4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 21/36] fix: accept an rpc server without a cancel callback in
 C++

The wrapper called an empty std::function when a client cancelled.
---
 src/rpc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpc.cpp b/src/rpc.cpp
index 84d5e85..bcbd7ca 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -107,6 +107,10 @@ RpcServer::RpcServer(
               impl->oncancel(id);
             }};
 
+        if (!impl->oncancel) {
+          c_oncancel = A0_EMPTY;
+        }
+
         return a0_rpc_server_init(c, c_topic, alloc, c_onrequest, c_oncancel);
       },
       [](a0_rpc_server_t* c, RpcServerImpl*) {
-- 
2.43.0


From 24c84b6077ea677f2895aa357aa356998d6b4a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 22/36] fix: accept a progress rpc server without a cancel
 callback in C++

The wrapper called an empty std::function when a client cancelled.
---
 src/prpc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/prpc.cpp b/src/prpc.cpp
index 278d0fe..3e50329 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -105,6 +105,10 @@ PrpcServer::PrpcServer(
               impl->oncancel(id);
             }};
 
+        if (!impl->oncancel) {
+          c_oncancel = A0_EMPTY;
+        }
+
         return a0_prpc_server_init(c, c_topic, alloc, c_onconnect, c_oncancel);
       },
       [](a0_prpc_server_t* c, PrpcServerImpl*) {
-- 
2.43.0


From e87bf405deccaa70c490ecf738b6cb8fd0eae5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 23/36] fix: keep the memory of a reply as long as its packet

A reply kept beyond its callback referred to a buffer the next reply overwrote.
---
 src/rpc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpc.cpp b/src/rpc.cpp
index bcbd7ca..e8f585c 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -186,7 +186,10 @@ void RpcClient::send(Packet pkt, std::function<void(Packet)> onreply) {
             impl->user_onreply.erase(iter);
           }
 
-          onreply(Packet(resp, nullptr));
+          // The packet may be kept. Hand over the memory it refers to.
+          auto data = std::make_shared<std::vector<uint8_t>>();
+          std::swap(*data, impl->data);
+          onreply(Packet(resp, [data](a0_packet_t*) {}));
         },
     };
   }
-- 
2.43.0


From 1ec1e2fc6136a86140eed94322a8ad04231651e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 24/36] fix: keep the memory of a progress packet as long as
 the packet

A packet kept beyond its callback referred to a buffer the next one overwrote.
---
 src/prpc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/prpc.cpp b/src/prpc.cpp
index 3e50329..2f8e28c 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -186,7 +186,10 @@ void PrpcClient::connect(Packet pkt, std::function<void(Packet, bool /* done */)
             }
           }
 
-          onprogress(Packet(prog, nullptr), done);
+          // The packet may be kept. Hand over the memory it refers to.
+          auto data = std::make_shared<std::vector<uint8_t>>();
+          std::swap(*data, impl->data);
+          onprogress(Packet(prog, [data](a0_packet_t*) {}), done);
         },
     };
   }
-- 
2.43.0


From bccdd4b990a511110bee1c81284d741a965ca9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 25/36] fix: take working memory for merging json from the heap

The memory is many times the size of the json and overflowed the stack.
---
 src/middleware.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/middleware.c b/src/middleware.c
index eed3849..f4a5df9 100644
--- a/src/middleware.c
+++ b/src/middleware.c
@@ -8,7 +8,6 @@
 #include <a0/unused.h>
 #include <a0/uuid.h>
 
-#include <alloca.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -259,7 +258,8 @@ A0_STATIC_INLINE
 a0_err_t a0_json_mergepatch_process_locked_nonempty(
     a0_transport_locked_t tlk,
     a0_packet_t* pkt,
-    a0_middleware_chain_t chain) {
+    a0_middleware_chain_t chain,
+    void* scratch[3]) {
   // Grab the original json content from the most recent packet.
   a0_transport_jump_tail(tlk);
   a0_transport_frame_t* frame;
@@ -279,7 +279,7 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
     a0_transport_unlock(tlk);
     return A0_MAKE_MSGERR("Failed to parse json: original json too big");
   }
-  void* original_data = alloca(original_size);
+  void* original_data = scratch[0] = malloc(original_size);
 
   yyjson_alc original_alc;
   yyjson_alc_pool_init(
@@ -306,7 +306,7 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
     a0_transport_unlock(tlk);
     return A0_MAKE_MSGERR("Failed to parse json: mergepatch too big");
   }
-  void* mergepatch_data = alloca(mergepatch_size);
+  void* mergepatch_data = scratch[1] = malloc(mergepatch_size);
 
   yyjson_alc mergepatch_alc;
   yyjson_alc_pool_init(
@@ -334,7 +334,7 @@ a0_err_t a0_json_mergepatch_process_locked_nonempty(
       mergepatch->root);
 
   size_t result_max_size = original_size + mergepatch_size;
-  void* result_data = alloca(result_max_size);
+  void* result_data = scratch[2] = malloc(result_max_size);
 
   yyjson_alc result_alc;
   yyjson_alc_pool_init(&result_alc, result_data, result_max_size);
@@ -376,7 +376,14 @@ a0_err_t a0_json_mergepatch_process_locked(
   if (empty) {
     return a0_middleware_chain(chain, pkt);
   }
-  return a0_json_mergepatch_process_locked_nonempty(tlk, pkt, chain);
+
+  // Working memory. Many times the size of the json, too much for the stack.
+  void* scratch[3] = {NULL, NULL, NULL};
+  a0_err_t err = a0_json_mergepatch_process_locked_nonempty(tlk, pkt, chain, scratch);
+  for (size_t i = 0; i < 3; i++) {
+    free(scratch[i]);
+  }
+  return err;
 }
 
 a0_middleware_t a0_json_mergepatch() {
-- 
2.43.0


From 0b93c2efdf1d4d284499f645c33442160f277368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 26/36] fix: stop waiting on a topic when the wait fails

A deadline the condition variable refuses made the wait spin for ever.
---
 src/transport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport.c b/src/transport.c
index 690b053..d305df0 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -376,7 +376,7 @@ a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a
     err = a0_cnd_timedwait(&hdr->cnd, &hdr->mtx, timeout);
     // The lock was released while waiting. Clear any incomplete changes.
     *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
-    if (A0_SYSERR(err) == ETIMEDOUT) {
+    if (!a0_mtx_lock_successful(err)) {
       break;
     }
 
-- 
2.43.0


From ee5c79e7315f3af1c655b898dfd7fdc1aeebd34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 27/36] fix: refuse frame sizes that overflow

A size near the largest number wrapped around and was accepted.
---
 src/transport.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index d305df0..b7d06a0 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -624,6 +624,9 @@ void a0_transport_update_high_water_mark(a0_transport_locked_t lk,
 }
 
 a0_err_t a0_transport_alloc_evicts(a0_transport_locked_t lk, size_t size, bool* out) {
+  if (size > a0_transport_header(lk)->arena_size) {
+    return A0_ERR_FRAME_LARGE;
+  }
   size_t frame_size = sizeof(a0_transport_frame_hdr_t) + size;
 
   size_t off;
@@ -637,6 +640,9 @@ a0_err_t a0_transport_alloc(a0_transport_locked_t lk, size_t size, a0_transport_
   if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
     return A0_MAKE_SYSERR(EPERM);
   }
+  if (size > a0_transport_header(lk)->arena_size) {
+    return A0_ERR_FRAME_LARGE;
+  }
   size_t frame_size = sizeof(a0_transport_frame_hdr_t) + size;
 
   size_t off;
-- 
2.43.0


From f5b1e31b8ba1f88f5d61867e99dbb61ae47477c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 28/36] fix: report a timeout from an immediate wait for an
 event

Condition variables refuse the immediate deadline as invalid.
---
 src/event.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/event.c b/src/event.c
index e46a93e..8f1aa63 100644
--- a/src/event.c
+++ b/src/event.c
@@ -3,8 +3,11 @@
 #include <a0/mtx.h>
 #include <a0/time.h>
 
+#include <errno.h>
 #include <stdbool.h>
 
+#include "err_macro.h"
+
 a0_err_t a0_event_is_set(a0_event_t* e, bool* out) {
   a0_err_t err = a0_mtx_lock(&e->_mtx);
   if (!a0_mtx_lock_successful(err)) {
@@ -38,6 +41,11 @@ a0_err_t a0_event_timedwait(a0_event_t* e, a0_time_mono_t* timeout) {
   }
   err = A0_OK;
 
+  // Condition variables do not accept A0_TIMEOUT_IMMEDIATE.
+  if (timeout && !timeout->ts.tv_sec && !timeout->ts.tv_nsec && !e->_val) {
+    err = A0_MAKE_SYSERR(ETIMEDOUT);
+  }
+
   while (!err && !e->_val) {
     err = a0_cnd_timedwait(&e->_cnd, &e->_mtx, timeout);
     if (a0_mtx_lock_successful(err)) {
-- 
2.43.0


From efc62323237d2049a3bf17bd2b9f8195d893b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 29/36] fix: report when the thread of a reader cannot be
 created

---
 src/reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 42c95ae..f6ca648 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -407,11 +407,17 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
   a0_transport_unlock(tlk);
 
-  pthread_create(
+  int create_err = pthread_create(
       &reader_zc->_thread,
       NULL,
       a0_reader_zc_thread_main,
       reader_zc);
+  if (create_err) {
+#ifdef DEBUG
+    a0_ref_cnt_dec(arena.buf.data, NULL);
+#endif
+    return A0_MAKE_SYSERR(create_err);
+  }
 
   return A0_OK;
 }
-- 
2.43.0


From 1b93499e501904a4bc298e06bde54e146f7ad1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 30/36] fix: refuse to jump outside the messages of a topic

Offsets into the header were accepted, and offsets near the largest number wrapped around.
---
 src/transport.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index b7d06a0..2309242 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -246,6 +246,9 @@ a0_err_t a0_transport_jump(a0_transport_locked_t lk, size_t off) {
   }
 
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
+  if (off < a0_transport_workspace_off() || off >= hdr->arena_size) {
+    return A0_ERR_RANGE;
+  }
   if (off + sizeof(a0_transport_frame_hdr_t) >= hdr->arena_size) {
     return A0_ERR_RANGE;
   }
-- 
2.43.0


From 1c465953bbf12c4155966a2d16c3919e3c743286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:33 +0000
Subject: [PATCH 31/36] fix: list relative directories below the root

The listing looked in the working directory, so removing a relative directory failed or removed the wrong names.
---
 src/file.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/file.c b/src/file.c
index bf1e06c..ea22021 100644
--- a/src/file.c
+++ b/src/file.c
@@ -349,22 +349,22 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
   memcpy(iter->_path, abspath, iter->_path_len + 1);
   free(abspath);
 
-  if (iter->_path[iter->_path_len - 1] != '/') {
-    iter->_path[iter->_path_len] = '/';
-    iter->_path_len++;
-  }
-
   stat_t stat;
-  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(path, &stat));
+  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(iter->_path, &stat));
 
   if (!S_ISDIR(stat.st_mode)) {
     return A0_MAKE_SYSERR(ENOTDIR);
   }
 
-  iter->_dir = opendir(path);
+  iter->_dir = opendir(iter->_path);
   if (!iter->_dir) {
     return A0_MAKE_SYSERR(errno);
   }
+
+  if (iter->_path[iter->_path_len - 1] != '/') {
+    iter->_path[iter->_path_len] = '/';
+    iter->_path_len++;
+  }
   return A0_OK;
 }
 
-- 
2.43.0


From 40beb70528d0630b2c741f305e684dd94aa09e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:31 +0000
Subject: [PATCH 32/36] fix: refuse directory entries whose path is too long

Listing a directory copied the path of each entry into a buffer of
PATH_MAX bytes without checking that it fits.
---
 src/discovery.c |  7 ++++++-
 src/file.c      | 10 +++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/discovery.c b/src/discovery.c
index a460fe5..5ac9396 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -80,7 +80,12 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
     // The directory is already gone.
     return;
   }
-  while (!a0_file_iter_next(&iter, &entry)) {
+  a0_err_t err;
+  while ((err = a0_file_iter_next(&iter, &entry)) != A0_ERR_ITER_DONE) {
+    if (err) {
+      // The path of this entry is too long.
+      continue;
+    }
     if (entry.d_type == DT_DIR) {
       a0_discovery_watch_recursive(d, entry.fullpath);
     } else if (entry.d_type == DT_REG) {
diff --git a/src/file.c b/src/file.c
index ea22021..48f1e54 100644
--- a/src/file.c
+++ b/src/file.c
@@ -377,6 +377,9 @@ a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
   }
 
   size_t len = strlen(dir_entity->d_name);
+  if (iter->_path_len + len > PATH_MAX) {
+    return A0_MAKE_SYSERR(ENAMETOOLONG);
+  }
 
   entry->filename = dir_entity->d_name;
   entry->fullpath = iter->_path;
@@ -409,7 +412,12 @@ a0_err_t a0_file_remove_all(const char* path) {
   A0_RETURN_ERR_ON_ERR(a0_file_iter_init(&iter, path));
 
   a0_file_iter_entry_t entry;
-  while (!a0_file_iter_next(&iter, &entry)) {
+  a0_err_t next_err;
+  while ((next_err = a0_file_iter_next(&iter, &entry)) != A0_ERR_ITER_DONE) {
+    if (next_err) {
+      // The path of this entry is too long. Removing the directory will fail.
+      continue;
+    }
     if (entry.d_type == DT_DIR) {
       a0_file_remove_all(entry.fullpath);
     }
-- 
2.43.0


From 4d1caa7f7d53c64a1024820ae29a31d5b7d12bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:31 +0000
Subject: [PATCH 33/36] fix: match paths deeper than 32 components

Splitting a path wrote past the parts of the pattern type. Patterns that
deep are now refused, and paths of any depth can be matched.
---
 src/pathglob.c | 72 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/pathglob.c b/src/pathglob.c
index 3bc738a..ab0bf43 100644
--- a/src/pathglob.c
+++ b/src/pathglob.c
@@ -14,14 +14,18 @@
 
 a0_err_t a0_abspath(const char* rel, char** out);
 
-a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
-  *glob = (a0_pathglob_t)A0_EMPTY;
-  if (!path_pattern) {
-    return A0_ERR_BAD_PATH;
+A0_STATIC_INLINE
+size_t a0_pathglob_count_parts(const uint8_t* abspath) {
+  size_t cnt = 0;
+  for (; *abspath; abspath++) {
+    cnt += *abspath == '/';
   }
-  A0_RETURN_ERR_ON_ERR(a0_abspath(path_pattern, (char**)&glob->abspath.data));
+  return cnt;
+}
 
-  uint8_t* iter = glob->abspath.data;
+A0_STATIC_INLINE
+void a0_pathglob_split(uint8_t* abspath, a0_pathglob_part_t* parts) {
+  uint8_t* iter = abspath;
   uint8_t* recent_slash = iter++;
   bool has_star = false;
   for (; *iter; iter++) {
@@ -35,7 +39,7 @@ a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
           type = A0_PATHGLOB_PART_TYPE_RECURSIVE;
         }
       }
-      glob->parts[glob->depth++] = (a0_pathglob_part_t){
+      *parts++ = (a0_pathglob_part_t){
           (a0_buf_t){recent_slash + 1, iter - recent_slash - 1},
           type,
       };
@@ -43,10 +47,25 @@ a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
     }
   }
   a0_pathglob_part_type_t type = has_star ? A0_PATHGLOB_PART_TYPE_PATTERN : A0_PATHGLOB_PART_TYPE_VERBATIM;
-  glob->parts[glob->depth++] = (a0_pathglob_part_t){
+  *parts = (a0_pathglob_part_t){
       (a0_buf_t){recent_slash + 1, iter - recent_slash - 1},
       type,
   };
+}
+
+a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
+  *glob = (a0_pathglob_t)A0_EMPTY;
+  if (!path_pattern) {
+    return A0_ERR_BAD_PATH;
+  }
+  A0_RETURN_ERR_ON_ERR(a0_abspath(path_pattern, (char**)&glob->abspath.data));
+
+  glob->depth = a0_pathglob_count_parts(glob->abspath.data);
+  if (glob->depth > A0_PATHGLOB_MAX_DEPTH) {
+    a0_pathglob_close(glob);
+    return A0_ERR_BAD_PATH;
+  }
+  a0_pathglob_split(glob->abspath.data, glob->parts);
 
   return A0_OK;
 }
@@ -115,9 +134,34 @@ a0_err_t a0_pathglob_part_match(a0_pathglob_part_t globpart, a0_buf_t buf, bool*
   return A0_ERR_INVALID_ARG;
 }
 
+typedef struct a0_pathglob_real_s {
+  uint8_t* abspath;
+  a0_pathglob_part_t* parts;
+  size_t depth;
+} a0_pathglob_real_t;
+
+// Unlike a pattern, the path may be of any depth.
+A0_STATIC_INLINE
+a0_err_t a0_pathglob_real_init(a0_pathglob_real_t* real, const char* path) {
+  if (!path) {
+    return A0_ERR_BAD_PATH;
+  }
+  A0_RETURN_ERR_ON_ERR(a0_abspath(path, (char**)&real->abspath));
+  real->depth = a0_pathglob_count_parts(real->abspath);
+  real->parts = (a0_pathglob_part_t*)malloc(real->depth * sizeof(a0_pathglob_part_t));
+  a0_pathglob_split(real->abspath, real->parts);
+  return A0_OK;
+}
+
+A0_STATIC_INLINE
+void a0_pathglob_real_close(a0_pathglob_real_t* real) {
+  free(real->parts);
+  free(real->abspath);
+}
+
 a0_err_t a0_pathglob_match(a0_pathglob_t* glob, const char* path, bool* out) {
-  a0_pathglob_t real;
-  A0_RETURN_ERR_ON_ERR(a0_pathglob_init(&real, path));
+  a0_pathglob_real_t real;
+  A0_RETURN_ERR_ON_ERR(a0_pathglob_real_init(&real, path));
 
   size_t star_g = 0;
   size_t star_r = 0;
@@ -130,7 +174,7 @@ a0_err_t a0_pathglob_match(a0_pathglob_t* glob, const char* path, bool* out) {
       star_r = real_idx;
       if (glob_idx == glob->depth && real_idx + 1 != real.depth) {
         *out = true;
-        a0_pathglob_close(&real);
+        a0_pathglob_real_close(&real);
         return A0_OK;
       }
     } else {
@@ -144,7 +188,7 @@ a0_err_t a0_pathglob_match(a0_pathglob_t* glob, const char* path, bool* out) {
       } else {
         if (!star_g) {
           *out = false;
-          a0_pathglob_close(&real);
+          a0_pathglob_real_close(&real);
           return A0_OK;
         }
         real_idx = ++star_r;
@@ -155,11 +199,11 @@ a0_err_t a0_pathglob_match(a0_pathglob_t* glob, const char* path, bool* out) {
   for (; glob_idx < glob->depth; glob_idx++) {
     if (glob->parts[glob_idx].type != A0_PATHGLOB_PART_TYPE_RECURSIVE) {
       *out = false;
-      a0_pathglob_close(&real);
+      a0_pathglob_real_close(&real);
       return A0_OK;
     }
   }
   *out = true;
-  a0_pathglob_close(&real);
+  a0_pathglob_real_close(&real);
   return A0_OK;
 }
-- 
2.43.0


From 9c8b5d13fa68c05a245c2556ab6d0534863df75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:31 +0000
Subject: [PATCH 34/36] fix: allow discovery patterns longer than PATH_MAX

The directory part was copied into a buffer of PATH_MAX bytes.
---
 src/discovery.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/discovery.c b/src/discovery.c
index 5ac9396..3f7a9b5 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -103,7 +103,7 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
 A0_STATIC_INLINE
 void a0_discovery_watch_root(a0_discovery_t* d) {
   size_t root_size = a0_discovery_rootlen(d);
-  char root_path[PATH_MAX];
+  char* root_path = (char*)malloc(root_size + 1);
   for (size_t i = 0; i < root_size; i++) {
     root_path[i] = d->_pathglob.abspath.data[i];
     if (root_path[i] == '/' && i + 1 < root_size) {
@@ -113,6 +113,7 @@ void a0_discovery_watch_root(a0_discovery_t* d) {
   }
   root_path[root_size] = '\0';
   a0_discovery_watch_recursive(d, root_path);
+  free(root_path);
 }
 
 A0_STATIC_INLINE
-- 
2.43.0


From 34c7c625d988d755f7ffcae70a0df5e4646bd946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:14 +0000
Subject: [PATCH 35/36] fix: end the message of an exception thrown by a wait
 predicate

A message shorter than the previous one kept the end of the previous one.
---
 src/transport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport.cpp b/src/transport.cpp
index cb7f980..2b67e9d 100644
--- a/src/transport.cpp
+++ b/src/transport.cpp
@@ -138,7 +138,7 @@ a0_predicate_t pred(std::function<bool()>* fn) {
         } catch (const std::exception& e) {
           size_t len = std::min(1023ul, strnlen(e.what(), 1023));
           memcpy(a0_err_msg, e.what(), len);
-          a0_err_msg[1023] = '\0';
+          a0_err_msg[len] = '\0';
           return A0_ERR_CUSTOM_MSG;
         }
         return A0_OK;
-- 
2.43.0


From aea051715d63506cf4f47a4d7cadfacbdc8f3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:07 +0000
Subject: [PATCH 36/36] fix: refuse to close a reader from its own callback

The close compared a pthread handle with a kernel thread id, so the check
never matched: the reader's thread joined itself, the close reported
success and callbacks went on. Handles built on a reader now report the
refusal and keep their file open.
---
 src/cfg.c    | 2 +-
 src/log.c    | 2 +-
 src/prpc.c   | 4 ++--
 src/pubsub.c | 4 ++--
 src/reader.c | 2 +-
 src/rpc.c    | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cfg.c b/src/cfg.c
index ea96204..53935f6 100644
--- a/src/cfg.c
+++ b/src/cfg.c
@@ -127,7 +127,7 @@ a0_err_t a0_cfg_watcher_init(a0_cfg_watcher_t* cw,
 }
 
 a0_err_t a0_cfg_watcher_close(a0_cfg_watcher_t* cw) {
-  a0_reader_close(&cw->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&cw->_reader));
   a0_file_close(&cw->_file);
   return A0_OK;
 }
diff --git a/src/log.c b/src/log.c
index 0923f8b..4b31f25 100644
--- a/src/log.c
+++ b/src/log.c
@@ -164,7 +164,7 @@ a0_err_t a0_log_listener_init(a0_log_listener_t* log_list,
 }
 
 a0_err_t a0_log_listener_close(a0_log_listener_t* log_list) {
-  a0_reader_close(&log_list->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&log_list->_reader));
   a0_file_close(&log_list->_file);
   return A0_OK;
 }
diff --git a/src/prpc.c b/src/prpc.c
index ce75e4c..5305c38 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -105,7 +105,7 @@ a0_err_t a0_prpc_server_init(a0_prpc_server_t* server,
 }
 
 a0_err_t a0_prpc_server_close(a0_prpc_server_t* server) {
-  a0_reader_close(&server->_connection_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_connection_reader));
   a0_writer_close(&server->_progress_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -233,7 +233,7 @@ a0_err_t a0_prpc_client_init(a0_prpc_client_t* client,
 }
 
 a0_err_t a0_prpc_client_close(a0_prpc_client_t* client) {
-  a0_reader_close(&client->_progress_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_progress_reader));
   a0_writer_close(&client->_connection_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_connections);
diff --git a/src/pubsub.c b/src/pubsub.c
index fd959dd..035af30 100644
--- a/src/pubsub.c
+++ b/src/pubsub.c
@@ -168,7 +168,7 @@ a0_err_t a0_subscriber_zc_init(a0_subscriber_zc_t* sub_zc,
 }
 
 a0_err_t a0_subscriber_zc_close(a0_subscriber_zc_t* sub_zc) {
-  a0_reader_zc_close(&sub_zc->_reader_zc);
+  A0_RETURN_ERR_ON_ERR(a0_reader_zc_close(&sub_zc->_reader_zc));
   a0_file_close(&sub_zc->_file);
   return A0_OK;
 }
@@ -197,7 +197,7 @@ a0_err_t a0_subscriber_init(a0_subscriber_t* sub,
 }
 
 a0_err_t a0_subscriber_close(a0_subscriber_t* sub) {
-  a0_reader_close(&sub->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&sub->_reader));
   a0_file_close(&sub->_file);
   return A0_OK;
 }
diff --git a/src/reader.c b/src/reader.c
index f6ca648..000d14d 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -424,7 +424,7 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
 a0_err_t a0_reader_zc_close(a0_reader_zc_t* reader_zc) {
   a0_event_wait(&reader_zc->_thread_start_event);
-  if (pthread_equal(pthread_self(), reader_zc->_thread_id)) {
+  if (a0_tid() == reader_zc->_thread_id) {
     return A0_MAKE_SYSERR(EDEADLK);
   }
 #ifdef DEBUG
diff --git a/src/rpc.c b/src/rpc.c
index 148cb0b..783d6e2 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -105,7 +105,7 @@ a0_err_t a0_rpc_server_init(a0_rpc_server_t* server,
 }
 
 a0_err_t a0_rpc_server_close(a0_rpc_server_t* server) {
-  a0_reader_close(&server->_request_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_request_reader));
   a0_writer_close(&server->_response_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -237,7 +237,7 @@ a0_err_t a0_rpc_client_init(a0_rpc_client_t* client,
 }
 
 a0_err_t a0_rpc_client_close(a0_rpc_client_t* client) {
-  a0_reader_close(&client->_response_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_response_reader));
   a0_writer_close(&client->_request_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_requests);
-- 
2.43.0

