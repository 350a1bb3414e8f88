From 53edb3f19534d10a60d28b6d6b14fb63a9140c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 01/70] fix: a descriptor wait's timeout must not outlive the
 wait

The timer embedded in a file event was taken off the timer list when the
event fired but still looked armed, stayed on the list when the event was
deleted, and was read uninitialised for a descriptor that never had one.
The next wait on the descriptor then unlinked a node that was not (or no
longer) linked, losing or corrupting unrelated timers.
---
 src/cxy/stdlib/native/evloop/ae.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index ab3d047..476c618 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -706,6 +706,14 @@ static void aeRemoveTimerEvent(aeEventLoop *eventLoop, aeTimeEvent *te)
         te->next->prev = te->prev;
 }
 
+/* Take the timeout of a file event, if it has one, off the list of timers */
+static void aeCancelFileTimer(aeEventLoop *eventLoop, aeFileEvent *fe)
+{
+    if (fe->timer.when_sec > 0 || fe->timer.when_ms > 0)
+        aeRemoveTimerEvent(eventLoop, (aeTimeEvent *)fe);
+    fe->timer.when_ms = fe->timer.when_sec = 0;
+}
+
 static void aeFileEventTimeout(aeEventLoop *eventLoop, int fd, aeFileEvent *fe)
 {
     fe->timer.when_ms = fe->timer.when_sec = 0;
@@ -741,6 +749,7 @@ aeEventLoop *aeCreateEventLoop(void *context, int setsize)
         goto err;
     /* Events with mask == AE_NONE are not set. So let's initialize the
      * vector with it. */
+    memset(eventLoop->events, 0, sizeof(aeFileEvent) * setsize);
     for (i = 0; i < setsize; i++)
         eventLoop->events[i].mask = AE_NONE;
     return eventLoop;
@@ -814,6 +823,7 @@ enum Status aeCreateFileEvent(aeEventLoop *eventLoop,
     if (aeApiAddEvent(eventLoop, fd, mask) == -1)
         return AE_ERR;
 
+    aeCancelFileTimer(eventLoop, fe);
     if (timeout > 0) {
         fe->timer.fd = fd;
         aeAddTimeEvent(eventLoop, (aeTimeEvent *)fe, timeout);
@@ -845,6 +855,8 @@ void aeDeleteFileEvent(aeEventLoop *eventLoop, int fd, enum State mask)
 
     aeApiDelEvent(eventLoop, fd, mask);
     fe->mask = fe->mask & (~mask);
+    if (fe->mask == AE_NONE)
+        aeCancelFileTimer(eventLoop, fe);
     if (fd == eventLoop->maxfd && fe->mask == AE_NONE) {
         /* Update the max fd */
         int j;
@@ -1136,9 +1148,7 @@ int aeProcessEvents(aeEventLoop *eventLoop, enum Flags flags, int64_t timeout)
              * before replying to a client. */
             int invert = fe->mask & AE_BARRIER;
 
-            aeTimeEvent *te = (aeTimeEvent *)fe;
-            if (te->when_sec > 0 || te->when_ms > 0)
-                aeRemoveTimerEvent(eventLoop, te);
+            aeCancelFileTimer(eventLoop, fe);
 
             /* Note the "fe->mask & mask & ..." code: maybe an already
              * processed event removed an element that fired and we still
-- 
2.43.0


From 3bc2c8cc0f87930714d77f81d8102a1990c9447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 02/70] fix: a wait for input ends on hang-up and error, and
 wakes its task once

EPOLLHUP and EPOLLERR were only reported as writability, so a task waiting
to read from a pipe whose writer had gone was never resumed while the loop
spun; and input together with hang-up was reported to the reader as
something that no caller recognises as readable. The event also stayed
armed until the resumed task ran, so that a second poll before that put
the task on the ready list twice.
---
 src/cxy/stdlib/coro.cxy           |  5 ++++-
 src/cxy/stdlib/native/evloop/ae.c | 13 ++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 6ed2f5b..7da36b0 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -181,11 +181,14 @@ class CoroutineScheduler {
     }
 
     @[static]
-    func eventLoopCallback(loop: ^ae.aeEventLoop, @unused fd: i32, arg: ^void, mask: i32) {
+    func eventLoopCallback(loop: ^ae.aeEventLoop, fd: i32, arg: ^void, mask: i32) {
         // resume the coroutine waiting for the event
         var scheduler = &(loop.context !: This);
         var cr = arg !: ^Coroutine;
         // printf("    fev(%p, %s:%p)\n", scheduler.running, cr.name, cr)
+        // One wait is one wake up, the descriptor might be reported again before the coroutine runs
+        ae.aeDeleteFileEvent(loop, fd, ae.State.AE_READABLE)
+        ae.aeDeleteFileEvent(loop, fd, ae.State.AE_WRITABLE)
         scheduler.resume(cr, mask)
     }
 
diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index 476c618..c76ba66 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -449,9 +449,9 @@ static int aeApiPoll(aeEventLoop *eventLoop, struct timeval *tvp)
             if (e->events & EPOLLOUT)
                 mask |= AE_WRITABLE;
             if (e->events & EPOLLERR)
-                mask |= AE_WRITABLE;
+                mask |= AE_WRITABLE | AE_READABLE;
             if (e->events & EPOLLHUP)
-                mask |= AE_WRITABLE;
+                mask |= AE_WRITABLE | AE_READABLE;
             eventLoop->fired[j].fd = e->data.fd;
             eventLoop->fired[j].mask = mask;
         }
@@ -1157,14 +1157,16 @@ int aeProcessEvents(aeEventLoop *eventLoop, enum Flags flags, int64_t timeout)
              * Fire the readable event if the call sequence is not
              * inverted. */
             if (!invert && fe->mask & mask & AE_READABLE) {
-                fe->rfileProc(eventLoop, fd, fe->clientData, mask);
+                fe->rfileProc(
+                    eventLoop, fd, fe->clientData, fe->mask & mask);
                 fired++;
             }
 
             /* Fire the writable event. */
             if (fe->mask & mask & AE_WRITABLE) {
                 if (!fired || fe->wfileProc != fe->rfileProc) {
-                    fe->wfileProc(eventLoop, fd, fe->clientData, mask);
+                    fe->wfileProc(
+                        eventLoop, fd, fe->clientData, fe->mask & mask);
                     fired++;
                 }
             }
@@ -1173,7 +1175,8 @@ int aeProcessEvents(aeEventLoop *eventLoop, enum Flags flags, int64_t timeout)
              * after the writable one. */
             if (invert && fe->mask & mask & AE_READABLE) {
                 if (!fired || fe->wfileProc != fe->rfileProc) {
-                    fe->rfileProc(eventLoop, fd, fe->clientData, mask);
+                    fe->rfileProc(
+                        eventLoop, fd, fe->clientData, fe->mask & mask);
                     fired++;
                 }
             }
-- 
2.43.0


From c87312e586237ff431a501dec219e0259e4c173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 03/70] fix: ending a coroutine must not touch the frame that
 launched it

The code after the call in __async runs on the coroutine's stack but with
the frame pointer of the launching function, which has usually returned by
then. Reading 'sched' from there picked up whatever had been put in its
place and crashed. Leave the coroutine through a function without
arguments or temporaries instead.
---
 src/cxy/lang/middle/builtins.h | 1 +
 src/cxy/stdlib/coro.cxy        | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/builtins.h b/src/cxy/lang/middle/builtins.h
index 2d35f55..17f3367 100644
--- a/src/cxy/lang/middle/builtins.h
+++ b/src/cxy/lang/middle/builtins.h
@@ -13,6 +13,7 @@ extern "C" {
 // clang-format off
 #define OVERRIDABLE_BUILTINS(f)    \
     f(__scheduler)                 \
+    f(__scheduler_exit)            \
     f(__thread_launch)             \
     f(timestamp)                   \
     f(fdWaitRead)                  \
diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 7da36b0..4db17b9 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -326,6 +326,13 @@ func __get_scheduler() {
     return &__cxy_coro_scheduler
 }
 
+// Ends the running coroutine. The frame which launched it may already have been left (or its stack
+// reused), so unlike its launch the end of a coroutine must not read or write any local of that frame
+@[__override_builtin("__scheduler_exit")]
+func __scheduler_leave() {
+    __get_scheduler().epilogue()
+}
+
 macro coroSuspend() __scheduler().suspend()
 macro coroResume(CO, RES) __scheduler().resume(CO!, RES!)
 macro coroYield() __scheduler().yld()
@@ -340,7 +347,7 @@ macro __async(CALL, NAME) {
         var cr = sched.prologue(NAME!, file!, line!);
         __cxy_coro_setsp!(cr !: ^void)
         CALL!
-        sched.epilogue()
+        __scheduler_exit()
     }
 }
 
-- 
2.43.0


From ea2702e041e4b4fa44d90d06b05d96fa185cece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:36 +0000
Subject: [PATCH 04/70] fix: give back the memory of every finished coroutine

With a full cache freeStack unmapped a cached stack and dropped the one
being freed, which was never cached nor unmapped.
---
 src/cxy/stdlib/coro.cxy | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 4db17b9..2837018 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -164,11 +164,9 @@ class CoroutineScheduler {
             var stack = stacks.pop();
             vmem.munmap(stack !: ^void, stackSize)
         }
-        else {
-            // cache the stack
-            var base = (ptr !: ^u8) + (-stackSize);
-            stacks.push(base !: ^CachedStack);
-        }
+        // cache the stack, it cannot be deleted because we are still running on it
+        var base = (ptr !: ^u8) + (-stackSize);
+        stacks.push(base !: ^CachedStack);
     }
 
     @inline
-- 
2.43.0


From 4a21e4988b596d9951fab738b28478076cdfe299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:37 +0000
Subject: [PATCH 05/70] fix: unlocking a coroutine mutex nobody waits for
 leaves it free

---
 src/cxy/stdlib/coro.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/coro.cxy b/src/cxy/stdlib/coro.cxy
index 2837018..e6f0bff 100644
--- a/src/cxy/stdlib/coro.cxy
+++ b/src/cxy/stdlib/coro.cxy
@@ -385,11 +385,11 @@ pub struct Mutex {
     }
 
     func unlock() {
-        var next = waiting.pop()
+        var next = waiting.pop();
+        holder = next
         if (next == null) {
             return
         }
-        holder = next
         coroResume!(next, 0)
     }
 }
-- 
2.43.0


From 0ad9bb5ec645cac8df4b8f3e1d30d4f55fe91289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 06/70] fix: a socket waits to become writable, not readable,
 before it sends more

---
 src/cxy/stdlib/net.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/net.cxy b/src/cxy/stdlib/net.cxy
index 9d342ae..628eac8 100644
--- a/src/cxy/stdlib/net.cxy
+++ b/src/cxy/stdlib/net.cxy
@@ -506,7 +506,7 @@ pub class Socket {
             }
         }
         else if (state == .AE_WRITABLE) {
-            const rc = fdWaitRead(_fd, timeout);
+            const rc = fdWaitWrite(_fd, timeout);
             if (rc != State.AE_WRITABLE) {
                 errno! = ETIMEDOUT!;
                 return false
-- 
2.43.0


From 08f4adf7a387eafff58a2168df3b586cc313b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:55 +0000
Subject: [PATCH 07/70] fix: sending a file range over a socket advances and
 succeeds

---
 src/cxy/stdlib/tcp.cxy | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/cxy/stdlib/tcp.cxy b/src/cxy/stdlib/tcp.cxy
index 33a6fe6..9aa664a 100644
--- a/src/cxy/stdlib/tcp.cxy
+++ b/src/cxy/stdlib/tcp.cxy
@@ -29,8 +29,8 @@ else {
     func Socket_sendfile(outFd: i32, inFd: i32, off: ^u64, count: u64) {
         var offset = <i64>*off;
         var status = sf.sendfile(outFd, inFd, ptrof offset, count)
-        if (status == 0)
-            *off = offset
+        if (status > 0)
+            *off = <u64>offset
         return status
     }
 }
@@ -135,11 +135,17 @@ pub class TcpSocket: Socket {
     }
 
     func sendFile(fd: i32, offset: u64, count: u64, timeout: u64 = 0): u64? {
-        var toffset = offset + count
-        var remaining = count
-        while (toffset > offset) {
-            var sz = Socket_sendfile(super._fd, fd, ptrof offset, remaining)
-            if (sz == -1 || sz == 0) {
+        var position = offset;
+        var remaining = count;
+        while (remaining > 0) {
+            var sz = Socket_sendfile(super._fd, fd, ptrof position, remaining)
+            if (sz == 0) {
+                // the file ends before the range does
+                errno! = EIO!
+                return null
+            }
+
+            if (sz == -1) {
                 if (errno!  == EPIPE!) {
                     errno! = ECONNRESET!
                     close()
-- 
2.43.0


From 11923bf9289ccb3d4537ca0eb5340a725f38d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 08/70] fix: connecting does not block the other tasks, a
 failed attempt closes its socket

---
 src/cxy/stdlib/tcp.cxy | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/tcp.cxy b/src/cxy/stdlib/tcp.cxy
index 9aa664a..146c43f 100644
--- a/src/cxy/stdlib/tcp.cxy
+++ b/src/cxy/stdlib/tcp.cxy
@@ -252,16 +252,22 @@ pub func tcpConnect(addr: Address, timeout: u64 = 0): !i32 {
     var fd = socket.socket(addr.family(), <i32>SOCK_STREAM!, 0);
     if (fd == -1)
         raise TcpError(f"socket.socket(${addr}) failed: ${strerr()}")
+    configureSocket(fd)
 
     /* Connect to the remote endpoint. */
     var rc = socket.connect(fd, addr.nativeAddr(), <i32>addr.len());
     if (rc != 0) {
         assert!(rc == -1)
-        if (errno! != EINPROGRESS!)
+        if (errno! != EINPROGRESS!) {
+            const error = errno!;
+            unistd.close(fd)
+            errno! = error
             raise TcpError(f"socket.connect(${addr}) failed: ${strerr()}")
+        }
 
         rc = fdWaitWrite(fd, timeout)
         if (rc != State.AE_WRITABLE) {
+            unistd.close(fd)
             errno! = ETIMEDOUT!
             raise TcpError(f"Waiting for socket(${addr}) to be writable failed")
         }
@@ -284,6 +290,5 @@ pub func tcpConnect(addr: Address, timeout: u64 = 0): !i32 {
     }
 
     errno! = 0
-    configureSocket(fd)
     return fd
 }
-- 
2.43.0


From 1e0e5cc17c9b6f015eb01752683347bb5fe45646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:58 +0000
Subject: [PATCH 09/70] fix: sending to a peer that is gone fails instead of
 ending the program with SIGPIPE

---
 src/cxy/stdlib/native/evloop/ae.c | 6 ++++++
 src/cxy/stdlib/native/evloop/ae.h | 6 ++++++
 src/cxy/stdlib/os.cxy             | 3 +++
 src/cxy/stdlib/tcp.cxy            | 3 +++
 4 files changed, 18 insertions(+)

diff --git a/src/cxy/stdlib/native/evloop/ae.c b/src/cxy/stdlib/native/evloop/ae.c
index c76ba66..bfea979 100644
--- a/src/cxy/stdlib/native/evloop/ae.c
+++ b/src/cxy/stdlib/native/evloop/ae.c
@@ -4,6 +4,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <poll.h>
+#include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -730,6 +731,7 @@ aeEventLoop *aeCreateEventLoop(void *context, int setsize)
     aeEventLoop *eventLoop;
     int i;
 
+    aeIgnoreSigpipe();
     if ((eventLoop = zmalloc(sizeof(*eventLoop))) == NULL)
         goto err;
     eventLoop->events = zmalloc(sizeof(aeFileEvent) * setsize);
@@ -886,6 +888,10 @@ void aeGetTime(long *seconds, long *milliseconds)
     *milliseconds = tv.tv_usec / 1000;
 }
 
+void aeIgnoreSigpipe(void) { signal(SIGPIPE, SIG_IGN); }
+
+void aeRestoreSigpipe(void) { signal(SIGPIPE, SIG_DFL); }
+
 int64_t aeOsTime()
 {
 #if defined __APPLE__
diff --git a/src/cxy/stdlib/native/evloop/ae.h b/src/cxy/stdlib/native/evloop/ae.h
index f9ee7b2..6536681 100644
--- a/src/cxy/stdlib/native/evloop/ae.h
+++ b/src/cxy/stdlib/native/evloop/ae.h
@@ -152,4 +152,10 @@ void aeGetTime(long *seconds, long *milliseconds);
 
 int64_t aeOsTime();
 
+/* Have writes to a closed socket or pipe fail with EPIPE, by default the signal
+ * that comes with it would end the program */
+void aeIgnoreSigpipe(void);
+/* For a child process, which would inherit it */
+void aeRestoreSigpipe(void);
+
 #endif
diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index b2a03ea..1765c6c 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -5,6 +5,7 @@ import { State } from "./coro.cxy"
 import "errno.h" as errno
 import "unistd.h" as unistd
 import "sys/wait.h" as syswait
+import "native/evloop/ae.h" as ae
 
 import "native/nos.h" as nos
 @__cc "native/nos.c"
@@ -628,6 +629,7 @@ pub func execvpe(cmd: string, argv: [string], env: [(string, string)]): !Process
 
     if (pid == 0) {
         // Child process
+        ae.aeRestoreSigpipe()
         unistd.dup2(input.[1], STDIN_FILENO!)
         unistd.dup2(out.[1], STDOUT_FILENO!)
         unistd.dup2(err.[1], STDERR_FILENO!)
@@ -793,6 +795,7 @@ pub func execute[T](
                 stdlib.setenv(x.0 !: ^const char, x.1 !: ^const char, 1)
         }
 
+        ae.aeRestoreSigpipe()
         var ret = unistd.execvp("sh" !: ^const char, argv !: ^^const char)
         raise IOError(f"starting ${cmd} failed: ${strerr()}")
         stdlib.exit(ret)
diff --git a/src/cxy/stdlib/tcp.cxy b/src/cxy/stdlib/tcp.cxy
index 146c43f..0c14ec6 100644
--- a/src/cxy/stdlib/tcp.cxy
+++ b/src/cxy/stdlib/tcp.cxy
@@ -4,6 +4,7 @@ import { Address, Socket } from "./net.cxy"
 import { State } from "./coro.cxy"
 
 import "sys/socket.h" as socket
+import "native/evloop/ae.h" as ae
 import "unistd.h" as unistd
 ##if (defined MACOS) {
     import "sys/errno.h" as errno
@@ -61,6 +62,8 @@ func configureSocket(fd: i32)  {
 pub class TcpSocket: Socket {
     func `init`(fd: i32, addr: Address) {
         super(fd, &&addr)
+        // sending to a peer that is gone is an error
+        ae.aeIgnoreSigpipe()
     }
 
     func `init`() {
-- 
2.43.0


From 669d1685acf3f4ab544a52d49a8e2f0371c99e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 10/70] fix: setting a local pointer to null takes effect

---
 src/cxy/lang/middle/mem/manage.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c0311e8..8f254ee 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -485,7 +485,11 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
         }
         if (nodeIs(rhs, NullLit)) {
-            node->tag = astNoop;
+            const Type *type = resolveUnThisUnwrapType(lhs->type);
+            if (isClassType(type) || isDestructible(type)) {
+                // Dropping the variable also clears it
+                node->tag = astNoop;
+            }
             vt->state = isClassType(lhs->type) ? vtsDropped : vtsAssigned;
             return;
         }
-- 
2.43.0


From f7e8f0f27aed33551cf398e0f69cae91c69913cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 11/70] fix: the root as search domain asks for the name
 itself, not for a malformed name

---
 src/cxy/stdlib/native/dns/dns.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/native/dns/dns.c b/src/cxy/stdlib/native/dns/dns.c
index 3c6a89b..161ff38 100644
--- a/src/cxy/stdlib/native/dns/dns.c
+++ b/src/cxy/stdlib/native/dns/dns.c
@@ -5158,8 +5158,10 @@ size_t dns_resconf_search(void *dst,
             (slen = strlen(resconf->search[srchi]))) {
             len = dns__printstring(dst, lim, 0, qname, qlen);
             len = dns_d_anchor(dst, lim, dst, len);
-            len +=
-                dns__printstring(dst, lim, len, resconf->search[srchi], slen);
+            /* the root domain adds nothing to the anchored name */
+            if (resconf->search[srchi][0] != '.')
+                len += dns__printstring(
+                    dst, lim, len, resconf->search[srchi], slen);
 
             srchi++;
 
-- 
2.43.0


From e93216c28614b6c44a005fcdd15b706ecd579d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:30 +0000
Subject: [PATCH 12/70] fix: looking up an address ends when answers get lost,
 and when a lookup fails

---
 src/cxy/stdlib/net.cxy | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/cxy/stdlib/net.cxy b/src/cxy/stdlib/net.cxy
index 628eac8..2855b64 100644
--- a/src/cxy/stdlib/net.cxy
+++ b/src/cxy/stdlib/net.cxy
@@ -323,15 +323,13 @@ pub async func getRemoteAddress(name: string, port: u16, mode: IPVersion = IPVer
        return addr
 
     /* Load DNS config files, unless they are already chached. */
-    if (cxy_DNS_conf == null) {
-        /* TODO: Maybe re-read the configuration once in a while? */
+    /* TODO: Maybe re-read the configuration once in a while? */
+    if (cxy_DNS_conf == null)
         cxy_DNS_conf = dns.dns_resconf_local(ptrof rc)
-        assert!(cxy_DNS_conf != null)
+    if (cxy_DNS_hosts == null)
         cxy_DNS_hosts = dns.dns_hosts_local(ptrof rc)
-        assert!(cxy_DNS_hosts != null)
+    if (cxy_DNS_hints == null && cxy_DNS_conf != null)
         cxy_DNS_hints = dns.dns_hints_local(cxy_DNS_conf, ptrof rc)
-        assert!(cxy_DNS_hints != null)
-    }
 
     /* Let's do asynchronous DNS query here. */
     var resolver = dns.dns_res_open(
@@ -341,7 +339,10 @@ pub async func getRemoteAddress(name: string, port: u16, mode: IPVersion = IPVer
         null,
         null,
         ptrof rc);
-    assert!(resolver != null)
+    if (resolver == null) {
+        /* Not configured, or out of descriptors or memory */
+        return addr
+    }
     var ports: [char, 8]  = [];
     sprintf(ports !: ^char, "%d", port)
 
@@ -358,8 +359,9 @@ pub async func getRemoteAddress(name: string, port: u16, mode: IPVersion = IPVer
         ptrof rc
     );
 
-    assert!(ai != null)
     dns.dns_res_close(resolver)
+    if (ai == null)
+        return addr
 
     var ipv4 : ^netdb.addrinfo = null;
     var ipv6 : ^netdb.addrinfo = null;
@@ -367,19 +369,27 @@ pub async func getRemoteAddress(name: string, port: u16, mode: IPVersion = IPVer
     while {
         rc = dns.dns_ai_nextent(ptrof it, ai)
         if (rc == EAGAIN!) {
-            var fd = dns.dns_ai_pollfd(ai);
-            assert!(fd >= 0)
-            fdWaitRead(fd)
+            /* A query or its answer can get lost, so never wait longer than the resolver would.
+               It moves on to the next attempt or server when its own timeout has passed */
+            const fd = dns.dns_ai_pollfd(ai);
+            const timeout = <u64>dns.dns_ai_timeout(ai) * 1000 + 100;
+            if (fd < 0)
+                sleepAsync(10)
+            else if ((dns.dns_ai_events(ai) & POLLOUT!) != 0)
+                fdWaitWrite(fd, timeout)
+            else
+                fdWaitRead(fd, timeout)
             continue
         }
 
-        if (rc == ENOENT!)
+        /* No more addresses, or the lookup failed */
+        if (rc != 0 || it == null)
             break
 
-        if (ipv4 == null && it != null && it.ai_family == AF_INET!) {
+        if (ipv4 == null && it.ai_family == AF_INET!) {
             ipv4 = it
         }
-        else if (ipv6 == null && it != null && it.ai_family == AF_INET6!) {
+        else if (ipv6 == null && it.ai_family == AF_INET6!) {
             ipv6 = it
         }
         else {
-- 
2.43.0


From 87f6780422027bbd69d6c297d7bb53883fe6d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:23 +0000
Subject: [PATCH 13/70] fix: removing from a hash table keeps chains that wrap
 around reachable

The element moved into the freed bucket may be one whose own bucket lies
after it when the chain wraps past the end of the table, which made later
lookups miss it. The type table hashes some types by address, so the
compiler generated different code for the same program from run to run.
---
 src/cxy/core/htable.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index 8aa1b66..d264eed 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -182,7 +182,11 @@ void removeFromHashTable(HashTable *hashTable, void *elem, size_t elemSize)
         HashCode next_hash = hashTable->hashes[next_index];
         size_t desired_index = modPrime(next_hash, hashTable->capacity);
         // If the next element is part of the collision chain, move it
-        if (desired_index <= index || desired_index > next_index) {
+        // (it stays when its desired index lies cyclically in (index, next_index])
+        bool stays = index < next_index
+                         ? index < desired_index && desired_index <= next_index
+                         : index < desired_index || desired_index <= next_index;
+        if (!stays) {
             void *next_elem = elemAt(hashTable->elems, elemSize, next_index);
             memcpy(elem, next_elem, elemSize);
             hashTable->hashes[index] = next_hash;
-- 
2.43.0


From a445c4da1ec344b7539d37140e2fb59460678550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:02 +0000
Subject: [PATCH 14/70] fix: the type table starts out empty instead of with
 what the memory held

---
 src/cxy/lang/frontend/ttable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/ttable.c b/src/cxy/lang/frontend/ttable.c
index 03bddbe..78fae99 100644
--- a/src/cxy/lang/frontend/ttable.c
+++ b/src/cxy/lang/frontend/ttable.c
@@ -485,7 +485,7 @@ static bool countTypesWrapper(void *ctx, const void *elem)
 
 TypeTable *newTypeTable(MemPool *pool, StrPool *strPool)
 {
-    TypeTable *table = mallocOrDie(sizeof(TypeTable));
+    TypeTable *table = callocOrDie(1, sizeof(TypeTable));
     table->types = newHashTable(sizeof(Type *));
     table->strPool = strPool;
     table->memPool = pool;
-- 
2.43.0


From 144882e3c5c18a32847ac7783a0d0759f9f5ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 15/70] fix: a build whose generated code could not be written
 fails instead of compiling what got written

---
 src/cxy/lang/backend/c/generate.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index dca248c..c3ed490 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -2128,8 +2128,17 @@ bool compilerBackendMakeExecutable(CompilerDriver *driver)
     if (backend->output) {
         generateCodeEpilogue(backend->output);
         fprintf(backend->output, "\n/* %s */\n", command);
-        fclose(backend->output);
+        bool failed = ferror(backend->output) != 0;
+        failed |= fclose(backend->output) != 0;
         backend->output = NULL;
+        if (failed) {
+            logError(driver->L,
+                     builtinLoc(),
+                     "writing output file '{s}' failed",
+                     (FormatArg[]){{.s = backend->filename}});
+            free((void *)command);
+            return false;
+        }
     }
 
     int rc = system(command);
-- 
2.43.0


From 09fe0c3af584e4b7b82b0dfdce1e1e3551293e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:39 +0000
Subject: [PATCH 16/70] fix: a source file that cannot be read to its end is an
 error, not a shorter file

---
 src/cxy/core/utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index aeddd88..329d6cd 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -231,6 +231,11 @@ char *readFile(const char *fileName, size_t *file_size)
             break;
         chunk_size *= 2;
     }
+    if (ferror(file)) {
+        fclose(file);
+        free(file_data);
+        return NULL;
+    }
     fclose(file);
 
     // Add terminator
-- 
2.43.0


From 693a12c0db6ee80680e0164c0b42c4346a3099f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 17/70] fix: the compiler reports an unknown current directory
 instead of crashing

---
 src/cxy/driver/driver.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cxy/driver/driver.c b/src/cxy/driver/driver.c
index 60a68a0..80eb3e0 100644
--- a/src/cxy/driver/driver.c
+++ b/src/cxy/driver/driver.c
@@ -279,7 +279,14 @@ bool initCompilerDriver(CompilerDriver *compiler,
     compiler->nativeSources = newHashTable(sizeof(cstring));
     compiler->linkLibraries = newHashTable(sizeof(cstring));
     compiler->L = log;
-    compiler->currentDir = makeString(compiler->strings, getcwd(tmp, PATH_MAX));
+    if (getcwd(tmp, PATH_MAX) == NULL) {
+        logError(compiler->L,
+                 NULL,
+                 "cannot determine current directory: {s}",
+                 (FormatArg[]){{.s = strerror(errno)}});
+        tmp[0] = '\0';
+    }
+    compiler->currentDir = makeString(compiler->strings, tmp);
     compiler->currentDirLen = strlen(compiler->currentDir);
 
     internCommonStrings(compiler->strings);
@@ -292,6 +299,9 @@ bool initCompilerDriver(CompilerDriver *compiler,
     initCImporter(compiler);
     initializeBuiltins(compiler->L);
 
+    if (hasErrors(compiler->L))
+        return false;
+
     if (options->cmd == cmdBuild || !options->withoutBuiltins) {
         return compileBuiltin(compiler,
                               CXY_BUILTINS_SOURCE,
-- 
2.43.0


From a465370479f3cbd600815e81cda2c91ece0fa64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:13 +0000
Subject: [PATCH 18/70] fix: hash tables, string builders and option parsing
 check for failed allocations

---
 src/cxy/core/hmap.c     | 10 ++++++----
 src/cxy/core/log.c      |  1 +
 src/cxy/core/sb.c       |  2 +-
 src/cxy/driver/stages.c |  1 +
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cxy/core/hmap.c b/src/cxy/core/hmap.c
index c6aa618..1c14803 100644
--- a/src/cxy/core/hmap.c
+++ b/src/cxy/core/hmap.c
@@ -4,6 +4,8 @@
 
 #include "hmap.h"
 
+#include "alloc.h"
+
 #include <stdlib.h>
 #include <string.h>
 
@@ -72,7 +74,7 @@ static void hmapRehash(Hmap *self, u64 newCapacity)
 
     self->nslots = newCapacity;
     self->nitems = 0;
-    self->data = calloc(self->nslots, hmapStep(self));
+    self->data = callocOrDie(self->nslots, hmapStep(self));
 
     for (size_t i = 0; i < oldCapacity; i++) {
         u64 h = *(u64 *)((char *)oldData + i * hmapStep(self));
@@ -164,9 +166,9 @@ void hmapInitWithCapacity(Hmap *self,
     self->nslots = hmapIdealSize(capacity);
 
     if (self->nslots > 0) {
-        self->data = calloc(self->nslots, hmapStep(self));
-        self->sspace0 = calloc(1, hmapStep(self));
-        self->sspace1 = calloc(1, hmapStep(self));
+        self->data = callocOrDie(self->nslots, hmapStep(self));
+        self->sspace0 = callocOrDie(1, hmapStep(self));
+        self->sspace1 = callocOrDie(1, hmapStep(self));
     }
     else {
         self->data = NULL;
diff --git a/src/cxy/core/log.c b/src/cxy/core/log.c
index d1f4a5f..cc651f6 100644
--- a/src/cxy/core/log.c
+++ b/src/cxy/core/log.c
@@ -424,6 +424,7 @@ u64 parseWarningLevels(Log *L, cstring str)
     if (str == NULL)
         return warnings;
     char *copy = strdup(str);
+    csAssert(copy, "out of memory, strdup() failed\n");
     char *start = copy, *end = strchr(str, '|');
 
     while (start && start[0] != '\0') {
diff --git a/src/cxy/core/sb.c b/src/cxy/core/sb.c
index 90a1558..94d2091 100644
--- a/src/cxy/core/sb.c
+++ b/src/cxy/core/sb.c
@@ -61,7 +61,7 @@ void stringBuilderGrow(StringBuilder *sb, u64 size)
 
 StringBuilder *stringBuilderNew()
 {
-    StringBuilder *sb = calloc(1, sizeof(StringBuilder));
+    StringBuilder *sb = callocOrDie(1, sizeof(StringBuilder));
     stringBuilderInit(sb);
     return sb;
 }
diff --git a/src/cxy/driver/stages.c b/src/cxy/driver/stages.c
index 2319870..5831735 100644
--- a/src/cxy/driver/stages.c
+++ b/src/cxy/driver/stages.c
@@ -345,6 +345,7 @@ u64 parseCompilerStages(Log *L, cstring str)
 {
     CompilerStage stages = ccsInvalid;
     char *copy = strdup(str);
+    csAssert(copy, "out of memory, strdup() failed\n");
     char *start = copy, *end = strchr(str, '|');
 
     while (start) {
-- 
2.43.0


From 9012b4109ef8f5beccf54c61945e43a7bb7fa582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 19/70] fix: a launched thread keeps what it captured until it
 has run

---
 src/cxy/stdlib/thread.cxy | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/thread.cxy b/src/cxy/stdlib/thread.cxy
index 0f4e953..45c206e 100644
--- a/src/cxy/stdlib/thread.cxy
+++ b/src/cxy/stdlib/thread.cxy
@@ -56,12 +56,31 @@ pub struct Thread {
     func `==`(other: &const This) => _handle == other._handle
 }
 
+// The work of a thread, owned by the thread for as long as it runs
+class Work {
+    - fn: lambda_of!(#func() -> i32);
+    func `init`(fn: func() -> i32) { this.fn = &&fn }
+    func run() => fn()
+}
+
+@[noinline]
+func runWork(arg: ^void): i32 {
+    var work = arg !: Work;
+    var status = work.run();
+    // the reference which __launch took for this thread
+    __smart_ptr_drop(arg)
+    return status
+}
+
 @[__override_builtin("__thread_launch")]
 func __launch(fn: func() -> i32): !Thread {
     var handle: tinyThread.thrd_t = DEFAULT_TID!;
-    // This take advantage of the fact that fn will be a callable tuple
-    var status = tinyThread.thrd_create(ptrof handle, fn.1, fn.0)
+    var work = Work(&&fn);
+    // The thread might outlive this call
+    var arg = __smart_ptr_get(work !: ^void);
+    var status = tinyThread.thrd_create(ptrof handle, runWork, arg)
     if (status != thrd_success!) {
+        __smart_ptr_drop(arg)
         raise ThreadError(f"creating thread failed: ${status}")
     }
     return Thread(handle)
-- 
2.43.0


From 46918fca0d720bad0b37884c62c2c98df419f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 20/70] fix: the last reference to a shared object is found by
 the decrement itself

---
 src/cxy/runtime/builtins.cxy | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c802de1..870c4df 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -155,8 +155,7 @@ pub func __smart_ptr_drop(ptr: sptr) {
         panic!("invalid smart pointer")
     }
 
-    mem.refs--
-    if (mem.refs == 0) {
+    if (--mem.refs == 0) {
         // invoke destructor if available
         if (mem.dctor != null) {
             mem.dctor(ptr)
-- 
2.43.0


From ec56038cbd3d4ccd8a5fbfe8de69797e34f83546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 21/70] fix: assigning to a variable retains the new value
 before it drops the old one

---
 src/cxy/lang/middle/mem/manage.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 8f254ee..f2de14a 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -469,6 +469,26 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+// The value assigned has to be computed (and retained) before the value it
+// replaces is dropped, since computing it might need what is being replaced
+static void evaluateBeforeDrop(MemContext *ctx, AstNode *node, const Type *type)
+{
+    AstNode *rhs = node->assignExpr.rhs;
+    if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs))
+        rhs = makeCopyExpr(ctx, rhs);
+    AstNode *value = makeVarDecl(ctx->pool,
+                                 &rhs->loc,
+                                 flgTemporary,
+                                 makeAnonymousVariable(ctx->strings, "_rhs"),
+                                 NULL,
+                                 rhs,
+                                 NULL,
+                                 type);
+    astModifierAdd(&ctx->blockModifier, value);
+    node->assignExpr.rhs = makeResolvedIdentifier(
+        ctx->pool, &rhs->loc, value->_name, 0, value, NULL, value->type);
+}
+
 static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -479,11 +499,18 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         VariableTrace *vt = findVariableTrace(ctx, lhs);
         astVisit(visitor, rhs);
         csAssert0(vt);
+        const bool retain = nodeNeedsMemMgmt(lhs) && isLeftValueExpr(rhs) &&
+                            nodeNeedsMemMgmt(rhs);
         if (vtNeedsMemMgmt(ctx, vt)) {
+            if (!nodeIs(rhs, NullLit))
+                evaluateBeforeDrop(ctx, node, lhs->type);
             astModifierAdd(&ctx->blockModifier,
                            makeDropVariable(
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
         }
+        else if (retain) {
+            node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
+        }
         if (nodeIs(rhs, NullLit)) {
             const Type *type = resolveUnThisUnwrapType(lhs->type);
             if (isClassType(type) || isDestructible(type)) {
@@ -499,9 +526,12 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 
     lhs = node->assignExpr.lhs;
     if (isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs)) {
+        astVisit(visitor, node->assignExpr.rhs);
+        if (!nodeIs(node->assignExpr.rhs, NullLit))
+            evaluateBeforeDrop(ctx, node, lhs->type);
         astModifierAdd(&ctx->blockModifier,
                        makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
-        astVisit(visitor, node->assignExpr.rhs);
+        return;
     }
     else {
         astVisitFallbackVisitAll(visitor, node);
-- 
2.43.0


From 0929836f26a3728327a2cdd872f15a4cd8d61617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 22/70] fix: a parameter moved on one path is still dropped on
 the others

---
 src/cxy/lang/middle/mem/manage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index f2de14a..9fb58da 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -189,7 +189,8 @@ static bool vtNeedsDropFlags(const VariableTrace *vt)
 static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
 {
     AstNode *var = vt->variable;
-    bool drop = nodeIs(var, VarDecl) && var->varDecl.init != NULL;
+    // A parameter always has a value to begin with
+    bool drop = nodeIs(var, FuncParamDecl) || var->varDecl.init != NULL;
     vt->dropFlags = makeVarDecl(
         ctx->pool,
         builtinLoc(),
-- 
2.43.0


From 632c38e33ca030d4271746350811d454493305f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 23/70] fix: a variable moved in one case of a switch is still
 dropped after the others

---
 src/cxy/lang/middle/mem/manage.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 9fb58da..c8012cb 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -141,7 +141,9 @@ static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
         VariableState state;
         if (varLhs->state == varRhs->state)
             state = varLhs->state;
-        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned)
+        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned ||
+                 varLhs->state == vtsMaybeAssigned ||
+                 varRhs->state == vtsMaybeAssigned)
             state = vtsMaybeAssigned;
         else
             state = vtsUninitialized;
@@ -358,6 +360,8 @@ static void updateVariableStates(MemContext *ctx, const DynArray *vars)
         VariableTrace *vt = findVariableTrace(ctx, var->variable);
         csAssert0(vt);
         vt->state = var->state;
+        if (vtNeedsDropFlags(vt))
+            insertedDropFlags(ctx, vt);
     }
 }
 
-- 
2.43.0


From 11be9aba74aa6a24c3f86022188163d12d6e253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 24/70] fix: a variable moved and assigned again in a loop is
 not dropped twice

---
 src/cxy/lang/middle/mem/manage.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c8012cb..e0495ee 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -507,6 +507,11 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         const bool retain = nodeNeedsMemMgmt(lhs) && isLeftValueExpr(rhs) &&
                             nodeNeedsMemMgmt(rhs);
         if (vtNeedsMemMgmt(ctx, vt)) {
+            if (vt->state == vtsMoved && vt->dropFlags == NULL) {
+                // Moved in this iteration of a loop or before it, whether there
+                // is a value to drop is only known when the program runs
+                insertedDropFlags(ctx, vt);
+            }
             if (!nodeIs(rhs, NullLit))
                 evaluateBeforeDrop(ctx, node, lhs->type);
             astModifierAdd(&ctx->blockModifier,
-- 
2.43.0


From 9bc90650f115bffaa5bf9a762fe4b564f249c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 25/70] fix: the value of a conditional expression is retained

---
 src/cxy/lang/middle/mem/manage.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index e0495ee..7f6d19e 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -72,6 +72,10 @@ static bool isLeftValueExpr(const AstNode *node)
 {
     if (nodeIs(node, MemberExpr))
         return isLeftValueExpr(node->memberExpr.target);
+    if (nodeIs(node, TernaryExpr)) {
+        return isLeftValueExpr(node->ternaryExpr.body) &&
+               isLeftValueExpr(node->ternaryExpr.otherwise);
+    }
     return nodeIsLeftValue(node);
 }
 
@@ -582,6 +586,21 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
+{
+    MemContext *ctx = getAstVisitorContext(visitor);
+    AstNode *body = node->ternaryExpr.body,
+            *otherwise = node->ternaryExpr.otherwise;
+    astVisitFallbackVisitAll(visitor, node);
+    if (otherwise == NULL || isLeftValueExpr(body) == isLeftValueExpr(otherwise))
+        return;
+
+    // One side hands over a reference, so the other must do so too
+    AstNode *shared = isLeftValueExpr(body) ? body : otherwise;
+    if (nodeNeedsMemMgmt(shared))
+        transformToCopyExpr(ctx, shared, deepCloneAstNode(ctx->pool, shared));
+}
+
 static void visitTupleExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -894,6 +913,7 @@ void manageMemory(CompilerDriver *cc, AstNode *node)
         [astUnaryExpr] = visitUnaryExpr,
         [astAssignExpr] = visitAssignExpr,
         [astCallExpr] = visitCallExpr,
+        [astTernaryExpr] = visitTernaryExpr,
         [astTupleExpr] = visitTupleExpr,
         [astStructExpr] = visitStructExpr,
         [astArrayExpr] = visitArrayExpr,
-- 
2.43.0


From 95fdae1c75f136bf27394ab11082dd93f0b9df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 26/70] fix: assigning null to a variable clears it

---
 src/cxy/lang/middle/mem/manage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 7f6d19e..e26ae76 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -527,7 +527,7 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         }
         if (nodeIs(rhs, NullLit)) {
             const Type *type = resolveUnThisUnwrapType(lhs->type);
-            if (isClassType(type) || isDestructible(type)) {
+            if (!isClassType(type) && isDestructible(type)) {
                 // Dropping the variable also clears it
                 node->tag = astNoop;
             }
-- 
2.43.0


From 7a42f028a78d96cabe382610a91a54e534de0911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:39 +0000
Subject: [PATCH 27/70] fix: the result of a catch expression is released

---
 src/cxy/lang/middle/sema/check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 4f2fa9e..03497e6 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -331,7 +331,7 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
         ctx->catcher.variable =
             makeVarDecl(ctx->pool,
                         &node->loc,
-                        flgTemporary,
+                        flgNone,
                         makeAnonymousVariable(ctx->strings, "_Tres"),
                         makeTypeReferenceNode(ctx->pool, target, &node->loc),
                         NULL,
-- 
2.43.0


From 5afc0511f444cc415ddf792bc98286c40bf2b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 28/70] fix: the object returned by a call whose result nobody
 uses is released

---
 src/cxy/lang/middle/mem/manage.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index e26ae76..515a2df 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -601,6 +601,23 @@ static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
         transformToCopyExpr(ctx, shared, deepCloneAstNode(ctx->pool, shared));
 }
 
+static void visitExprStmt(AstVisitor *visitor, AstNode *node)
+{
+    MemContext *ctx = getAstVisitorContext(visitor);
+    AstNode *expr = node->exprStmt.expr;
+    astVisitFallbackVisitAll(visitor, node);
+    if (!nodeIs(expr, CallExpr) || isReferenceType(expr->type) ||
+        !isClassType(resolveUnThisUnwrapType(expr->type)) ||
+        !nodeNeedsMemMgmt(expr))
+        return;
+
+    // Nobody keeps the reference which the call hands over
+    const AstNode *decl = getTypeDecl(expr->callExpr.callee->type);
+    if (nodeIs(decl, FuncDecl) && !hasFlag(decl, Extern))
+        node->exprStmt.expr = makeBackendCallExpr(
+            ctx->pool, &expr->loc, flgNone, bfiDrop, expr, expr->type);
+}
+
 static void visitTupleExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -913,6 +930,7 @@ void manageMemory(CompilerDriver *cc, AstNode *node)
         [astUnaryExpr] = visitUnaryExpr,
         [astAssignExpr] = visitAssignExpr,
         [astCallExpr] = visitCallExpr,
+        [astExprStmt] = visitExprStmt,
         [astTernaryExpr] = visitTernaryExpr,
         [astTupleExpr] = visitTupleExpr,
         [astStructExpr] = visitStructExpr,
-- 
2.43.0


From aaf9229a98d2ce1142840fa3429a10034d6be35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 29/70] fix: a write that exactly fills a buffered stream keeps
 its place

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 870c4df..f76e212 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1016,7 +1016,7 @@ pub class BufferedOutputStream: OutputStream {
             sync()
             room = _capacity
         }
-        if (size < room) {
+        if (size <= room) {
             var src = data !: ^const char;
             memcpy(ptrof _buffer.[_size], src, size)
             _size += size
-- 
2.43.0


From c19bf65abef2eea90dd0fcd4b4306beb331659ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:42 +0000
Subject: [PATCH 30/70] fix: a request header with an empty value keeps its own
 name and value

---
 src/cxy/stdlib/http.cxy | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index 0418276..366b1ef 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -534,13 +534,6 @@ func requestParserOnUrl(p: ^parser.llhttp_t, at: ^const char, len: u64) {
 
 func requestParserOnHeaderField(p: ^parser.llhttp_t, at: ^const char, len: u64) {
     var req = p.data !: Request;
-    if (req._s2 != null) {
-        // We have seen a new header
-        assert!(req._s1 != null)
-        req._headers.[&&req._s1] = &&req._s2
-        req._s1 = null
-        req._s2 = null
-    }
     if (req._s1 == null) {
         req._s1 = String(at, len)
     }
@@ -562,15 +555,17 @@ func requestParserOnHeaderValue(p: ^parser.llhttp_t, at: ^const char, len: u64)
     return 0`i32
 }
 
-func requestParserOnHeadersComplete(p: ^parser.llhttp_t) {
+func requestParserOnHeaderValueComplete(p: ^parser.llhttp_t) {
+    // A value without any bytes is not reported by the span callback
     var req = p.data !: Request;
-    if (req._s1 != null) {
-        assert!(req._s1 != null)
-        req._headers.[&&req._s1] = &&req._s2
-        req._s1 = null
-        req._s2 = null
+    assert!(req._s1 != null)
+    if (req._s2 == null) {
+        req._s2 = String()
     }
-    return 0
+    req._headers.[&&req._s1] = &&req._s2
+    req._s1 = null
+    req._s2 = null
+    return 0`i32
 }
 
 func requestParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
@@ -595,7 +590,7 @@ const HTTP_PARSER_SETTINGS = parser.llhttp_settings_t{
     on_url: requestParserOnUrl,
     on_header_field: requestParserOnHeaderField,
     on_header_value: requestParserOnHeaderValue,
-    on_headers_complete: requestParserOnHeadersComplete,
+    on_header_value_complete: requestParserOnHeaderValueComplete,
     on_body: requestParserOnBody,
     on_message_complete: requestParserOnMessageComplete
 };
-- 
2.43.0


From dcc2d5a9dde56bc93cded1c4b11e88ff1de7f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 31/70] fix: a request that arrives together with the previous
 one is answered too

---
 src/cxy/stdlib/http.cxy | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index 366b1ef..453ef25 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -503,15 +503,20 @@ pub class Request {
             parser.llhttp_reset(_parser)
     }
 
-    func feed(buf: ^const char, len: u64) {
+    /* Returns how many of the given bytes belong to this request, the rest
+       is the beginning of the next one */
+    func feed(buf: ^const char, len: u64): u64? {
         const ret = parser.llhttp_execute(_parser, buf !: ^const char, len)
+        if (ret == parser.llhttp_errno.HPE_PAUSED)
+            return Some((parser.llhttp_get_error_pos(_parser) !: u64) - (buf !: u64))
+
         if (ret != parser.llhttp_errno.HPE_OK) {
             const s = parser.llhttp_errno_name(ret) !: string
             const reason = parser.llhttp_get_error_reason(_parser) !: string;
             DBG!("parsing request failed - error: " << s << ", reason: " << reason )
-            return false
+            return null
         }
-        return true
+        return Some(len)
     }
 }
 
@@ -582,7 +587,8 @@ func requestParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
 func requestParserOnMessageComplete(p: ^parser.llhttp_t) {
     var req = p.data !: Request;
     req._isComplete = true;
-    return 0
+    // What follows is the next request, wait until this one has been answered
+    return parser.llhttp_errno.HPE_PAUSED !: i32
 }
 
 const HTTP_PARSER_SETTINGS = parser.llhttp_settings_t{
@@ -832,6 +838,7 @@ pub class Connection[Middlewares] {
     - resp: Response
     - config: ^Config
     - _close: bool = false;
+    - _rest: String = null;
 
     func `init`(config: ^Config, mws: ^Middlewares, router: ^Router, sock: TcpSocket) {
         this.router = router
@@ -913,25 +920,38 @@ pub class Connection[Middlewares] {
     }
 
     - func receive() : bool {
+        if (_rest != null) {
+            // Some of this request arrived together with the previous one
+            var rest = &&_rest;
+            _rest = null
+            if (!feed(rest.data() !: ^const char, rest.size()))
+                return false
+        }
+
         var buf: [char, 8192] = [];
         while (!req.isComplete()) {
             var received = sock.receive(buf, 8192);
             if (!received)
                 return false;
 
-            var len = *received;
-            if (len > 0) {
-                if (!req.feed(buf !: ^const char, *received)) {
-                    resp.end(Status.BadRequest)
-                    return false
-                }
-            }
-
+            if (!feed(buf !: ^const char, *received))
+                return false
         }
 
         return req.isComplete()
     }
 
+    - func feed(data: ^const char, len: u64) : bool {
+        const used = req.feed(data, len);
+        if (!used) {
+            resp.end(Status.BadRequest)
+            return false
+        }
+        if (*used < len)
+            _rest = String(ptroff!(data + *used), len - *used)
+        return true
+    }
+
     - func sendResponse() : void {
         var sos = BufferedSocketOutputStream(sock);
         var line0 = __string(statusText(resp.status()));
-- 
2.43.0


From c6f7ac7792ba9e77994c4913a537b8daa953e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 32/70] fix: a route registered with its method is found by its
 path

---
 src/cxy/stdlib/http.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index 453ef25..f778dba 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -673,7 +673,7 @@ class Router {
         var params = Vector[__string]();
         parseParams(&params, path, i)
         var route = Route(methods, prefix, fn, &&params);
-        routes.add(path, i, route)
+        routes.add(ptroff!((path !: ^const char) + idx) !: string, i - idx, route)
         return route
     }
 
-- 
2.43.0


From 153733c8ddb06ef1cd6bc5ca20f4ac78eb1022e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 33/70] fix: a malformed request is answered and ends its
 connection, a failed read ends it too

---
 src/cxy/stdlib/http.cxy | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index f778dba..fabc7ed 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -858,11 +858,11 @@ pub class Connection[Middlewares] {
     }
 
     - func handleConnection(): void {
-        if (!receive())
-            return;
-
-        if (!resp.ok()) {
-            sendResponse()
+        if (!receive()) {
+            // There is no next request after this
+            _close = true
+            if (!resp.ok())
+                sendResponse()
             return;
         }
 
@@ -960,9 +960,8 @@ pub class Connection[Middlewares] {
             resp.body() << line0.substr(9)
         }
 
-        _close = false;
         if (var conn = resp.header(CONNECTION_S)) {
-            _close = *conn == "Close"
+            _close = _close || *conn == "Close"
         }
 
         if (!_close && config.keepAliveTime > 0) {
-- 
2.43.0


From 3c8a8f707625bdf41f1151aa8d65df40984e13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 34/70] fix: the server closes the connection when the request
 or the response says so

---
 src/cxy/stdlib/http.cxy | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index fabc7ed..981fd52 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -406,6 +406,7 @@ pub class Request {
     - _s1: String = null;
     - _s2: String = null;
     - _isComplete = false;
+    - _keepAlive = false;
     - _parser: ^parser.llhttp_t = null;
     - _middlewareContexts: ^void = null;
     - _route: &Route
@@ -465,6 +466,9 @@ pub class Request {
     @[prop, inline]
     const func isComplete() => _isComplete
 
+    @[prop, inline]
+    const func keepAlive() => _keepAlive
+
     @[prop, inline]
     const func body() => &_body
 
@@ -499,6 +503,7 @@ pub class Request {
         _path = null
         _body = null
         _isComplete = false
+        _keepAlive = false
         if (_parser != null)
             parser.llhttp_reset(_parser)
     }
@@ -587,6 +592,7 @@ func requestParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
 func requestParserOnMessageComplete(p: ^parser.llhttp_t) {
     var req = p.data !: Request;
     req._isComplete = true;
+    req._keepAlive = parser.llhttp_should_keep_alive(p) != 0;
     // What follows is the next request, wait until this one has been answered
     return parser.llhttp_errno.HPE_PAUSED !: i32
 }
@@ -960,11 +966,17 @@ pub class Connection[Middlewares] {
             resp.body() << line0.substr(9)
         }
 
+        if (!req.keepAlive())
+            _close = true
+
         if (var conn = resp.header(CONNECTION_S)) {
-            _close = _close || *conn == "Close"
+            if (EqualsCase{}((*conn).str(), "close"))
+                _close = true
         }
-
-        if (!_close && config.keepAliveTime > 0) {
+        else if (_close) {
+            sos << "Connection: close\r\n"
+        }
+        else if (config.keepAliveTime > 0) {
             sos << "Connection: Keep-Alive\r\n"
             sos << "Keep-Alive: " << config.keepAliveTime << "\r\n"
         }
-- 
2.43.0


From cc405459c740d0dfc40acd93344e638b23bd3f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 35/70] fix: responses to HEAD and responses without a body end
 with their headers

---
 src/cxy/stdlib/http.cxy | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index 981fd52..f739acc 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -962,7 +962,10 @@ pub class Connection[Middlewares] {
         var sos = BufferedSocketOutputStream(sock);
         var line0 = __string(statusText(resp.status()));
         sos << line0 << "\r\n"
-        if (resp.status() != .Ok && resp.empty()) {
+        // the client takes these as ending with their headers
+        const code = <i32>resp.status();
+        const hasBody = code >= 200 && code != 204 && code != 304;
+        if (hasBody && resp.status() != .Ok && resp.empty()) {
             resp.body() << line0.substr(9)
         }
 
@@ -998,12 +1001,13 @@ pub class Connection[Middlewares] {
         if (!resp.header(DATE_S))
             sos << "Date: " << Time() << "\r\n"
 
-        if (!resp.header(CONTENT_LENGTH_S)) {
+        if (hasBody && !resp.header(CONTENT_LENGTH_S)) {
             sos << "Content-Length: " << resp.size() << "\r\n"
         }
 
         sos << "\r\n"
-        resp.stream(&sos)
+        if (hasBody && req.method() != .Head)
+            resp.stream(&sos)
     }
 }
 
-- 
2.43.0


From 3caab7bcb4e981f58b421f8e104b3cf580e0ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 36/70] fix: a connection whose response could not be sent
 completely is closed

---
 src/cxy/stdlib/http.cxy |  6 ++++++
 src/cxy/stdlib/net.cxy  | 23 +++++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index f739acc..389fa38 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -1008,6 +1008,12 @@ pub class Connection[Middlewares] {
         sos << "\r\n"
         if (hasBody && req.method() != .Head)
             resp.stream(&sos)
+
+        sos.sync()
+        if (sos.failed()) {
+            // the client cannot tell where the next response begins
+            _close = true
+        }
     }
 }
 
diff --git a/src/cxy/stdlib/net.cxy b/src/cxy/stdlib/net.cxy
index 2855b64..3371804 100644
--- a/src/cxy/stdlib/net.cxy
+++ b/src/cxy/stdlib/net.cxy
@@ -551,7 +551,8 @@ pub class SocketOutputStream : OutputStream {
 
 pub class BufferedSocketOutputStream : BufferedOutputStream {
     - timeout: u64
-    - sock: Socket = null
+    - sock: Socket = null;
+    - _failed = false;
 
     func `init`(sock: Socket, timeout: u64 = 0) {
         super()
@@ -559,13 +560,27 @@ pub class BufferedSocketOutputStream : BufferedOutputStream {
         this.sock = &&sock
     }
 
-    func flush(data: ^const void, size: u64) {
-        sock.sendBuffer(data, size, timeout)
+    func flush(data: ^const void, size: u64): void {
+        // nothing may follow a part that was not sent completely
+        if (_failed)
+            return
+
+        const sent = sock.sendBuffer(data, size, timeout);
+        _failed = !sent || *sent != size
     }
 
     func sendFile(fd: i32, offset: u64, count: u64, timeout: u64 = 0): u64? {
         // flush current buffer
         this.sync()
-        return sock.sendFile(fd, offset, count, timeout)
+        if (_failed)
+            return null
+
+        var sent = sock.sendFile(fd, offset, count, timeout);
+        _failed = !sent
+        return sent
     }
+
+    /* true if something written to this stream could not be sent */
+    @inline
+    const func failed() => _failed
 }
-- 
2.43.0


From 0acb5c3186c8c8c46c2dfafaa7561e51f08d4936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 37/70] fix: an accept that fails does not keep the server from
 serving its connections

---
 src/cxy/stdlib/http.cxy | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index 389fa38..33cee3f 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -1115,8 +1115,11 @@ pub class Server[Middlewares] {
         DBG!( "accepting connection on thread: " << Thread.current().id() )
         while (listener) {
             var sock = listener.accept();
-            if (!sock)
+            if (!sock) {
+                // Out of descriptors for example, let those that hold them go on
+                sleepAsync(10)
                 continue;
+            }
 
             async handleConnection(sock.move())
         }
-- 
2.43.0


From 3058702afc75500c7ca3eaa23c143ffe25a5602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:55 +0000
Subject: [PATCH 38/70] fix: the file of a response is closed once, not while
 or after it is sent

---
 src/cxy/stdlib/http.cxy | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cxy/stdlib/http.cxy b/src/cxy/stdlib/http.cxy
index 33cee3f..35bb9c9 100644
--- a/src/cxy/stdlib/http.cxy
+++ b/src/cxy/stdlib/http.cxy
@@ -324,16 +324,17 @@ pub class Response {
             sos << _body
         }
         else if (_chunks != null) {
-            for (var chunk, _: _chunks) {
+            for (var i: 0.._chunks.size()) {
+                var chunk = &_chunks.[<i32>i];
                 match (chunk) {
                     case string as s => sos << s
                     case __string as s => sos << s
                     case String as s => sos << s
-                    case SendFile as sf {
+                    case SendFile as &sf {
                         // send the file
                         sos.sendFile(sf.raw(), sf.offset, sf.count)
                     }
-                    case SendTempFile as st {
+                    case SendTempFile as &st {
                         // Send temp file
                         sos.sendFile(st.raw(), 0, st.size())
                     }
@@ -356,8 +357,8 @@ pub class Response {
                 case string as s => sz += len!(s)
                 case __string as s => sz += s.size()
                 case String as s => sz += s.size()
-                case SendFile as sf => sz += sf.count
-                case SendTempFile as st => sz += st.size()
+                case SendFile as &sf => sz += sf.count
+                case SendTempFile as &st => sz += st.size()
             }
         }
         return sz
-- 
2.43.0


From 3af039fb1f3de0c01dd82ae30ae97ce498b4a99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 39/70] fix: writing to a file that is not ready waits until it
 can be written

---
 src/cxy/stdlib/os.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 1765c6c..245d355 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -473,7 +473,7 @@ pub class FileOutputStream : OutputStream {
             var tmp = append(p, size - numWritten)
             if (!tmp) {
                 if (errno! == EAGAIN!) {
-                    const ret = fdWaitRead(fd, timeout)
+                    const ret = fdWaitWrite(fd, timeout)
                     if (ret != State.AE_WRITABLE)
                         raise IOError(f"Waiting for file ${fd} to be writable failed: ${strerr()}")
                     continue
-- 
2.43.0


From f1cc7d1af0ca49006d16aa7a50127e8851c5d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 40/70] fix: a file that is copied in several steps is copied
 completely

---
 src/cxy/stdlib/os.cxy | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 245d355..7b9a04a 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -262,16 +262,18 @@ pub func copy[Src, Dest](dst: &const Dest, src: &const Src): !void {
         var copied = 0`i64
         while (copied < size) {
             var numWritten = sendfile.sendfile(dstFd.fd, srcFd.fd, ptrof copied, size-copied);
-            if (numWritten == -1 || numWritten == 0) {
+            if (numWritten == 0)
+                raise IOError(f"copy file ${srcFd.fd}->${dstFd.fd} failed: the source is shorter than expected")
+            if (numWritten == -1) {
                 if (errno! == EAGAIN! || errno! == EWOULDBLOCK!) {
-                    const ret = fdWaitRead(srcFd.fd)
-                    if (ret != State.AE_READABLE)
-                        raise IOError(f"Waiting for file ${srcFd.fd} to be readable failed: ${strerr()}")
+                    const ret = fdWaitWrite(dstFd.fd)
+                    if (ret != State.AE_WRITABLE)
+                        raise IOError(f"Waiting for file ${dstFd.fd} to be writable failed: ${strerr()}")
                     continue
                 }
                 raise IOError(f"copy file ${srcFd.fd}->${dstFd.fd} failed: ${strerr()}")
             }
-            copied += numWritten;
+            // `copied` has been advanced by sendfile
         }
     }
     else {
-- 
2.43.0


From 8266d449b229eb5265d4dbbab4c3ab9861d636ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 41/70] fix: copying to a path opens that path for writing

---
 src/cxy/stdlib/os.cxy | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 7b9a04a..9b7b9c7 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -248,8 +248,18 @@ func getFileDescriptor[T](src: &const T): !FileDescriptor {
         error!("type {t} is unsupported", #T)
 }
 
+@inline
+func getDestFileDescriptor[T](dst: &const T): !FileDescriptor {
+    #if (T.isString) {
+        return open(dst, true, O_WRONLY!|O_CREAT!|O_TRUNC!)
+    }
+    else {
+        return getFileDescriptor(dst)
+    }
+}
+
 pub func copy[Src, Dest](dst: &const Dest, src: &const Src): !void {
-    var dstFd = getFileDescriptor(dst);
+    var dstFd = getDestFileDescriptor(dst);
     var srcFd = getFileDescriptor(src);
     #if (defined MACOS) {
          var status = copyfile.fcopyfile(srcFd.fd, dstFd.fd, null, COPYFILE_ALL!)
-- 
2.43.0


From caf28a0f170dd9184c9a4a75cdcde70f58ab6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 42/70] fix: reading all of a stream reports a read error
 instead of crashing

---
 src/cxy/stdlib/os.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 9b7b9c7..dbea385 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -411,8 +411,8 @@ pub class FileInputStream: InputStream {
         var buf: [char, 4092] = []
         while {
             var tmp = read(buf, 4092)
-            if (*tmp < 0)
-                raise IOError(f"reading command output failed: ${strerr()}")
+            if (!tmp)
+                raise IOError(f"reading from file ${fd} failed: ${strerr()}")
             if (*tmp == 0)
                 return;
 
-- 
2.43.0


From 60138b981effd71e22643488edcb56b6d618189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 43/70] fix: reading a file that becomes shorter meanwhile ends

---
 src/cxy/stdlib/os.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index dbea385..599c9f4 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -401,6 +401,8 @@ pub class FileInputStream: InputStream {
             var tmp = read(p, st.st_size - nRead)
             if (!tmp)
                 raise IOError(f"error reading file ${fd}: ${strerr()}")
+            if (*tmp == 0) // the file has become shorter
+                break
             nRead += *tmp
         }
         s.resize(nRead)
-- 
2.43.0


From b0bfb2cc1b25523816fca34b30d04f38dbcb1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 44/70] fix: a string can be resized within its capacity

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index f76e212..27b37b0 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -810,7 +810,7 @@ pub class String : OutputStream {
     }
 
     func resize(newSize: u64) {
-        assert!(_capacity <= newSize)
+        assert!(newSize <= _capacity)
         _size = newSize
         _data.[_size] = '\0'`char
     }
-- 
2.43.0


From 0cf7098d5c660859aa0acdfc3146d52b62aef1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 45/70] fix: a temporary file closes its descriptor

---
 src/cxy/stdlib/os.cxy | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 599c9f4..7e2f4b9 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -192,7 +192,10 @@ pub struct TempFile {
         if (path != null) {
             unistd.unlink(path.str() !: ^const char)
             path = null
-            fd = -1;
+        }
+        if (fd != -1) {
+            unistd.close(fd)
+            fd = -1
         }
     }
 
-- 
2.43.0


From 8ef95268948212434085221bc0f34105e47eec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 46/70] fix: reading into a stream reports that the stream
 refused the data

---
 src/cxy/stdlib/os.cxy | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 7e2f4b9..638a35d 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -360,7 +360,8 @@ pub class FileInputStream: InputStream {
 
             if (*tmp == 0)
                 return Void{}
-            os.append(buf, *tmp)
+            if (!os.append(buf, *tmp))
+                raise IOError(f"passing on data of file ${fd} failed")
         }
     }
 
-- 
2.43.0


From 20dfc142ef5deeda9cef859dcb52d2886a31fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 47/70] fix: output to a standard stream continues where the
 system stopped

---
 src/cxy/runtime/builtins.cxy | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 27b37b0..a189572 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1049,8 +1049,12 @@ class StdOutputStream : OutputStream {
     }
 
     func append(str: ^const char, size: u64): Optional[u64] {
-        if (size) {
-           write(fd, str, size)
+        var done = 0`u64;
+        while (done < size) {
+            const n = write(fd, ptroff!(str + done), size - done);
+            if (n <= 0)
+                return None[u64]()
+            done += <u64>n
         }
         return Some(size)
     }
-- 
2.43.0


From 4a91613ba07f9b9efcedd470d9ccead4bca5da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 48/70] fix: reading a whole stream does not call itself for
 ever

---
 src/cxy/stdlib/os.cxy | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 638a35d..652017b 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -344,7 +344,7 @@ pub class FileInputStream: InputStream {
         return <u64>pos
     }
 
-    func readAsync(os: &OutputStream, timeout: u64 = 0): !void {
+    - func readInto(os: &OutputStream, timeout: u64): !void {
         var buf: [char, 4092] = []
         while {
             var tmp = read(buf, 4092)
@@ -365,17 +365,22 @@ pub class FileInputStream: InputStream {
         }
     }
 
+    @inline
+    func readAsync(os: &OutputStream, timeout: u64 = 0): !void {
+        readInto(os, timeout)
+    }
+
     @inline
     func readAsync(buf: ^void, size: u64, timeout: u64 = 0): !u64 {
         var mos = stackAlloc!(#MemoryOutputStream, buf, size);
-        readAsync(&mos, timeout)
+        readInto(&mos, timeout)
         return mos.size()
     }
 
     @inline
     func readAsync(timeout: u64 = 0): !String {
         var str = String();
-        readAsync(&str, timeout)
+        readInto(&str, timeout)
         return &&str
     }
 
-- 
2.43.0


From da246c50b9b1be9a927979902be1b4e6dbfe83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:04 +0000
Subject: [PATCH 49/70] fix: print writes to the standard output

---
 src/cxy/runtime/builtins.cxy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index a189572..012e066 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1232,10 +1232,10 @@ pub var SysConfNumProcs = sysconf(SC_NPROCESSORS_ONLN!);
 pub func print[T](data: &const T) {
     require!(T.isString, "type '{t}' is not a string, `print` only supports string types", #T)
     #if (T.isClass) {
-        write(0, data.data(), data.size())
+        stdout.append(data.data() !: ^const void, data.size())
     }
     else {
-        write(0, data, strlen(data))
+        stdout.append(data !: ^const void, strlen(data))
     }
 }
 
-- 
2.43.0


From 7210d01c2e15282fbee2fc4ea6bec9531810f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:05 +0000
Subject: [PATCH 50/70] fix: unsigned numbers are printed as such

---
 src/cxy/runtime/builtins.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 012e066..2c7a775 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -642,6 +642,8 @@ pub class OutputStream {
                     append(val._data !: ^const void, val.size())
             else
                 appendString(val)
+        else #if (U.isUnsigned)
+            appendUnSignedInt(<u64>val)
         else #if (U.isInteger)
             appendSignedInt(<i64>val)
         else #if (U.isFloat)
-- 
2.43.0


From 44db0a89b83fef9b41e9bb947b8af97cd02773b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:21 +0000
Subject: [PATCH 51/70] fix: connect a child's streams the right way round and
 never run on in it

The child got the write end of its input pipe, kept every end the parent uses,
so neither side saw the end of a stream, and ends of other children's pipes.
If the command could not be started the child raised an exception and a second
copy of the program ran on. Failures left the pipes opened so far open.
---
 src/cxy/stdlib/native/nos.c | 20 ++++++++++
 src/cxy/stdlib/native/nos.h |  2 +
 src/cxy/stdlib/os.cxy       | 80 ++++++++++++++++++++-----------------
 3 files changed, 65 insertions(+), 37 deletions(-)

diff --git a/src/cxy/stdlib/native/nos.c b/src/cxy/stdlib/native/nos.c
index f654be6..2fc7671 100644
--- a/src/cxy/stdlib/native/nos.c
+++ b/src/cxy/stdlib/native/nos.c
@@ -2,8 +2,14 @@
 // Created by Carter Mbotho on 2024-10-30.
 //
 
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE
+#endif
+
 #include "nos.h"
+#include <fcntl.h>
 #include <sys/stat.h>
+#include <unistd.h>
 
 int fs_stat(const char *path, struct stat *st) { return stat(path, st); }
 int fs_lstat(const char *path, struct stat *st) { return lstat(path, st); }
@@ -12,3 +18,17 @@ int fs_fstat(int fd, struct stat *st) { return fstat(fd, st); }
 Dirent *nos_readdir(DIR *dir) {
     return (Dirent *)readdir(dir);
 }
+
+// A pipe whose ends programs started meanwhile do not inherit
+int nos_pipe(int *fds)
+{
+#ifdef __APPLE__
+    if (pipe(fds) != 0)
+        return -1;
+    fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+    return 0;
+#else
+    return pipe2(fds, O_CLOEXEC);
+#endif
+}
diff --git a/src/cxy/stdlib/native/nos.h b/src/cxy/stdlib/native/nos.h
index cc09c97..b8d1c1c 100644
--- a/src/cxy/stdlib/native/nos.h
+++ b/src/cxy/stdlib/native/nos.h
@@ -19,3 +19,5 @@ typedef struct dirent Dirent;
 #endif
 
 Dirent *nos_readdir(DIR *dir);
+
+int nos_pipe(int *fds);
diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 652017b..7f4d3e2 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -628,10 +628,15 @@ pub struct Process {
     }
 }
 
+func closePipe(fds: ^i32): void {
+    if (fds.[0] >= 0) unistd.close(fds.[0])
+    if (fds.[1] >= 0) unistd.close(fds.[1])
+}
+
 pub func execvpe(cmd: string, argv: [string], env: [(string, string)]): !Process {
-    var input:[i32, 2] = []
-    var out:[i32, 2] = []
-    var err:[i32, 2] = []
+    var input:[i32, 2] = [-1`i32, -1`i32]
+    var out:[i32, 2] = [-1`i32, -1`i32]
+    var err:[i32, 2] = [-1`i32, -1`i32]
 
     const sz = argv.size()
     if (sz < 2 || argv.[sz-1] != null)
@@ -639,39 +644,42 @@ pub func execvpe(cmd: string, argv: [string], env: [(string, string)]): !Process
     if (__string(cmd) != __string(argv.[0]))
         raise IOError("first entry of `argv` must be the same as the command name")
 
-    if (unistd.pipe(input) != 0)
-        raise IOError(f"opening process input stream failed: ${strerr()}")
-    if (unistd.pipe(out) != 0)
-        raise IOError(f"opening process output stream failed: ${strerr()}")
-    if (unistd.pipe(err) != 0)
-        raise IOError(f"opening process error stream failed: ${strerr()}")
+    if (nos.nos_pipe(input) != 0 || nos.nos_pipe(out) != 0 || nos.nos_pipe(err) != 0) {
+        const code = errno!;
+        closePipe(input)
+        closePipe(out)
+        closePipe(err)
+        raise IOError(f"opening process streams failed: ${strerror(code)}")
+    }
 
     var pid = unistd.fork();
-    if (pid == -1)
-        raise IOError(f"creating a process failed: ${strerr()}")
+    if (pid == -1) {
+        const code = errno!;
+        closePipe(input)
+        closePipe(out)
+        closePipe(err)
+        raise IOError(f"creating a process failed: ${strerror(code)}")
+    }
 
     if (pid == 0) {
         // Child process
         ae.aeRestoreSigpipe()
-        unistd.dup2(input.[1], STDIN_FILENO!)
-        unistd.dup2(out.[1], STDOUT_FILENO!)
-        unistd.dup2(err.[1], STDERR_FILENO!)
-        unistd.close(input.[0])
-        unistd.close(out.[0])
-        unistd.close(err.[0])
-        for (const x, _: env)
-            stdlib.setenv(x.0 !: ^const char, x.1 !: ^const char, 1)
-        var ret = unistd.execvp(cmd !: ^const char, argv.data !: ^^const char)
-        raise IOError(f"starting ${cmd} failed: ${strerr()}")
-        stdlib.exit(ret)
-    }
-    else if (pid > 0) {
-        unistd.close(input.[1])
-        unistd.close(out.[1])
-        unistd.close(err.[1])
-        return Process(pid, input.[0], out.[0], err.[0])
-    }
-    raise IOError(f"forking process failed: ${strerr()}")
+        if (unistd.dup2(input.[0], STDIN_FILENO!) >= 0 &&
+            unistd.dup2(out.[1], STDOUT_FILENO!) >= 0 &&
+            unistd.dup2(err.[1], STDERR_FILENO!) >= 0)
+        {
+            for (const x, _: env)
+                stdlib.setenv(x.0 !: ^const char, x.1 !: ^const char, 1)
+            unistd.execvp(cmd !: ^const char, argv.data !: ^^const char)
+        }
+        // this copy of the program must not go on
+        unistd._exit(127)
+    }
+
+    unistd.close(input.[0])
+    unistd.close(out.[1])
+    unistd.close(err.[1])
+    return Process(pid, input.[1], out.[0], err.[0])
 }
 
 @[inline]
@@ -819,14 +827,12 @@ pub func execute[T](
         }
 
         ae.aeRestoreSigpipe()
-        var ret = unistd.execvp("sh" !: ^const char, argv !: ^^const char)
-        raise IOError(f"starting ${cmd} failed: ${strerr()}")
-        stdlib.exit(ret)
-    }
-    else if (pid > 0) {
-        return Process(pid).wait()
+        unistd.execvp("sh" !: ^const char, argv !: ^^const char)
+        // this copy of the program must not go on
+        unistd._exit(127)
     }
-    raise IOError(f"forking process failed: ${strerr()}")
+
+    return Process(pid).wait()
 }
 
 macro sh(cmd, ...env) os.execute(cmd!, varargs_def!(env!, {}))
-- 
2.43.0


From 08affe7519acf37367ed85c6a380db6550b59906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:21 +0000
Subject: [PATCH 52/70] fix: collect a child's exit status once and keep it

isExited() consumed the status, so that a later wait failed, never recognised a
child that was killed, and waitAsync() reported an exit with status 0 if it was
woken before the child had ended. stdin() returned a descriptor that had just
been set to -1.
---
 src/cxy/stdlib/os.cxy | 80 ++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 7f4d3e2..1c0cc47 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -525,6 +525,8 @@ pub struct Process {
     - _fdout: i32;
     - _fderr: i32;
     - _pid: Pid = 0;
+    - _reaped = false;
+    - _status: i32 = 0;
 
     func `init`(pid: Pid, input: i32 = -1, out: i32 = -1, err: i32 = -1) {
         _pid = pid
@@ -557,73 +559,73 @@ pub struct Process {
             _stdin = FileOutputStream(_fdin)
             _fdin = -1
         }
-        return &_fdin
+        return &_stdin
     }
 
     func `deinit`() {
-        if (_fdin > 0) {
+        if (_fdin >= 0) {
             unistd.close(_fdin)
             _fdin = -1
         }
-        if (_fdout > 0) {
+        if (_fdout >= 0) {
             unistd.close(_fdout)
             _fdout = -1
         }
-        if (_fderr > 0) {
+        if (_fderr >= 0) {
             unistd.close(_fderr)
             _fderr = -1
         }
     }
 
-    const func isExited() {
-        var status = 0`i32
-        const ret = syswait.waitpid(_pid, ptrof status, WNOHANG!);
-        if (ret < 0)
-            return true
-        return ret == _pid  && WIFEXITED!(status)
+    /// Collects the status of the process, which the system gives only once.
+    /// Returns false as long as the process is running
+    - func reap(flags: i32): !bool {
+        while (!_reaped) {
+            var status = 0`i32
+            const ret = syswait.waitpid(_pid, ptrof status, flags)
+            if (ret == 0)
+                return false
+            if (ret == _pid) {
+                _status = status
+                _reaped = true
+            }
+            else if (errno! != EINTR!)
+                raise IOError(f"wait for pid ${_pid} failed: ${strerr()}")
+        }
+        return true
     }
 
-    func wait(): !i32 {
-        var status = 0`i32;
-        const ret = syswait.waitpid(_pid, ptrof status, 0)
-        if (ret < 0)
-            raise IOError(f"wait for pid ${_pid} failed: ${strerr()}")
-
-        if (WIFEXITED!(status)) {
-            return WEXITSTATUS!(status)
+    - func exitCode() {
+        if (WIFEXITED!(_status)) {
+            return <i32>WEXITSTATUS!(_status)
         }
         return -1`i32
     }
 
+    func isExited() {
+        return reap(WNOHANG!) catch true
+    }
+
+    func wait(): !i32 {
+        reap(0)
+        return exitCode()
+    }
+
     func waitAsync(): !i32 {
         #if (defined MACOS) {
             warn!("Process::waitAsync is not defined for MACOS yet")
             raise IOError("Process::waitAsync is not defined for MACOS yet")
         }
         else {
-            const pidFd = pidfd_open(_pid, PIDFD_NONBLOCK!);
-            if (pidFd < 1) {
-                if (errno! == EINVAL!)
-                    return -(<i32>EINVAL!)
-                raise IOError(f"wait for pid ${_pid} failed: ${strerr()}")
-            }
-
-            defer unistd.close(pidFd)
-            var status = 0`i32;
-            var ret = syswait.waitpid(_pid, ptrof status, WNOHANG!);
-            if (ret < 0)
-                raise IOError(f"wait for pid ${_pid} failed: ${strerr()}")
-            if (ret == 0) {
-                fdWaitRead(pidFd)
-                ret = syswait.waitpid(_pid, ptrof status, WNOHANG!)
-                if (ret < 0)
+            if (!reap(WNOHANG!)) {
+                const pidFd = pidfd_open(_pid, PIDFD_NONBLOCK!);
+                if (pidFd < 0)
                     raise IOError(f"wait for pid ${_pid} failed: ${strerr()}")
+                defer unistd.close(pidFd)
+                while (!reap(WNOHANG!))
+                    fdWaitRead(pidFd)
             }
-
-            if (WIFEXITED!(status)) {
-                return WEXITSTATUS!(status)
-            }
-            return -1`i32
+            return exitCode()
         }
     }
 }
-- 
2.43.0


From e3df0f8ab07fece850e9ebf15ab7a02a3ef276b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 53/70] fix: recognise children ended by a signal (the mask is
 octal)

---
 src/cxy/stdlib/os.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index 1c0cc47..b522bd7 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -116,7 +116,7 @@ else #if (!defined MACOS) {
 }
 
 macro _W_INT(x)      *(<^i32>(ptrof x!))
-macro _WSTATUS(x)    =(_W_INT!(x!) & 0177)
+macro _WSTATUS(x)    =(_W_INT!(x!) & 0o177)
 macro WIFEXITED(x)   =(_WSTATUS!(x!) == 0)
 macro WEXITSTATUS(x) =((_W_INT!(x!) >> 8) & 0x000000ff)
 
-- 
2.43.0


From bf66ce785292abb4d39cd412c7d46b015cd5f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:55 +0000
Subject: [PATCH 54/70] fix: os.execute passes on an environment given as a
 slice

---
 src/cxy/stdlib/os.cxy | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cxy/stdlib/os.cxy b/src/cxy/stdlib/os.cxy
index b522bd7..fd4d0cd 100644
--- a/src/cxy/stdlib/os.cxy
+++ b/src/cxy/stdlib/os.cxy
@@ -816,17 +816,21 @@ pub func execute[T](
     if (pid == 0) {
         var argv = [ "sh", "-c", cmd, null ]
         // Child process
-        #if (T.isStruct) {
+        #if (T.isSlice) {
+            for (const i: 0..env.size())
+                stdlib.setenv(env.[i].0 !: ^const char, env.[i].1 !: ^const char, 1)
+        }
+        else #if (T.isArray) {
+            for (const x,_: env)
+                stdlib.setenv(x.0 !: ^const char, x.1 !: ^const char, 1)
+        }
+        else {
             #for(const M: T.members) {
                 #if (M.isField && M.Tinfo == #string)
                     stdlib.setenv(#{M.name} !: ^const char,
                                   env.#{mk_ident!(M.name)} !: ^const char, 1)
             }
         }
-        else {
-            for (const x,_: env)
-                stdlib.setenv(x.0 !: ^const char, x.1 !: ^const char, 1)
-        }
 
         ae.aeRestoreSigpipe()
         unistd.execvp("sh" !: ^const char, argv !: ^^const char)
-- 
2.43.0


From 13bd4e6c7a1916178062b6b186a9f91f99fa21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:15 +0000
Subject: [PATCH 55/70] fix: url encoded forms are percent encoded, not base64
 encoded

---
 src/cxy/stdlib/fetch.cxy | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/cxy/stdlib/fetch.cxy b/src/cxy/stdlib/fetch.cxy
index bcff22b..7486923 100644
--- a/src/cxy/stdlib/fetch.cxy
+++ b/src/cxy/stdlib/fetch.cxy
@@ -11,7 +11,6 @@ import { HeaderMap, Method, SendFile, Status, HttpError, methodFromString } from
 
 import "./log.cxy"
 import "./os.cxy" as os
-import "./base64.cxy" as base64
 
 import "native/http/llhttp.h" as parser
 
@@ -40,6 +39,20 @@ func urlEncode(os: &OutputStream, url: __string) {
     }
 }
 
+func urlEncodedSize(url: __string) {
+    var size = 0`u64
+    for (var i: 0..url.size()) {
+        if (   ('a'`char <= url.[i] && url.[i] <= 'z'`char)
+            || ('A'`char <= url.[i] && url.[i] <= 'Z'`char)
+            || ('0'`char <= url.[i] && url.[i] <= '9'`char)
+           )
+            size += 1
+        else
+            size += 3
+    }
+    return size
+}
+
 const LOG_TAG = "HTTP_CLIENT";
 
 struct FileUpload {
@@ -102,14 +115,14 @@ pub class Form {
     @inline
     const func `!!`() => !_data.empty() || !_uploads.empty();
 
-    - const func urlEncode(os: &OutputStream) {
+    - const func encodeFields(os: &OutputStream) {
         var first = true
         for (const item: _data) {
             if (!first)
                 os << "&"
-            base64.urlEncode(os, &item.0)
+            urlEncode(os, item.0.__str())
             os << "="
-            base64.urlEncode(os, &item.1)
+            urlEncode(os, item.1.__str())
             first = false
         }
     }
@@ -151,18 +164,18 @@ pub class Form {
         if (_data.empty() && _uploads.empty())
             return
         if (_encoding == .UrlEncode)
-            urlEncode(os)
+            encodeFields(os)
         else
             multipartEncode(os)
     }
 
-    - const func urlEncodedSize() {
+    - const func encodedFieldsSize() {
         var size = _data.size() - 1 /* & by size-1 */
         for (const item: _data) {
             size += (
                   1 /* = */
-                + base64.urlEncodeSize(item.0.size())
-                + base64.urlEncodeSize(item.1.size())
+                + urlEncodedSize(item.0.__str())
+                + urlEncodedSize(item.1.__str())
             )
         }
 
@@ -217,7 +230,7 @@ pub class Form {
         if (_data.empty() && _uploads.empty())
             return 0`u64
         if (_encoding == .UrlEncode)
-            return urlEncodedSize()
+            return encodedFieldsSize()
         else
             return multipartEncodeSize()
     }
@@ -263,7 +276,7 @@ pub class Request {
             raise HttpError("Request form already set")
 
         if (fm._encoding == .UrlEncode) {
-            setContentType("application/x-www-form-url-encoded")
+            setContentType("application/x-www-form-urlencoded")
         }
         else {
             var contentType = "multipart/form-data; boundary=".S;
-- 
2.43.0


From b44d6c178da2462e5b63f788153ee1be5c49d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:28 +0000
Subject: [PATCH 56/70] fix: fetch sends files, ends the request after its body
 and reports what could not be sent

---
 src/cxy/stdlib/fetch.cxy | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/cxy/stdlib/fetch.cxy b/src/cxy/stdlib/fetch.cxy
index 7486923..deb4ba6 100644
--- a/src/cxy/stdlib/fetch.cxy
+++ b/src/cxy/stdlib/fetch.cxy
@@ -127,7 +127,7 @@ pub class Form {
         }
     }
 
-    - const func multipartEncode(os: &BufferedSocketOutputStream): !void {
+    - const func multipartEncode(os: &BufferedSocketOutputStream, timeout: u64): !void {
         for (const item: _data) {
             os << "--" << _boundary << CRLF!
                << CONTENT_DISPOSITION
@@ -151,7 +151,7 @@ pub class Form {
             os << CRLF!
 
             var fd = item.open()
-            var sent =  os.sendFile(fd.fd, 0, fd.size())
+            var sent =  os.sendFile(fd.fd, 0, fd.size(), timeout)
             if (!sent)
                 raise HttpError(f"uploading file '${item.path()}' failed: ${strerr()}")
             os << CRLF!
@@ -160,13 +160,13 @@ pub class Form {
         os << "--" << _boundary << "--"
     }
 
-    const func encode(os: &BufferedSocketOutputStream): !void {
+    const func encode(os: &BufferedSocketOutputStream, timeout: u64 = 0): !void {
         if (_data.empty() && _uploads.empty())
             return
         if (_encoding == .UrlEncode)
             encodeFields(os)
         else
-            multipartEncode(os)
+            multipartEncode(os, timeout)
     }
 
     - const func encodedFieldsSize() {
@@ -364,22 +364,25 @@ pub class Request {
         sos << "Date: " << Time() << CRLF!
         sos << CRLF!
 
-        if (size == 0)
-            return
-
-        if (_body != null) {
+        if (size == 0) {
+            // No body to send
+        }
+        else if (_body != null) {
             // Send body as it is
             sos << _body
         }
         else if (_sendFile) {
             // Send the file
-            sos.sendFile(_sendFile&.raw(), _sendFile&.count, 0)
+            sos.sendFile(_sendFile&.raw(), _sendFile&.offset, _sendFile&.count, timeout)
         }
         else if (_form) {
             // Encode the for
-            _form&.encode(&sos)
+            _form&.encode(&sos, timeout)
         }
-        sos << CRLF!
+
+        sos.sync()
+        if (sos.failed())
+            raise HttpError(f"Sending fetch request failed: ${strerr()}")
     }
 }
 
-- 
2.43.0


From 891fe30b7b67d22d1d89ca9e4fcba858a7420040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 57/70] fix: fetch recognises the end of a response without a
 length, of a HEAD response and of interim responses

---
 src/cxy/stdlib/fetch.cxy | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/cxy/stdlib/fetch.cxy b/src/cxy/stdlib/fetch.cxy
index deb4ba6..30bc4b6 100644
--- a/src/cxy/stdlib/fetch.cxy
+++ b/src/cxy/stdlib/fetch.cxy
@@ -397,6 +397,7 @@ pub class Response {
     - _s1: String = null;
     - _s2: String = null;
     - _isComplete = false;
+    - _noBody = false;
 
     @inline
     func `init`(settings: ^const parser.llhttp_settings_t) {
@@ -466,7 +467,8 @@ pub class Response {
 
     func feed(buf: ^const char, len: u64): bool {
         const ret = parser.llhttp_execute(_parser, buf !: ^const char, len)
-        if (ret != parser.llhttp_errno.HPE_OK) {
+        // The parser is paused at the end of the response, whatever may follow it
+        if (ret != parser.llhttp_errno.HPE_OK && !_isComplete) {
             const s = parser.llhttp_errno_name(ret) !: string
             const reason = parser.llhttp_get_error_reason(_parser) !: string;
             DBG!("parsing request failed - error: " << s << ", reason: " << reason )
@@ -479,8 +481,18 @@ pub class Response {
         var buffer: [char, 8192] = []
         while (!_isComplete) {
             var count = sock.receive(buffer, sizeof!(buffer), timeout);
-            if (!count)
+            if (!count || *count == 0) {
+                var closed = sock.raw() == -1 && errno! != ECONNRESET!;
+                if (count)
+                    closed = true
+                if (closed) {
+                    // Server closed the connection, this ends a response without a length and cuts all others
+                    if (_parser.finish == parser.llhttp_finish.HTTP_FINISH_SAFE_WITH_CB)
+                        break
+                    raise HttpError("Receiving fetch response failed: connection closed before the response was complete")
+                }
                 raise HttpError(f"Receiving fetch response failed: ${strerr()}")
+            }
             if (!feed(buffer, *count)) {
                 const err = parser.llhttp_get_error_reason(_parser) !: string
                 raise HttpError(f"Parsing fetch response failed: ${err}")
@@ -527,7 +539,8 @@ func responseParserOnHeadersComplete(p: ^parser.llhttp_t) {
         resp._s1 = null
         resp._s2 = null
     }
-    return 0
+    // 1 tells the parser that no body follows, whatever the headers say
+    return resp._noBody? 1`i32 : 0`i32
 }
 
 func responseParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
@@ -537,8 +550,13 @@ func responseParserOnBody(p: ^parser.llhttp_t, at: ^const char, len: u64) {
 
 func responseParserOnMessageComplete(p: ^parser.llhttp_t) {
     var resp = p.data !: Response;
+    if (p.status_code >= 100 && p.status_code < 200 && p.status_code != 101) {
+        // Only an interim response, the final one follows
+        resp._headers.clear()
+        return 0`i32
+    }
     resp._isComplete = true;
-    return 0
+    return <i32>parser.llhttp_errno.HPE_PAUSED
 }
 
 const HTTP_PARSER_SETTINGS = parser.llhttp_settings_t{
@@ -607,6 +625,7 @@ class Session {
         // Submit request
         _req.submit(_sock, _timeout)
         var resp: Response = Response(ptrof HTTP_PARSER_SETTINGS, &&writer);
+        resp._noBody = method == Method.Head
         resp.receive(&_sock, _timeout)
         return &&resp
     }
-- 
2.43.0


From 069125623480d214ff195c23da9178ae762e391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:06 +0000
Subject: [PATCH 58/70] fix: fetch keeps a resource's own arguments, names the
 port in Host and accepts urls without a scheme

---
 src/cxy/stdlib/fetch.cxy | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/cxy/stdlib/fetch.cxy b/src/cxy/stdlib/fetch.cxy
index 30bc4b6..a054ac3 100644
--- a/src/cxy/stdlib/fetch.cxy
+++ b/src/cxy/stdlib/fetch.cxy
@@ -336,7 +336,11 @@ pub class Request {
     const func encodeArgs(os: &BufferedSocketOutputStream) {
         if (_args.empty())
             return;
-        os << '?'
+        // The resource might already have some arguments
+        if (_resource.indexOf('?'`char))
+            os << '&'
+        else
+            os << '?'
         var first = true
         for (const arg: _args) {
             if (!first)
@@ -689,6 +693,10 @@ class Session {
         var hostStr = String(host)
         var addr = getRemoteAddress(hostStr.str(), port);
         TRC1!(f"Connected to host: '${proto}://${host}:${port}'")
+        if (port != (proto == "https".s? 443`u16 : 80`u16)) {
+            // the port is only left out if it is the default one
+            hostStr << ":" << port
+        }
         return This(proto, hostStr, port, &&addr)
     }
 }
@@ -712,13 +720,14 @@ pub func fetch(url: __string, builder: RequestBuilder = null): !Response {
 
     var idx = url.find("://")
     var resource = "/".s
-    if (idx) {
-        var stem = url.substr(*idx + 3)
-        var idx2 = stem.indexOf('/'`char)
-        if (idx2) {
-            resource = stem.substr(*idx2)
-            url = url.substr(0, <i64>(3 + *idx + *idx2))
-        }
+    var start = 0`u64;
+    if (idx)
+        start = *idx + 3
+    var stem = url.substr(start)
+    var idx2 = stem.indexOf('/'`char)
+    if (idx2) {
+        resource = stem.substr(*idx2)
+        url = url.substr(0, <i64>(start + *idx2))
     }
 
     var session = Session.create(url);
-- 
2.43.0


From c4c41e4c7a85022753687591aa07ba097e85a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:02 +0000
Subject: [PATCH 59/70] fix: the end of a TCP stream is not taken for another
 task's reset

---
 src/cxy/stdlib/tcp.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/stdlib/tcp.cxy b/src/cxy/stdlib/tcp.cxy
index 0c14ec6..37eecf2 100644
--- a/src/cxy/stdlib/tcp.cxy
+++ b/src/cxy/stdlib/tcp.cxy
@@ -82,6 +82,8 @@ pub class TcpSocket: Socket {
                     return total
 
                 close()
+                // The end of the stream is not an error, errno might be another task's
+                errno! = 0
                 return null
             }
 
-- 
2.43.0


From 4854dc7463dc9f689ba1afa83edd206fa18767a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:54 +0000
Subject: [PATCH 60/70] fix: errors of one TLS connection no longer end the
 others

SSL_get_error consults the thread's error queue, which has to be empty
before the operation: what one connection left there made the next
operation that only had to wait, on any connection, fail.
---
 src/cxy/stdlib/ssl.cxy | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/stdlib/ssl.cxy b/src/cxy/stdlib/ssl.cxy
index c3167c8..12937ea 100644
--- a/src/cxy/stdlib/ssl.cxy
+++ b/src/cxy/stdlib/ssl.cxy
@@ -85,6 +85,7 @@ pub class SslSocket: Socket {
 
     - func bioFlush(ssl: ^TYPES.ssl_st, timeout: u64) {
         while {
+            ERR.ERR_clear_error()
             var rc = BIO_flush!(bio)
             if (rc >= 0)
                 return true
@@ -135,6 +136,7 @@ pub class SslSocket: Socket {
         BIO.BIO_push(bio, cbio)
 
         while {
+            ERR.ERR_clear_error()
             var rc = BIO_do_handshake!(bio);
             if (rc <= 0) {
                 var err = SSL.SSL_get_error(ssl, <i32>rc);
@@ -173,6 +175,8 @@ pub class SslSocket: Socket {
         var written = 0`u64
         var p = buf !: ^u8
         while (written < size) {
+            // SSL_get_error looks at every error this thread has met
+            ERR.ERR_clear_error()
             var rc = BIO.BIO_write(bio, ptroff!(p + written), <i32>(size - written))
             if (rc <= 0) {
                 var err = SSL.SSL_get_error(ssl, <i32>rc)
@@ -224,6 +228,7 @@ pub class SslSocket: Socket {
         var nRead = 0`u64
         var p = buf !: ^u8;
         while (nRead < size) {
+            ERR.ERR_clear_error()
             var rc = BIO.BIO_read(bio, ptroff!(p + nRead), <i32>(size - nRead));
             if (rc < 0) {
                 var err = SSL.SSL_get_error(ssl, <i32>rc);
-- 
2.43.0


From b8dc0a1aee6d8a2c48a0b95bc862b09f312dcbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:54 +0000
Subject: [PATCH 61/70] fix: TLS sends that have to read, and receives that
 have to write, wait

Either can be needed while the peer renews its keys. The connection was
reported as reset instead, and so were bytes already received.
---
 src/cxy/stdlib/ssl.cxy | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/cxy/stdlib/ssl.cxy b/src/cxy/stdlib/ssl.cxy
index 12937ea..e185be9 100644
--- a/src/cxy/stdlib/ssl.cxy
+++ b/src/cxy/stdlib/ssl.cxy
@@ -104,6 +104,18 @@ pub class SslSocket: Socket {
         }
     }
 
+    // Waits for what the operation that ended with `err` needs to go on
+    - func waitRetry(err: i32, timeout: u64) {
+        if (err == SSL_ERROR_WANT_READ!)
+            return wait(timeout, State.AE_READABLE)
+        if (err == SSL_ERROR_WANT_WRITE!)
+            return wait(timeout, State.AE_WRITABLE)
+
+        TRC!("TLS operation failed: " << getSslError())
+        errno! = ECONNRESET!
+        return false
+    }
+
     func `init`(fd: i32, addr: Address, bio: ^TYPES.bio_st) {
         super(fd, &&addr)
         this.bio = bio
@@ -180,16 +192,8 @@ pub class SslSocket: Socket {
             var rc = BIO.BIO_write(bio, ptroff!(p + written), <i32>(size - written))
             if (rc <= 0) {
                 var err = SSL.SSL_get_error(ssl, <i32>rc)
-                if (err != SSL_ERROR_WANT_WRITE!) {
-                    errno! = ECONNRESET!
-                    TRC!( "BIO_get_ssl failed: " << getSslError())
-                    return null
-                }
-
-                if (!wait(timeout, State.AE_WRITABLE)) {
-                    TRC!( "Waiting for socket to be writable failed")
+                if (!waitRetry(err, timeout))
                     return null
-                }
                 continue
             }
 
@@ -232,19 +236,11 @@ pub class SslSocket: Socket {
             var rc = BIO.BIO_read(bio, ptroff!(p + nRead), <i32>(size - nRead));
             if (rc < 0) {
                 var err = SSL.SSL_get_error(ssl, <i32>rc);
-                if (err != SSL_ERROR_WANT_READ!) {
-                    ERR!( "BIO_get_ssl failed: " << getSslError())
-                    errno! = ECONNRESET!
-                    return null
-                }
-
                 if (nRead > 0)
                     return nRead // Return what we have read so far
 
-                if (!wait(timeout, State.AE_READABLE)) {
-                    TRC!( f"Waiting for socket to be readable timed out")
+                if (!waitRetry(err, timeout))
                     return null
-                }
                 continue
             }
             else if (rc == 0)
-- 
2.43.0


From 417929b3054bc57eb944484499e639746830ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:54 +0000
Subject: [PATCH 62/70] fix: a TLS stream that is cut is not reported as ended

Only the peer's close_notify ends the session; a connection that closes
without it may have been cut by anyone on the way.
---
 src/cxy/stdlib/ssl.cxy | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cxy/stdlib/ssl.cxy b/src/cxy/stdlib/ssl.cxy
index e185be9..43a37d7 100644
--- a/src/cxy/stdlib/ssl.cxy
+++ b/src/cxy/stdlib/ssl.cxy
@@ -234,17 +234,16 @@ pub class SslSocket: Socket {
         while (nRead < size) {
             ERR.ERR_clear_error()
             var rc = BIO.BIO_read(bio, ptroff!(p + nRead), <i32>(size - nRead));
-            if (rc < 0) {
+            if (rc <= 0) {
                 var err = SSL.SSL_get_error(ssl, <i32>rc);
-                if (nRead > 0)
-                    return nRead // Return what we have read so far
+                // Return what we have read so far, or the end of the session
+                if (nRead > 0 || err == SSL_ERROR_ZERO_RETURN!)
+                    return nRead
 
                 if (!waitRetry(err, timeout))
                     return null
                 continue
             }
-            else if (rc == 0)
-                return nRead
             nRead += rc
         }
 
-- 
2.43.0


From 0ffa40209779815bb34db12bf2de7e90332f10ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:54 +0000
Subject: [PATCH 63/70] fix: SslSocket.sendFile sends ranges that do not begin
 on a page

mmap refused every such offset, and a range that reached beyond the end
of the file was sent as zeros or killed the program (SIGBUS).
---
 src/cxy/stdlib/ssl.cxy | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/cxy/stdlib/ssl.cxy b/src/cxy/stdlib/ssl.cxy
index 43a37d7..c8242f3 100644
--- a/src/cxy/stdlib/ssl.cxy
+++ b/src/cxy/stdlib/ssl.cxy
@@ -6,7 +6,6 @@ import { State } from "./coro.cxy"
 import "./log.cxy"
 
 import "unistd.h" as unistd
-import "sys/mman.h" as vmem
 import "openssl/bio.h" as BIO
 import "openssl/ssl.h" as SSL
 import "openssl/err.h" as ERR
@@ -204,21 +203,27 @@ pub class SslSocket: Socket {
 
     func sendFile(fd: i32, offset: u64, count: u64, timeout: u64 = 0): u64? {
         // Sendfile not supported for SSL
-        const len = ((count + (SysConfPageSize - 1)) & ~(SysConfPageSize - 1)) + SysConfPageSize;
-        var ptr  = vmem.mmap(null,
-                             len,
-                             PROT_READ!,
-                             MAP_PRIVATE!,
-                             fd,
-                             <i64>offset)
-        if (ptr == ((-1`u64) !: ^void)) {
-            TRC!("mmap(" << fd << ") failed: " << strerr())
-            return null
-        }
+        var buf: [char, 8192] = [];
+        var sent = 0`u64;
+        while (sent < count) {
+            var size = count - sent;
+            if (size > sizeof!(buf))
+                size = sizeof!(buf)
+            const rc = unistd.pread(fd, buf !: ^void, size, <i64>(offset + sent));
+            if (rc <= 0) {
+                // the file ends before the range does
+                if (rc == 0)
+                    errno! = EIO!
+                TRC!("pread(" << fd << ") failed: " << strerr())
+                return null
+            }
 
-        var ret = sendBuffer(ptr, count, timeout);
-        vmem.munmap(ptr, len)
-        return ret
+            const n = sendBuffer(buf !: ^const void, <u64>rc, timeout);
+            if (!n)
+                return null
+            sent += <u64>rc
+        }
+        return sent
     }
 
     func receive(buf: ^void, size: u64, timeout: u64 = 0): u64? {
-- 
2.43.0


From 77e47d31c47e4c61b1d6adf10a7b8ec476785a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:54 +0000
Subject: [PATCH 64/70] fix: closing a TLS socket ends its session first

The session was ended when the socket was dropped, with the descriptor
closed already: the peer never learned of the end, and the message went
to whatever connection had been given the number since.
---
 src/cxy/stdlib/net.cxy | 2 +-
 src/cxy/stdlib/ssl.cxy | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/net.cxy b/src/cxy/stdlib/net.cxy
index 3371804..69f8913 100644
--- a/src/cxy/stdlib/net.cxy
+++ b/src/cxy/stdlib/net.cxy
@@ -488,7 +488,7 @@ pub class Socket {
         }
     }
 
-    func close(): void {
+    virtual func close(): void {
         if (_fd != -1) {
             unistd.close(_fd)
             _fd = -1
diff --git a/src/cxy/stdlib/ssl.cxy b/src/cxy/stdlib/ssl.cxy
index c8242f3..21acbd5 100644
--- a/src/cxy/stdlib/ssl.cxy
+++ b/src/cxy/stdlib/ssl.cxy
@@ -255,11 +255,14 @@ pub class SslSocket: Socket {
         return nRead
     }
 
-    func `deinit`() {
+    func close(): void {
         if (bio != null) {
             SSL.BIO_ssl_shutdown(bio)
             BIO.BIO_free_all(bio);
             bio = null
         }
+        super.close()
     }
+
+    func `deinit`() { close() }
 }
-- 
2.43.0


From 63dabd438d5fdee7517f18dc69196204eb4d77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:15 +0000
Subject: [PATCH 65/70] fix: a TLS session that failed stays failed

OpenSSL allows no further operation after SSL_ERROR_SSL: the next receive
reported the end of the session, or the next operation waited for the
descriptor in a loop that never ends, keeping the program busy.
---
 src/cxy/stdlib/ssl.cxy | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/ssl.cxy b/src/cxy/stdlib/ssl.cxy
index 21acbd5..92b0a7c 100644
--- a/src/cxy/stdlib/ssl.cxy
+++ b/src/cxy/stdlib/ssl.cxy
@@ -81,6 +81,8 @@ func getSslError(): string {
 
 pub class SslSocket: Socket {
     - bio: ^TYPES.bio_st = null;
+    // an operation failed for good, nothing else works with the session
+    - broken: bool = false;
 
     - func bioFlush(ssl: ^TYPES.ssl_st, timeout: u64) {
         while {
@@ -111,6 +113,8 @@ pub class SslSocket: Socket {
             return wait(timeout, State.AE_WRITABLE)
 
         TRC!("TLS operation failed: " << getSslError())
+        if (err == SSL_ERROR_SSL!)
+            broken = true
         errno! = ECONNRESET!
         return false
     }
@@ -183,6 +187,11 @@ pub class SslSocket: Socket {
                 return null
         }
 
+        if (broken) {
+            errno! = ECONNRESET!
+            return null
+        }
+
         var written = 0`u64
         var p = buf !: ^u8
         while (written < size) {
@@ -234,6 +243,11 @@ pub class SslSocket: Socket {
             return null
         }
 
+        if (broken) {
+            errno! = ECONNRESET!
+            return null
+        }
+
         var nRead = 0`u64
         var p = buf !: ^u8;
         while (nRead < size) {
@@ -242,8 +256,10 @@ pub class SslSocket: Socket {
             if (rc <= 0) {
                 var err = SSL.SSL_get_error(ssl, <i32>rc);
                 // Return what we have read so far, or the end of the session
-                if (nRead > 0 || err == SSL_ERROR_ZERO_RETURN!)
+                if (nRead > 0 || err == SSL_ERROR_ZERO_RETURN!) {
+                    broken = err == SSL_ERROR_SSL!
                     return nRead
+                }
 
                 if (!waitRetry(err, timeout))
                     return null
@@ -257,7 +273,8 @@ pub class SslSocket: Socket {
 
     func close(): void {
         if (bio != null) {
-            SSL.BIO_ssl_shutdown(bio)
+            if (!broken)
+                SSL.BIO_ssl_shutdown(bio)
             BIO.BIO_free_all(bio);
             bio = null
         }
-- 
2.43.0


From 2cb6acec73004027d8f49fb1e78817a356f2319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 66/70] fix: a tab after a length, a transfer coding or a
 connection option is white space

---
 src/cxy/stdlib/native/http/llhttp.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cxy/stdlib/native/http/llhttp.c b/src/cxy/stdlib/native/http/llhttp.c
index 3ef3b81..b6b8efd 100644
--- a/src/cxy/stdlib/native/http/llhttp.c
+++ b/src/cxy/stdlib/native/http/llhttp.c
@@ -2332,6 +2332,10 @@ static llparse_state_t llhttp__internal__run(
         return s_n_llhttp__internal__n_header_value_connection_ws;
       }
       switch (*p) {
+        case 9: {
+          p++;
+          goto s_n_llhttp__internal__n_header_value_connection_ws;
+        }
         case 10: {
           goto s_n_llhttp__internal__n_header_value_otherwise;
         }
@@ -2484,6 +2488,10 @@ static llparse_state_t llhttp__internal__run(
         return s_n_llhttp__internal__n_header_value_content_length_ws;
       }
       switch (*p) {
+        case 9: {
+          p++;
+          goto s_n_llhttp__internal__n_header_value_content_length_ws;
+        }
         case 10: {
           goto s_n_llhttp__internal__n_invoke_or_flags_17;
         }
@@ -2709,6 +2717,10 @@ static llparse_state_t llhttp__internal__run(
         return s_n_llhttp__internal__n_header_value_te_chunked_last;
       }
       switch (*p) {
+        case 9: {
+          p++;
+          goto s_n_llhttp__internal__n_header_value_te_chunked_last;
+        }
         case 10: {
           goto s_n_llhttp__internal__n_invoke_update_header_state_8;
         }
-- 
2.43.0


From a17bdf3e8afad86ff33c1cc3f540fcec850f16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 67/70] fix: the order of drop flags does not depend on
 addresses

---
 src/cxy/lang/middle/mem/manage.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 515a2df..13910cd 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -106,19 +106,18 @@ static void insertVariableTrace(MemContext *ctx,
     csAssert0(status.s);
 }
 
+// Variables are captured in the order in which they were declared
 static DynArray captureVariableState(MemContext *ctx)
 {
     DynArray vars = newDynArray(sizeof(VariableTrace));
-    // dynArrayFor(var, AstNode *, ctx->locals)
-    // {
-    //     VariableTrace *vt = findVariableTrace(ctx, *var);
-    //     csAssert0(vt);
-    //     pushOnDynArray(&vars, vt);
-    // }
-    HmapIterator it = hmapIterator(&ctx->variables);
-    VariableTrace *vt = NULL;
-    while ((vt = hmapNext(&it))) {
-        pushOnDynArray(&vars, vt);
+    dynArrayFor(scope, TraceScope, &ctx->scopes)
+    {
+        dynArrayFor(var, AstNode *, scope->locals)
+        {
+            VariableTrace *vt = findVariableTrace(ctx, *var);
+            csAssert0(vt);
+            pushOnDynArray(&vars, vt);
+        }
     }
     return vars;
 }
-- 
2.43.0


From 615c4f84279900b0e8e57b99b87db3b9d5efc462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:11 +0000
Subject: [PATCH 68/70] fix: a query over TCP that goes out in parts is sent
 without gaps

---
 src/cxy/stdlib/native/dns/dns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/stdlib/native/dns/dns.c b/src/cxy/stdlib/native/dns/dns.c
index 161ff38..52ba164 100644
--- a/src/cxy/stdlib/native/dns/dns.c
+++ b/src/cxy/stdlib/native/dns/dns.c
@@ -6294,7 +6294,7 @@ static int dns_so_tcp_send(struct dns_socket *so)
     so->query->data[-2] = 0xff & (so->query->end >> 8);
     so->query->data[-1] = 0xff & (so->query->end >> 0);
 
-    qsrc = &so->query->data[-2] + so->qout;
+    qsrc = &so->query->data[-2];
     qend = so->query->end + 2;
 
     while (so->qout < qend) {
-- 
2.43.0


From e205292b4438b5a8ef09d11e39a46be68e2c2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 69/70] fix: a TCP connection on which a question was given up
 is not used for the next

---
 src/cxy/stdlib/native/dns/dns.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cxy/stdlib/native/dns/dns.c b/src/cxy/stdlib/native/dns/dns.c
index 52ba164..8797d0d 100644
--- a/src/cxy/stdlib/native/dns/dns.c
+++ b/src/cxy/stdlib/native/dns/dns.c
@@ -6191,6 +6191,14 @@ int dns_so_submit(struct dns_socket *so,
     struct dns_rr rr;
     int error = -1;
 
+    /*
+     * NOTE: a connection on which an exchange was broken off is not kept: the
+     * rest of its query or of its answer would mix with the next one.
+     */
+    if ((so->state == DNS_SO_TCP_SEND || so->state == DNS_SO_TCP_RECV) &&
+        (error = dns_so_closefd(so, &so->tcp)))
+        return error;
+
     dns_so_reset(so);
 
     if ((error = dns_rr_parse(&rr, 12, Q)))
-- 
2.43.0


From 439fe948fbf63a3f8d0fe41e4ba3c75a9e31cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:37 +0000
Subject: [PATCH 70/70] fix: a name server that refuses or breaks off is passed
 over for the next one

---
 src/cxy/stdlib/native/dns/dns.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cxy/stdlib/native/dns/dns.c b/src/cxy/stdlib/native/dns/dns.c
index 8797d0d..993c498 100644
--- a/src/cxy/stdlib/native/dns/dns.c
+++ b/src/cxy/stdlib/native/dns/dns.c
@@ -6377,6 +6377,10 @@ retry:
                          dns_sa_len(&so->remote)))
             goto soerr;
 
+        /* what became of an earlier question is not this one's error */
+        (void)getsockopt(
+            so->udp, SOL_SOCKET, SO_ERROR, &error, &(socklen_t){sizeof error});
+
         so->state++;
     case DNS_SO_UDP_SEND:
         if (0 > (n = send(so->udp, (void *)so->query->data, so->query->end, 0)))
@@ -7441,8 +7445,13 @@ exec:
         if (dns_so_elapsed(&R->so) >= dns_resconf_timeout(R->resconf))
             dgoto(R->sp, DNS_R_FOREACH_A);
 
-        if ((error = dns_so_check(&R->so)))
-            goto error;
+        if ((error = dns_so_check(&R->so))) {
+            if (error == DNS_EAGAIN || error == ENOMEM)
+                goto error;
+
+            /* a server that cannot be asked is as good as a silent one */
+            dgoto(R->sp, DNS_R_FOREACH_A);
+        }
 
         if (!dns_p_setptr(&F->answer, dns_so_fetch(&R->so, &error)))
             goto error;
-- 
2.43.0

