From 3b86021a3ab00485db3f5c3a59bf1299920d1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 01/54] fix: record calls and samples of a frame which was
 absent before

A void statistics ignores assignments to own_hits and deep_time, so calls to
a function which was already on the stack when profiling started were lost.
---
 profiling/stats.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/profiling/stats.py b/profiling/stats.py
index 525c513..fb4effc 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -255,6 +255,15 @@ class RecordingStatistics(Statistics):
             stat_class = adding_stat_class or type(self)
             stats = stat_class(code)
             self.add_child(code, stats)
+        elif (isinstance(stats, VoidRecordingStatistics) and
+              adding_stat_class is not None and
+              not issubclass(adding_stat_class, VoidRecordingStatistics)):
+            # the absent frame has been called or sampled also.  A void cannot
+            # record it.
+            void, stats = stats, adding_stat_class(code)
+            stats._children = void._children
+            stats.deep_time = void.deep_time
+            self.add_child(code, stats)
         return stats
 
     def clear(self):
-- 
2.43.0


From 694f320c29265d5f340dd3f25c332ad03657138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 02/54] fix: do not subtract the overhead of the return event
 from the call twice

---
 profiling/tracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 2a1870b..cb108fe 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -102,7 +102,7 @@ class TracingProfiler(Profiler):
             time = time2 - self.overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time1 - self.overhead
+            time = time2 - self.overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
         self.overhead += time3 - time2
-- 
2.43.0


From 1019344a1a9db32f059e04339c25d653f672b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 03/54] fix: do not record ignored frames under a wrong caller

The frame stack of an ignored frame does not end with that frame, so its
caller was dropped and the ignored code was recorded.
---
 profiling/sampling/__init__.py | 6 ++++++
 profiling/tracing/__init__.py  | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/profiling/sampling/__init__.py b/profiling/sampling/__init__.py
index d13e851..c7e3c77 100644
--- a/profiling/sampling/__init__.py
+++ b/profiling/sampling/__init__.py
@@ -64,6 +64,12 @@ class SamplingProfiler(Profiler):
 
     def sample(self, frame):
         """Samples the given frame."""
+        while (frame in self.ignored_frames or
+               frame.f_code in self.ignored_codes):
+            # attribute the sample to the nearest caller which is not ignored.
+            frame = frame.f_back
+            if frame is None:
+                return
         frames = self.frame_stack(frame)
         if frames:
             frames.pop()
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index cb108fe..13d8415 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -82,6 +82,8 @@ class TracingProfiler(Profiler):
         # c = event.startswith('c_')
         if event.startswith('c_'):
             return
+        if frame in self.ignored_frames or frame.f_code in self.ignored_codes:
+            return
         time1 = self.timer()
         frames = self.frame_stack(frame)
         if frames:
-- 
2.43.0


From 7cfd962b66108219350cb1908055833f57d83033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 04/54] fix: Runnable is not running when it failed to start

---
 profiling/utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index 5f69fff..5176b57 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -46,11 +46,17 @@ class Runnable(object):
             raise RuntimeError('Already started')
         self._running = self.run(*args, **kwargs)
         try:
-            yielded = next(self._running)
-        except StopIteration:
-            raise TypeError('run() must yield just one time')
-        if yielded is not None:
-            raise TypeError('run() must yield without value')
+            try:
+                yielded = next(self._running)
+            except StopIteration:
+                raise TypeError('run() must yield just one time')
+            if yielded is not None:
+                self._running.close()
+                raise TypeError('run() must yield without value')
+        except:
+            # it is not running if failed to start.
+            self._running = None
+            raise
 
     def stop(self):
         """Stops the instance.
-- 
2.43.0


From e9b96e8f810d1b0eff0eadecbc9e4ef098ceac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:57 +0000
Subject: [PATCH 05/54] fix: refused start of a running profiler keeps the
 statistics

---
 profiling/profiler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index eee0e86..a718a08 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -46,9 +46,10 @@ class Profiler(Runnable):
         self.stats = RecordingStatistics()
 
     def start(self):
-        self._cpu_time_started = time.clock()
-        self._wall_time_started = time.time()
-        self.stats.clear()
+        if not self.is_running():
+            self._cpu_time_started = time.clock()
+            self._wall_time_started = time.time()
+            self.stats.clear()
         return super(Profiler, self).start()
 
     def frame_stack(self, frame):
-- 
2.43.0


From e55452bc6da0f5a0ff234522c12a0a001376317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 06/54] fix: CPU and wall time of a result do not grow after
 the profiler stopped

---
 profiling/profiler.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index a718a08..97fccf0 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -49,9 +49,17 @@ class Profiler(Runnable):
         if not self.is_running():
             self._cpu_time_started = time.clock()
             self._wall_time_started = time.time()
+            self._cpu_time_stopped = self._cpu_time_started
+            self._wall_time_stopped = self._wall_time_started
             self.stats.clear()
         return super(Profiler, self).start()
 
+    def stop(self):
+        if self.is_running():
+            self._cpu_time_stopped = time.clock()
+            self._wall_time_stopped = time.time()
+        return super(Profiler, self).stop()
+
     def frame_stack(self, frame):
         return frame_stack(frame, self.base_frame, self.base_code,
                            self.ignored_frames, self.ignored_codes)
@@ -65,9 +73,14 @@ class Profiler(Runnable):
 
     def result(self):
         """Gets the frozen statistics to serialize by Pickle."""
+        if self.is_running():
+            cpu_time_now, wall_time_now = time.clock(), time.time()
+        else:
+            cpu_time_now = getattr(self, '_cpu_time_stopped', None)
+            wall_time_now = getattr(self, '_wall_time_stopped', None)
         try:
-            cpu_time = max(0, time.clock() - self._cpu_time_started)
-            wall_time = max(0, time.time() - self._wall_time_started)
+            cpu_time = max(0, cpu_time_now - self._cpu_time_started)
+            wall_time = max(0, wall_time_now - self._wall_time_started)
         except AttributeError:
             cpu_time = wall_time = 0.0
         return self.stats, cpu_time, wall_time
-- 
2.43.0


From 0832643444da0a8795175557fe9996627f77d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 07/54] fix: CPU time of a tracing result is not negative

---
 profiling/tracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 13d8415..46aca45 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -128,7 +128,7 @@ class TracingProfiler(Profiler):
     def result(self):
         base = super(TracingProfiler, self)
         frozen_stats, cpu_time, wall_time = base.result()
-        return (frozen_stats, cpu_time - self.overhead, wall_time)
+        return (frozen_stats, max(0, cpu_time - self.overhead), wall_time)
 
     def run(self):
         if sys.getprofile() is not None:
-- 
2.43.0


From eced7399249169bbadf90577cc3ef244ab114d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 08/54] fix: threads record nothing after the profiler stopped

The profile function of a thread which was started while profiling cannot be
removed from another thread.
---
 profiling/sampling/samplers.py | 10 +++++++++-
 profiling/tracing/__init__.py  |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 4c4a288..b65e3fa 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -82,9 +82,15 @@ class TracingSampler(Sampler):
 
     def __init__(self, *args, **kwargs):
         super(TracingSampler, self).__init__(*args, **kwargs)
+        self._profiler = None
         self.sampled_times = {}
         self.counter = 0
 
+    def _profile_running(self, profiler, frame, event, arg):
+        # threads keep calling it after the sampler stopped.
+        if self._profiler is profiler:
+            self._profile(profiler, frame, event, arg)
+
     def _profile(self, profiler, frame, event, arg):
         t = thread_clock()
         thread_id = _thread.get_ident()
@@ -102,8 +108,10 @@ class TracingSampler(Sampler):
             self.sampled_times.pop(thread_id, None)
 
     def run(self, profiler):
-        profile = functools.partial(self._profile, profiler)
+        profile = functools.partial(self._profile_running, profiler)
         with deferral() as defer:
+            self._profiler = profiler
+            defer(setattr, self, '_profiler', None)
             sys.setprofile(profile)
             defer(sys.setprofile, None)
             threading.setprofile(profile)
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 46aca45..a3420ec 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -67,6 +67,10 @@ class TracingProfiler(Profiler):
     #: :meth:`_profile`.
     overhead = 0.0
 
+    #: Whether events have to be recorded.  Threads keep calling
+    #: :meth:`_profile` after the profiler stopped.
+    _recording = True
+
     def __init__(self, base_frame=None, base_code=None,
                  ignored_frames=(), ignored_codes=(), timer=None):
         timer = timer or TIMER_CLASS()
@@ -80,7 +84,7 @@ class TracingProfiler(Profiler):
     def _profile(self, frame, event, arg):
         """The callback function to register by :func:`sys.setprofile`."""
         # c = event.startswith('c_')
-        if event.startswith('c_'):
+        if event.startswith('c_') or not self._recording:
             return
         if frame in self.ignored_frames or frame.f_code in self.ignored_codes:
             return
@@ -139,6 +143,8 @@ class TracingProfiler(Profiler):
         with deferral() as defer:
             self._times_entered.clear()
             self.overhead = 0.0
+            self._recording = True
+            defer(setattr, self, '_recording', False)
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
             threading.setprofile(self._profile)
-- 
2.43.0


From dd942b9a0ba817bc0231867dfa66a45fc0abf09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 09/54] fix: tracing sampler keeps the sampled time of each
 thread

Every 10000 samples it forgot the threads which were alive instead of the dead
ones, so they were sampled too early.  A thread which got the identifier of a
dead one was not sampled until its CPU time exceeded that of the dead thread.
---
 profiling/sampling/samplers.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index b65e3fa..bac5e6c 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -15,8 +15,6 @@ import sys
 import threading
 import weakref
 
-import six.moves._thread as _thread
-
 from profiling.utils import deferral, Runnable, thread_clock
 
 
@@ -83,8 +81,7 @@ class TracingSampler(Sampler):
     def __init__(self, *args, **kwargs):
         super(TracingSampler, self).__init__(*args, **kwargs)
         self._profiler = None
-        self.sampled_times = {}
-        self.counter = 0
+        self.sampled_times = threading.local()
 
     def _profile_running(self, profiler, frame, event, arg):
         # threads keep calling it after the sampler stopped.
@@ -93,19 +90,12 @@ class TracingSampler(Sampler):
 
     def _profile(self, profiler, frame, event, arg):
         t = thread_clock()
-        thread_id = _thread.get_ident()
-        sampled_at = self.sampled_times.get(thread_id, 0)
+        # the identifier of a dead thread can be reused, so it's not a key.
+        sampled_at = getattr(self.sampled_times, 'sampled_at', 0)
         if t - sampled_at < self.interval:
             return
-        self.sampled_times[thread_id] = t
+        self.sampled_times.sampled_at = t
         profiler.sample(frame)
-        self.counter += 1
-        if self.counter % 10000 == 0:
-            self._clear_for_dead_threads()
-
-    def _clear_for_dead_threads(self):
-        for thread_id in sys._current_frames().keys():
-            self.sampled_times.pop(thread_id, None)
 
     def run(self, profiler):
         profile = functools.partial(self._profile_running, profiler)
-- 
2.43.0


From e7cf86b8878f59992aaff07d13aed0750c552c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 10/54] fix: sort keys of strings and tuples can be inverted

---
 profiling/sortkeys.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 019ba89..5d2b388 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -15,6 +15,21 @@ __all__ = ['by_name', 'by_module', 'by_deep_hits', 'by_own_hits',
            'by_own_time_per_call']
 
 
+class reversed_key(object):
+    """Orders any comparable values in descending order."""
+
+    __slots__ = ('value',)
+
+    def __init__(self, value):
+        self.value = value
+
+    def __eq__(self, other):
+        return self.value == other.value
+
+    def __lt__(self, other):
+        return other.value < self.value
+
+
 class SortKey(object):
 
     def __init__(self, func):
@@ -26,7 +41,7 @@ class SortKey(object):
 
     def __invert__(self):
         cls = type(self)
-        return cls(lambda stat: -self.func(stat))
+        return cls(lambda stat: reversed_key(self.func(stat)))
 
 
 #: Sorting by name in ascending order.
-- 
2.43.0


From f96c4d9ceeae6def9a54b1249d726cdf153e6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 11/54] fix: sort statistics without name or module together
 with others

None and str are not comparable in Python 3, so the viewer crashed.
---
 profiling/sortkeys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 5d2b388..aff3fa7 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -45,13 +45,13 @@ class SortKey(object):
 
 
 #: Sorting by name in ascending order.
-by_name = SortKey(lambda stat: stat.name)
+by_name = SortKey(lambda stat: stat.name or '')
 
 #: Sorting by module in ascending order.
-by_module = SortKey(lambda stat: stat.module)
+by_module = SortKey(lambda stat: stat.module or '')
 
 #: Sorting by module and name in ascending order.
-by_function = SortKey(lambda stat: (stat.module, stat.name))
+by_function = SortKey(lambda stat: (stat.module or '', stat.name or ''))
 
 #: Sorting by number of inclusive hits in descending order.
 by_deep_hits = SortKey(lambda stat: -stat.deep_hits)
-- 
2.43.0


From 8c9f83370deddaad635c0a7ecd19d45b585e06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 12/54] fix: greenlet timer restores the previous trace
 function

---
 profiling/tracing/timers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index a61396a..e2f8e96 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -88,6 +88,6 @@ class GreenletTimer(ContextualTimer):
         self.resume(id(target))
 
     def run(self, profiler):
-        self.greenlet.settrace(self._trace)
+        prev_trace = self.greenlet.settrace(self._trace)
         yield
-        self.greenlet.settrace(None)
+        self.greenlet.settrace(prev_trace)
-- 
2.43.0


From 1df340b10cee5631ea37b770a25cf8c055086c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 13/54] fix: tracing sampler restores the previous profile
 function

---
 profiling/sampling/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index bac5e6c..0b3ae50 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -102,8 +102,9 @@ class TracingSampler(Sampler):
         with deferral() as defer:
             self._profiler = profiler
             defer(setattr, self, '_profiler', None)
+            prev_profile = sys.getprofile()
             sys.setprofile(profile)
-            defer(sys.setprofile, None)
+            defer(sys.setprofile, prev_profile)
             threading.setprofile(profile)
             defer(threading.setprofile, None)
             yield
-- 
2.43.0


From f1dc77ad7fc68068cdac7622ff17fded2297b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 14/54] fix: show the time of the result in the viewer

---
 profiling/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 6388d30..af4e088 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -478,7 +478,7 @@ class StatisticsTable(urwid.WidgetWrap):
 
     title = None
     stats = None
-    time = None
+    at = None
 
     def __init__(self, viewer):
         self._expanded_stat_hashes = set()
@@ -637,7 +637,7 @@ class StatisticsTable(urwid.WidgetWrap):
         if stats is None:
             return
         title = self.title
-        time = self.time
+        time = self.at
         if title or time:
             if time is not None:
                 time_string = '{:%H:%M:%S}'.format(time)
-- 
2.43.0


From 257995fde2b8dae929c2aa6a7c4af9d7a91470d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 15/54] fix: carry rounded times to the next unit

0.9996 seconds were shown as 1000ms and 119.7 seconds as 1m60s.
---
 profiling/viewer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index af4e088..f9fc960 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -190,16 +190,17 @@ class Formatter(object):
         # 6120: 102min
         if sec == 0:
             return '0'
-        elif sec < 1e-3:
+        elif round(sec * 1e6) < 1e3:
             # 1us ~ 999us
             return '{:.0f}us'.format(sec * 1e6)
-        elif sec < 1:
+        elif round(sec * 1e3) < 1e3:
             # 1ms ~ 999ms
             return '{:.0f}ms'.format(sec * 1e3)
-        elif sec < 60:
+        elif round(sec, 1) < 60:
             # 1.0sec ~ 59.9sec
             return '{:.1f}sec'.format(sec)
-        elif sec < 600:
+        sec = round(sec)
+        if sec < 600:
             # 1min0s ~ 9min59s
             return '{:.0f}m{:.0f}s'.format(sec // 60, sec % 60)
         else:
-- 
2.43.0


From 8f143372e2c3dd07762315b347d4da8f19202cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 16/54] fix: receive a message which arrives in pieces on a
 non-blocking socket

The sockets of the viewing client are non-blocking, where MSG_WAITALL does not
wait.  A result larger than one segment was taken for a closed connection.
---
 profiling/remote/__init__.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ab5cb1a..7ed297a 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EBADF, ECONNRESET, EPIPE
+from errno import EAGAIN, EBADF, ECONNRESET, EINTR, EPIPE, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -20,6 +20,7 @@ try:
     import cPickle as pickle
 except ImportError:
     import pickle
+import select
 import socket
 import struct
 
@@ -68,10 +69,21 @@ def pack_msg(method, msg, pickle_protocol=PICKLE_PROTOCOL):
 
 def recv(sock, size):
     """Receives exactly `size` bytes.  This function blocks the thread."""
-    data = sock.recv(size, socket.MSG_WAITALL)
-    if len(data) < size:
-        raise socket.error(ECONNRESET, 'Connection closed')
-    return data
+    chunks = []
+    while size > 0:
+        try:
+            chunk = sock.recv(size, socket.MSG_WAITALL)
+        except socket.error as exc:
+            if exc.errno not in (EAGAIN, EWOULDBLOCK, EINTR):
+                raise
+            # a non-blocking socket has to wait for the rest.
+            select.select([sock], (), ())
+            continue
+        if not chunk:
+            raise socket.error(ECONNRESET, 'Connection closed')
+        chunks.append(chunk)
+        size -= len(chunk)
+    return b''.join(chunks)
 
 
 def recv_msg(sock):
-- 
2.43.0


From eb28e93af64841a371043fde43bfea3254434244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 17/54] fix: server survives clients which fail while it sends
 to them

Any socket error means that the client does not get the whole message, so the
client is disconnected.  Clients may also come and go during a broadcast of the
gevent server.
---
 profiling/remote/__init__.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 7ed297a..27d7ee9 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EAGAIN, EBADF, ECONNRESET, EINTR, EPIPE, EWOULDBLOCK
+from errno import EAGAIN, ECONNRESET, EINTR, EWOULDBLOCK
 import functools
 import io
 from logging import getLogger as get_logger
@@ -196,12 +196,11 @@ class ProfilingServer(object):
             self._latest_result_data = data
             # broadcast.
             closed_clients = []
-            for client in self.clients:
+            for client in list(self.clients):
                 try:
                     self._send(client, data)
-                except socket.error as exc:
-                    if exc.errno == EPIPE:
-                        closed_clients.append(client)
+                except socket.error:
+                    closed_clients.append(client)
             del data
             # handle disconnections.
             for client in closed_clients:
@@ -219,23 +218,21 @@ class ProfilingServer(object):
         self.clients.add(client)
         self._log_connected(client)
         self._start_watching(client)
-        self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
-                      pickle_protocol=0)
         profiler = self.profiler
         while True:
             try:
                 profiler = profiler.profiler
             except AttributeError:
                 break
-        self.send_msg(client, PROFILER, type(profiler))
-        if self._latest_result_data is not None:
-            try:
+        try:
+            self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
+                          pickle_protocol=0)
+            self.send_msg(client, PROFILER, type(profiler))
+            if self._latest_result_data is not None:
                 self._send(client, self._latest_result_data)
-            except socket.error as exc:
-                if exc.errno in (EBADF, EPIPE):
-                    self.disconnected(client)
-                    return
-                raise
+        except socket.error:
+            self.disconnected(client)
+            return
         if len(self.clients) == 1:
             self._start_profiling()
 
-- 
2.43.0


From d63bab91780d9cad448ae70759325382dfaf8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 18/54] fix: server runs one profiling loop as long as clients
 are connected

When the last client left at the time when another one connected, a second
loop was started inside the first one, which then failed with 'Not started'.
When two clients connected at once, no loop was started at all.
---
 profiling/remote/__init__.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 27d7ee9..2a80730 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -139,6 +139,9 @@ class ProfilingServer(object):
 
     _latest_result_data = None
 
+    #: Whether a profiling loop has been started and not finished yet.
+    _profiling = False
+
     def __init__(self, profiler, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL):
         self.profiler = profiler
@@ -182,12 +185,20 @@ class ProfilingServer(object):
 
         """
         self._log_profiler_started()
+        try:
+            for __ in self._profile_while_connected():
+                # should sleep.
+                yield
+        finally:
+            self._profiling = False
+        self._log_profiler_stopped()
+
+    def _profile_while_connected(self):
         while self.clients:
             try:
                 self.profiler.start()
             except RuntimeError:
                 pass
-            # should sleep.
             yield
             self.profiler.stop()
             result = self.profiler.result()
@@ -205,7 +216,6 @@ class ProfilingServer(object):
             # handle disconnections.
             for client in closed_clients:
                 self.disconnected(client)
-        self._log_profiler_stopped()
 
     def send_msg(self, client, method, msg, pickle_protocol=None):
         if pickle_protocol is None:
@@ -233,7 +243,8 @@ class ProfilingServer(object):
         except socket.error:
             self.disconnected(client)
             return
-        if len(self.clients) == 1:
+        if not self._profiling:
+            self._profiling = True
             self._start_profiling()
 
     def disconnected(self, client):
-- 
2.43.0


From b37bc8b120249feac70950a9ef41506d0b42f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 19/54] fix: select server sends whole messages or disconnects
 the client

When the send buffer was full, the rest of the message was lost but the next
message followed.  An unexpected error of a client stopped the server.
---
 profiling/remote/select.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 9f7e4b7..5a27fc2 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -13,7 +13,7 @@
 """
 from __future__ import absolute_import
 
-from errno import ECONNRESET, EINTR, ENOTCONN
+from errno import EAGAIN, EINTR, ENOTCONN, ETIMEDOUT, EWOULDBLOCK
 import select
 import socket
 import time
@@ -26,6 +26,9 @@ __all__ = ['SelectProfilingServer']
 
 class SelectProfilingServer(ProfilingServer):
 
+    #: How many seconds to wait for a client which does not receive.
+    send_timeout = 1
+
     def __init__(self, listener, *args, **kwargs):
         super(SelectProfilingServer, self).__init__(*args, **kwargs)
         self.listener = listener
@@ -35,7 +38,23 @@ class SelectProfilingServer(ProfilingServer):
             self.dispatch_sockets()
 
     def _send(self, sock, data):
-        sock.sendall(data, socket.MSG_DONTWAIT)
+        data = memoryview(data)
+        while data:
+            try:
+                data = data[sock.send(data, socket.MSG_DONTWAIT):]
+                continue
+            except socket.error as exc:
+                if exc.errno not in (EAGAIN, EWOULDBLOCK, EINTR):
+                    raise
+            try:
+                __, ready, __ = select.select((), [sock], (),
+                                              self.send_timeout)
+            except select.error as exc:
+                if exc.args[0] != EINTR:
+                    raise
+            else:
+                if not ready:
+                    raise socket.error(ETIMEDOUT, 'Client does not receive')
 
     def _close(self, sock):
         sock.close()
@@ -106,7 +125,6 @@ class SelectProfilingServer(ProfilingServer):
             else:
                 try:
                     sock.recv(1)
-                except socket.error as exc:
-                    if exc.errno != ECONNRESET:
-                        raise
+                except socket.error:
+                    pass
                 self.disconnected(sock)
-- 
2.43.0


From 209b42ac1c435f8ab337a0903a1ba1b35f659a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 20/54] fix: gevent server sends one message to a client at a
 time

A result was mixed into the latest result which was still being sent to a new
client.  A client which did not receive blocked all the others forever.
---
 profiling/remote/gevent.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/gevent.py b/profiling/remote/gevent.py
index aba98ee..19ae653 100644
--- a/profiling/remote/gevent.py
+++ b/profiling/remote/gevent.py
@@ -13,6 +13,7 @@
 """
 from __future__ import absolute_import
 
+from errno import ETIMEDOUT
 import socket
 
 import gevent
@@ -44,18 +45,34 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
 
     """
 
+    #: How many seconds a client may take to receive a message.
+    send_timeout = 10
+
     def __init__(self, listener, profiler=None, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL, **server_kwargs):
         StreamServer.__init__(self, listener, **server_kwargs)
         ProfilingServer.__init__(self, profiler, interval,
                                  log, pickle_protocol)
         self.lock = Semaphore()
+        self._send_locks = {}
         self.profiling_greenlet = None
 
     def _send(self, sock, data):
-        sock.sendall(data)
+        # a greeting may still be being sent when a result is broadcast.
+        with self._send_locks.setdefault(sock, Semaphore()):
+            timeout = gevent.Timeout(self.send_timeout)
+            timeout.start()
+            try:
+                sock.sendall(data)
+            except gevent.Timeout as exc:
+                if exc is not timeout:
+                    raise
+                raise socket.error(ETIMEDOUT, 'Client does not receive')
+            finally:
+                timeout.cancel()
 
     def _close(self, sock):
+        self._send_locks.pop(sock, None)
         sock.close()
 
     def _addr(self, sock):
-- 
2.43.0


From a718eecc419547e8650558b293e93619614a6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 21/54] fix: asyncio server can be imported and forgets clients

async is a keyword since Python 3.7, and disconnected() takes the client.
---
 profiling/remote/asyncio.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/asyncio.py b/profiling/remote/asyncio.py
index b3cd904..3e0b830 100644
--- a/profiling/remote/asyncio.py
+++ b/profiling/remote/asyncio.py
@@ -22,6 +22,13 @@ from profiling.remote import ProfilingServer
 __all__ = ['AsyncIOProfilingServer']
 
 
+try:
+    ensure_future = asyncio.ensure_future
+except AttributeError:
+    # until Python 3.4.4.
+    ensure_future = getattr(asyncio, 'async')
+
+
 class AsyncIOProfilingServer(ProfilingServer):
     """A profiling server implementation based on `asyncio`_.  Launch a server
     by ``asyncio.start_server`` or ``asyncio.start_unix_server``::
@@ -60,12 +67,12 @@ class AsyncIOProfilingServer(ProfilingServer):
         return writer.get_extra_info('peername')
 
     def _start_profiling(self):
-        asyncio.async(self.profile_periodically())
+        ensure_future(self.profile_periodically())
 
     def _start_watching(self, client):
         reader, writer = client
-        disconnected = lambda x: self.disconnected(reader, writer)
-        asyncio.async(reader.read()).add_done_callback(disconnected)
+        disconnected = lambda x: self.disconnected(client)
+        ensure_future(reader.read()).add_done_callback(disconnected)
 
     @asyncio.coroutine
     def profile_periodically(self):
-- 
2.43.0


From 4501840702ed201279a910f9c56697af92d2f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 22/54] fix: viewing client retries whatever the reason it
 could not connect

A Unix socket file which nobody listens on made it fail with ValueError.
---
 profiling/remote/client.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index b3ce40c..c83e1d9 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -10,7 +10,7 @@
 from __future__ import absolute_import
 
 from datetime import datetime
-from errno import ECONNREFUSED, EINPROGRESS, ENOENT
+from errno import ECONNREFUSED, EINPROGRESS
 import socket
 
 from valuedispatch import valuedispatch
@@ -89,19 +89,21 @@ class FailoverProfilingClient(ProfilingClient):
 
     def connect(self):
         while True:
-            errno = self.sock.connect_ex(self.addr)
+            try:
+                errno = self.sock.connect_ex(self.addr)
+            except socket.gaierror as exc:
+                errno = exc.errno
             if not errno:
                 # connected immediately.
                 break
             elif errno == EINPROGRESS:
                 # will be connected.
                 break
-            elif errno == ENOENT:
-                # no such socket file.
+            else:
+                # no such socket file, connection refused, and so on.
+                self.sock.close()
                 self.create_connection(self.failover_interval)
                 return
-            else:
-                raise ValueError('Unexpected socket errno: %d' % errno)
         self.event_loop.watch_file(self.sock.fileno(), self.handle)
 
     def disconnect(self, errno):
-- 
2.43.0


From ae5b226aa12cc452d34f4658433cd535dbb65c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 23/54] fix: failing start of a profiler does not block the
 background thread

---
 profiling/remote/background.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 09a341b..30bdd2a 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -49,8 +49,11 @@ class BackgroundProfiler(ProfilerWrapper):
         self.event.wait()
 
     def _signal_handler(self, signum, frame):
-        if self.profiler.is_running():
-            self.profiler.stop()
-        else:
-            self.profiler.start()
-        self.event.set()
+        try:
+            if self.profiler.is_running():
+                self.profiler.stop()
+            else:
+                self.profiler.start()
+        finally:
+            # don't leave the background thread waiting.
+            self.event.set()
-- 
2.43.0


From 624cfe26bc926a827fc547d8bbdb02a493f53ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 24/54] fix: all deferred calls run although one of them raises

---
 profiling/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index 5176b57..0de5b67 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -13,6 +13,8 @@ from collections import deque
 from contextlib import contextmanager
 import sys
 
+from six import reraise
+
 try:
     from profiling import speedup
 except ImportError:
@@ -154,9 +156,16 @@ def deferral():
     try:
         yield defer
     finally:
+        exc_info = None
         while deferred:
             f, a, k = deferred.pop()
-            f(*a, **k)
+            try:
+                f(*a, **k)
+            except:
+                # the others have to be called anyway.
+                exc_info = sys.exc_info()
+        if exc_info is not None:
+            reraise(*exc_info)
 
 
 if sys.version_info < (3, 3):
-- 
2.43.0


From f716c82e85b43dfe20291092b672104dec0f5e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 25/54] fix: timeit-profile repeats all lines of the statement

Only the first line was in the loop.
---
 profiling/__main__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 418a9b6..ebe8c87 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -15,6 +15,7 @@
 """
 from __future__ import absolute_import
 
+import ast
 from datetime import datetime
 from functools import partial, wraps
 import importlib
@@ -761,8 +762,9 @@ def timeit_profile(stmt, number, repeat, setup,
                 break
         dummy_profiler.stop()
         del dummy_profiler
-    code = compile('for _ in range(%d): %s' % (number, stmt),
-                   'STATEMENT', 'exec')
+    tree = ast.parse('for _ in range(%d): pass' % number)
+    tree.body[0].body = ast.parse(stmt).body or tree.body[0].body
+    code = compile(tree, 'STATEMENT', 'exec')
     __profile__(stmt, code, globals_, profiler_factory,
                 pickle_protocol=pickle_protocol, dump_filename=dump_filename,
                 mono=mono)
-- 
2.43.0


From 30d45580af67afafafe5ed4d0b79179563a02e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 26/54] fix: invalid endpoint or viewer source is a usage error

---
 profiling/__main__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index ebe8c87..2928fd1 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -343,8 +343,11 @@ class Endpoint(click.ParamType):
     """A parameter type for IP endpoint."""
 
     def convert(self, value, param, ctx):
-        host, port = value.split(':')
-        port = int(port)
+        try:
+            host, port = value.split(':')
+            port = int(port)
+        except ValueError:
+            self.fail('Endpoint required: %s' % value, param, ctx)
         return (host, port)
 
     def get_metavar(self, param):
@@ -362,7 +365,7 @@ class ViewerSource(click.ParamType):
         except OSError:
             try:
                 src_name = Endpoint().convert(value, param, ctx)
-            except ValueError:
+            except click.BadParameter:
                 pass
             else:
                 src_type = 'tcp'
@@ -373,7 +376,7 @@ class ViewerSource(click.ParamType):
             elif S_ISREG(mode):
                 src_type = 'dump'
         if not src_type:
-            raise ValueError('Dump file or socket address required.')
+            self.fail('Dump file or socket address required.', param, ctx)
         return (src_type, src_name)
 
     def get_metavar(self, param):
-- 
2.43.0


From 4ccd14c5de2d1b5ae03d208c0f9194b824e90c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 27/54] fix: profiled script can import the modules beside it

---
 profiling/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 2928fd1..8faf426 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -502,6 +502,8 @@ def profiler_arguments(f):
             except IndexError:
                 raise click.UsageError('Script not specified')
             script = Script().convert(script_filename, None, None)
+            # the script can import modules beside it.
+            sys.path.insert(0, os.path.dirname(script_filename))
         kwargs.update(script=script, argv=argv)
         return f(**kwargs)
     return wrapped
-- 
2.43.0


From b734f5e4e3eafdb362e92931f31a9b8865367e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 28/54] fix: tell functions of different files apart

Code objects compare equal when only their filenames differ, so the calls of
such functions were recorded as calls of one of them.
---
 profiling/stats.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index fb4effc..f69252c 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -195,6 +195,11 @@ class Statistics(with_metaclass(StatisticsMeta)):
                 ''.format(class_name, name_string, hits_string, time_string))
 
 
+def child_key(code):
+    """Codes of different files are equal if they are alike otherwise."""
+    return (code, getattr(code, 'co_filename', None))
+
+
 class RecordingStatistics(Statistics):
     """Recordig statistics measures execution time of a code."""
 
@@ -238,19 +243,19 @@ class RecordingStatistics(Statistics):
         return list(itervalues(self._children))
 
     def get_child(self, code):
-        return self._children[code]
+        return self._children[child_key(code)]
 
     def add_child(self, code, stats):
-        self._children[code] = stats
+        self._children[child_key(code)] = stats
 
     def remove_child(self, code):
-        del self._children[code]
+        del self._children[child_key(code)]
 
     def discard_child(self, code):
-        self._children.pop(code, None)
+        self._children.pop(child_key(code), None)
 
     def ensure_child(self, code, adding_stat_class=None):
-        stats = self._children.get(code)
+        stats = self._children.get(child_key(code))
         if stats is None:
             stat_class = adding_stat_class or type(self)
             stats = stat_class(code)
@@ -278,7 +283,7 @@ class RecordingStatistics(Statistics):
         return len(self._children)
 
     def __contains__(self, code):
-        return code in self._children
+        return child_key(code) in self._children
 
 
 class VoidRecordingStatistics(RecordingStatistics):
-- 
2.43.0


From d3d67905486fa44b849ed1671ca68b44e766de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 29/54] fix: hidden root of the viewer cannot be collapsed

---
 profiling/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index f9fc960..140d78c 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -344,6 +344,10 @@ class RootStatisticsWidget(StatisticsWidget):
     def get_mark(self):
         raise TypeError('Statistics widget has no mark')
 
+    def keypress(self, size, key):
+        # the root is not shown, so it must not be collapsed.
+        return key
+
     def update(self):
         pass
 
-- 
2.43.0


From 5dcdef9d51c493bf7cbaa7bd8a79490f2dfa9953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 30/54] fix: resuming a running context does not lose its time

---
 profiling/tracing/timers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index e2f8e96..6a605c0 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -53,7 +53,9 @@ class ContextualTimer(Timer):
     def resume(self, context=None):
         if context is None:
             context = self.detect_context()
-        paused_at, __ = self._contextual_times.get(context, (0, 0))
+        paused_at, resumed_at = self._contextual_times.get(context, (0, None))
+        if resumed_at is not None:  # running already
+            return
         self._contextual_times[context] = (paused_at, self.clock())
 
     def detect_context(self):
-- 
2.43.0


From 566361dd992a61a819fd5f18f603e321e19db464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 31/54] fix: greenlet timer forgets which greenlets were paused
 in an earlier run

It starts before the profile hook is set: a call that is recorded is not
measured partly before and partly after that.
---
 profiling/tracing/__init__.py | 5 +++--
 profiling/tracing/timers.py   | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index a3420ec..4003a55 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -145,10 +145,11 @@ class TracingProfiler(Profiler):
             self.overhead = 0.0
             self._recording = True
             defer(setattr, self, '_recording', False)
+            # no event is recorded before the timer starts or after it stops.
+            self.timer.start(self)
+            defer(self.timer.stop)
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
             threading.setprofile(self._profile)
             defer(threading.setprofile, None)
-            self.timer.start(self)
-            defer(self.timer.stop)
             yield
diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index 6a605c0..c22c4f0 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -90,6 +90,8 @@ class GreenletTimer(ContextualTimer):
         self.resume(id(target))
 
     def run(self, profiler):
+        # switches were not traced while it was not running.
+        self._contextual_times.clear()
         prev_trace = self.greenlet.settrace(self._trace)
         yield
         self.greenlet.settrace(prev_trace)
-- 
2.43.0


From 8c4e87ecb113f3aec44dfeefbbf990b0e1ec2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 32/54] fix: interval in the configuration can be fractional

---
 profiling/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 8faf426..f024d33 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -520,7 +520,7 @@ onetime_profiler_options = Params([
 live_profiler_options = Params([
     click.option(
         '-i', '--interval', type=float,
-        default=config_default('interval', remote.INTERVAL),
+        default=config_default('interval', float(remote.INTERVAL)),
         help='How often update result. (default: %.0f sec)' % remote.INTERVAL),
     click.option(
         '--spawn', type=click.Choice(spawn.modes),
-- 
2.43.0


From 0666f72f3e400183e27f644aa5ed201bbe3b7661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 33/54] fix: invalid values in the configuration are usage
 errors

---
 profiling/__main__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index f024d33..49706d6 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -142,6 +142,8 @@ def config_default(option, default=None, type=None, section=cli.name):
             return get_option(config, section, option)
         except (NoOptionError, NoSectionError):
             return default
+        except ValueError as exc:
+            raise click.BadParameter(str(exc), param_hint=option)
     return f
 
 
@@ -466,6 +468,8 @@ def profiler_options(f):
     @wraps(f)
     def wrapped(import_profiler_class, timer_class, sampler_class,
                 sampling_interval, **kwargs):
+        if import_profiler_class is None:
+            raise click.BadParameter('Unknown profiler', param_hint='profiler')
         profiler_class = import_profiler_class()
         assert issubclass(profiler_class, Profiler)
         if issubclass(profiler_class, TracingProfiler):
-- 
2.43.0


From 35da2ed6b1e3b00168d3d97cd68e67b09b40e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 34/54] fix: module run by -m does not see the globals of
 profiling

---
 profiling/__main__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 49706d6..c39e111 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -314,14 +314,15 @@ class Module(click.ParamType):
             mod_name, mod_spec, code = detail
         except ValueError:
             mod_name, loader, code, filename = detail
+            mod_spec = None
         else:
             loader = mod_spec.loader
             filename = mod_spec.origin
         # follow runpy's behavior.
         pkg_name = mod_name.rpartition('.')[0]
-        globals_ = sys.modules['__main__'].__dict__.copy()
-        globals_.update(__name__='__main__', __file__=filename,
-                        __loader__=loader, __package__=pkg_name)
+        globals_ = {'__name__': '__main__', '__file__': filename,
+                    '__loader__': loader, '__package__': pkg_name,
+                    '__spec__': mod_spec, '__doc__': None}
         return (filename, code, globals_)
 
     def get_metavar(self, param):
-- 
2.43.0


From b8aeacfd6c2d5552cf60d7e97ef93ce7458a0846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 35/54] fix: profiled script can import the modules beside it
 after it changed directory

---
 profiling/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index c39e111..ff2a90b 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -508,7 +508,7 @@ def profiler_arguments(f):
                 raise click.UsageError('Script not specified')
             script = Script().convert(script_filename, None, None)
             # the script can import modules beside it.
-            sys.path.insert(0, os.path.dirname(script_filename))
+            sys.path.insert(0, os.path.dirname(os.path.abspath(script_filename)))
         kwargs.update(script=script, argv=argv)
         return f(**kwargs)
     return wrapped
-- 
2.43.0


From 0f4a67c3678b29f5e34bbea0216c1be19c583b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 36/54] fix: timeit-profile leaves the names of the statement
 alone

---
 profiling/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index ff2a90b..b8f086a 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -19,6 +19,7 @@ import ast
 from datetime import datetime
 from functools import partial, wraps
 import importlib
+import itertools
 import os
 try:
     import cPickle as pickle
@@ -772,7 +773,9 @@ def timeit_profile(stmt, number, repeat, setup,
                 break
         dummy_profiler.stop()
         del dummy_profiler
-    tree = ast.parse('for _ in range(%d): pass' % number)
+    # names like those in timeit, not to replace names of the statement.
+    globals_['__it__'] = itertools.repeat(None, number)
+    tree = ast.parse('for __i__ in __it__: pass')
     tree.body[0].body = ast.parse(stmt).body or tree.body[0].body
     code = compile(tree, 'STATEMENT', 'exec')
     __profile__(stmt, code, globals_, profiler_factory,
-- 
2.43.0


From b2c57435ca1bad1c5a57a75430dc5ec774f836c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 37/54] fix: live-profile does not block the program which
 writes much to the standard error

---
 profiling/__main__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index b8f086a..535daef 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -30,6 +30,7 @@ import signal
 import socket
 from stat import S_ISREG, S_ISSOCK
 import sys
+import tempfile
 import threading
 import time
 import traceback
@@ -612,11 +613,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     filename, code, globals_ = script
     sys.argv[:] = [filename] + list(argv)
     parent_sock, child_sock = socket.socketpair()
-    stderr_r_fd, stderr_w_fd = os.pipe()
+    # a file never blocks the child, however much it writes.
+    stderr_file = tempfile.TemporaryFile('a+')
     pid = os.fork()
     if pid:
         # parent
-        os.close(stderr_w_fd)
         viewer, loop = make_viewer(mono)
         # loop.screen._term_output_file = open(os.devnull, 'w')
         title = get_title(filename)
@@ -638,7 +639,8 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
             os.kill(pid, signal.SIGTERM)
         exit_code = os.WEXITSTATUS(status)
         # print stderr of child.
-        with os.fdopen(stderr_r_fd, 'r') as f:
+        with stderr_file as f:
+            f.seek(0)
             child_stderr = f.read()
         if child_stderr:
             sys.stdout.flush()
@@ -647,13 +649,12 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         sys.exit(exit_code)
     else:
         # child
-        os.close(stderr_r_fd)
         # mute stdin, stdout.
         devnull = os.open(os.devnull, os.O_RDWR)
         for f in [sys.stdin, sys.stdout]:
             os.dup2(devnull, f.fileno())
         # redirect stderr to parent.
-        os.dup2(stderr_w_fd, sys.stderr.fileno())
+        os.dup2(stderr_file.fileno(), sys.stderr.fileno())
         frame = sys._getframe()
         profiler = profiler_factory(base_frame=frame, base_code=code)
         profiler_trigger = BackgroundProfiler(profiler, signum)
@@ -665,7 +666,6 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         try:
             exec_(code, globals_)
         finally:
-            os.close(stderr_w_fd)
             child_sock.shutdown(socket.SHUT_WR)
 
 
-- 
2.43.0


From 412d12382d782f6ebceb1cca35caf44b4e871265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 38/54] fix: a statistics which is being added meanwhile keeps
 its records

---
 profiling/stats.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index f69252c..5ee9c6f 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -255,14 +255,15 @@ class RecordingStatistics(Statistics):
         self._children.pop(child_key(code), None)
 
     def ensure_child(self, code, adding_stat_class=None):
-        stats = self._children.get(child_key(code))
+        key = child_key(code)
+        stats = self._children.get(key)
         if stats is None:
             stat_class = adding_stat_class or type(self)
-            stats = stat_class(code)
-            self.add_child(code, stats)
-        elif (isinstance(stats, VoidRecordingStatistics) and
-              adding_stat_class is not None and
-              not issubclass(adding_stat_class, VoidRecordingStatistics)):
+            # another thread or a signal handler may add it meanwhile.
+            stats = self._children.setdefault(key, stat_class(code))
+        if (isinstance(stats, VoidRecordingStatistics) and
+                adding_stat_class is not None and
+                not issubclass(adding_stat_class, VoidRecordingStatistics)):
             # the absent frame has been called or sampled also.  A void cannot
             # record it.
             void, stats = stats, adding_stat_class(code)
-- 
2.43.0


From 99c81d1c287a9cc3b3bf5a965e7e6f7ec861e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 39/54] fix: live viewer learns that the program died without
 its last words

---
 profiling/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 535daef..2b8d97d 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -618,6 +618,8 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     pid = os.fork()
     if pid:
         # parent
+        # otherwise no end of file arrives from a child which was killed.
+        child_sock.close()
         viewer, loop = make_viewer(mono)
         # loop.screen._term_output_file = open(os.devnull, 'w')
         title = get_title(filename)
-- 
2.43.0


From 2625eb5c93c00a55777c313c16c8a375d4b94806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 40/54] fix: live-profile keeps a viewer which is busy for a
 while

---
 profiling/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 2b8d97d..f06d07e 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -651,6 +651,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         sys.exit(exit_code)
     else:
         # child
+        parent_sock.close()
         # mute stdin, stdout.
         devnull = os.open(os.devnull, os.O_RDWR)
         for f in [sys.stdin, sys.stdout]:
@@ -663,6 +664,8 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         profiler_trigger.prepare()
         server_args = (interval, noop, pickle_protocol)
         server = SelectProfilingServer(None, profiler_trigger, *server_args)
+        # the only client is the viewer.  It cannot connect again.
+        server.send_timeout = None
         server.clients.add(child_sock)
         spawn(server.connected, child_sock)
         try:
-- 
2.43.0


From 8ad17faddf45c2394c74648d0daddde348ef0dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 41/54] fix: live-profile does not report success for a program
 killed by a signal

---
 profiling/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index f06d07e..a8f881d 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -639,7 +639,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         w_pid, status = os.waitpid(pid, os.WNOHANG)
         if w_pid == 0:
             os.kill(pid, signal.SIGTERM)
-        exit_code = os.WEXITSTATUS(status)
+        if os.WIFSIGNALED(status):
+            # like shells.
+            exit_code = 128 + os.WTERMSIG(status)
+        else:
+            exit_code = os.WEXITSTATUS(status)
         # print stderr of child.
         with stderr_file as f:
             f.seek(0)
-- 
2.43.0


From c16a621f4f9472fbd2ab2a105bbb92c9bb89d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 42/54] fix: receiving waits for the rest although the select
 server is imported

---
 profiling/remote/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 2a80730..fd9dbe0 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -20,7 +20,7 @@ try:
     import cPickle as pickle
 except ImportError:
     import pickle
-import select
+import select as select_
 import socket
 import struct
 
@@ -77,7 +77,7 @@ def recv(sock, size):
             if exc.errno not in (EAGAIN, EWOULDBLOCK, EINTR):
                 raise
             # a non-blocking socket has to wait for the rest.
-            select.select([sock], (), ())
+            select_.select([sock], (), ())
             continue
         if not chunk:
             raise socket.error(ECONNRESET, 'Connection closed')
-- 
2.43.0


From 7870cafd29e3bc80c28e8560a563a87c01b565c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 43/54] fix: live-profile passes on a standard error which is
 not text

---
 profiling/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index a8f881d..ea50a7e 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -614,7 +614,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     sys.argv[:] = [filename] + list(argv)
     parent_sock, child_sock = socket.socketpair()
     # a file never blocks the child, however much it writes.
-    stderr_file = tempfile.TemporaryFile('a+')
+    stderr_file = tempfile.TemporaryFile('ab+')
     pid = os.fork()
     if pid:
         # parent
@@ -650,7 +650,12 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
             child_stderr = f.read()
         if child_stderr:
             sys.stdout.flush()
-            sys.stderr.write(child_stderr)
+            sys.stderr.flush()
+            # it is not always text.
+            stderr = getattr(sys.stderr, 'buffer', sys.stderr)
+            if stderr is sys.stderr and not isinstance(child_stderr, str):
+                child_stderr = child_stderr.decode('utf-8', 'replace')
+            stderr.write(child_stderr)
         # exit with exit code of child.
         sys.exit(exit_code)
     else:
-- 
2.43.0


From 6931703ad6511d35c778118067860ce6b6fae80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 44/54] fix: left at a leaf goes to its own parent only

With a scrolled screen it went to the parent of the topmost row, and at a leaf
without a shown parent it collapsed another function.
---
 profiling/viewer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 140d78c..54bcc6a 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -459,6 +459,21 @@ class StatisticsListBox(urwid.TreeListBox):
         focus = self.get_focus()
         urwid.emit_signal(self, 'focus_changed', focus)
 
+    def move_focus_to_parent(self, size):
+        __, node = self.get_focus()
+        parent_node = node.get_parent()
+        if parent_node is None or parent_node.is_root():
+            return  # The root is not shown.
+        # keep the parent where it is, if it is on the screen.
+        middle, top, __ = self.calculate_visible(size)
+        offset = middle[0]
+        for __, node, rows in top[1]:
+            offset -= rows
+            if node is parent_node:
+                self.change_focus(size, parent_node, offset)
+                return
+        self.change_focus(size, parent_node)
+
 
 class StatisticsWalker(urwid.TreeWalker):
 
-- 
2.43.0


From 0e8c37e46663f42742286dafc48e6f5e96fa21c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 45/54] fix: the focused row is never below a collapsed row

After a recursive call was collapsed, a new result collapsed its callers of the
same function also, but the rows below them were still shown.
---
 profiling/viewer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 54bcc6a..dfcae7d 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -593,6 +593,19 @@ class StatisticsTable(urwid.WidgetWrap):
                 break
         return node
 
+    def unfold_above(self, node):
+        """Expands the rows above the given node to show it.  They can be
+        collapsed if a recursive call of the same function was collapsed.
+        """
+        hashes = self._expanded_stat_hashes
+        self._expanded_stat_hashes = hashes.copy()
+        parent_node = node.get_parent()
+        while parent_node is not None:
+            parent_node.get_widget().expand()
+            parent_node = parent_node.get_parent()
+        # the collapsed call is not to be expanded.
+        self._expanded_stat_hashes = hashes
+
     def get_stats(self):
         return self.stats
 
@@ -633,6 +646,7 @@ class StatisticsTable(urwid.WidgetWrap):
         node = StatisticsNode(stats, table=self)
         path = self.get_path()
         node = self.find_node(node, path)
+        self.unfold_above(node)
         self.set_focus(node)
 
     def update_frame(self, focus=None):
-- 
2.43.0


From 8d527a84b747bc2837250f63207e2480722314eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 46/54] fix: gevent server does not keep the lock of a
 disconnected client

A result which was being broadcast to it put the lock back.
---
 profiling/remote/gevent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/gevent.py b/profiling/remote/gevent.py
index 19ae653..0850e1e 100644
--- a/profiling/remote/gevent.py
+++ b/profiling/remote/gevent.py
@@ -13,7 +13,7 @@
 """
 from __future__ import absolute_import
 
-from errno import ETIMEDOUT
+from errno import EBADF, ETIMEDOUT
 import socket
 
 import gevent
@@ -58,6 +58,9 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
         self.profiling_greenlet = None
 
     def _send(self, sock, data):
+        if sock.closed:
+            # it has been disconnected while another client received.
+            raise socket.error(EBADF, 'Client disconnected')
         # a greeting may still be being sent when a result is broadcast.
         with self._send_locks.setdefault(sock, Semaphore()):
             timeout = gevent.Timeout(self.send_timeout)
-- 
2.43.0


From 19542a447b9a973ced398dd182d30dbef9bf25e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 47/54] fix: profiler wrappers dump and view the profiler they
 wrap

---
 profiling/profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index 97fccf0..b996ca5 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -130,7 +130,7 @@ class Profiler(Runnable):
 class ProfilerWrapper(Profiler):
 
     for attr in ['table_class', 'stats', 'top_frame', 'top_code', 'result',
-                 'is_running']:
+                 'dump', 'make_viewer', 'is_running']:
         f = lambda self, attr=attr: getattr(self.profiler, attr)
         locals()[attr] = property(f)
         del f
-- 
2.43.0


From bc3c947180d6f4305eab355f35a6150dbc4bfc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 48/54] fix: a malformed % in a configuration file is a usage
 error

---
 profiling/__main__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index ea50a7e..df4e2ee 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -39,7 +39,8 @@ import click
 from click_default_group import DefaultGroup
 from six import exec_
 from six.moves import builtins
-from six.moves.configparser import ConfigParser, NoOptionError, NoSectionError
+from six.moves.configparser import (
+    ConfigParser, InterpolationError, NoOptionError, NoSectionError)
 
 from profiling import remote, sampling, tracing
 from profiling.__about__ import __version__
@@ -144,7 +145,7 @@ def config_default(option, default=None, type=None, section=cli.name):
             return get_option(config, section, option)
         except (NoOptionError, NoSectionError):
             return default
-        except ValueError as exc:
+        except (ValueError, InterpolationError) as exc:
             raise click.BadParameter(str(exc), param_hint=option)
     return f
 
@@ -170,6 +171,8 @@ def config_flag(option, value, default=False, section=cli.name):
                 return get_option(config, section, option) == value
             except (NoOptionError, NoSectionError):
                 return default
+            except InterpolationError as exc:
+                raise click.BadParameter(str(exc), param_hint=option)
         __nonzero__ = __bool__
     return x()
 
-- 
2.43.0


From a66f07e62c4f49ac6f399f4ade828d7f1c4a02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 49/54] fix: an endpoint with an impossible port is a usage
 error

---
 profiling/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index df4e2ee..8e0fd44 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -354,6 +354,8 @@ class Endpoint(click.ParamType):
         try:
             host, port = value.split(':')
             port = int(port)
+            if not 0 <= port <= 0xffff:
+                raise ValueError('Port out of range')
         except ValueError:
             self.fail('Endpoint required: %s' % value, param, ctx)
         return (host, port)
-- 
2.43.0


From 88498ddcb2a80e872462041670fcdbe577888661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 50/54] fix: an impossible signal number is a usage error

---
 profiling/__main__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 8e0fd44..d9f531f 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -407,8 +407,14 @@ class SignalNumber(click.ParamType):
     def convert(self, value, param, ctx):
         if isinstance(value, int):
             return value
-        elif value.isdigit():
-            return int(value)
+        try:
+            signum = int(value)
+        except ValueError:
+            pass
+        else:
+            if not 0 < signum < signal.NSIG:
+                self.fail('Invalid signal number %d' % signum)
+            return signum
         signame = value.upper()
         if not signame.startswith('SIG'):
             signame = 'SIG' + signame
-- 
2.43.0


From f6bf15e9ea16bfeb04507451bf89442287eb4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 51/54] fix: a click at the mark of a row toggles it

---
 profiling/viewer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index dfcae7d..28f79e9 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -281,6 +281,10 @@ class StatisticsWidget(urwid.TreeWidget):
         node = self.get_node()
         return node.table.make_row(node)
 
+    def get_indent_cols(self):
+        # the root is not shown.
+        return self.get_node().get_depth() - 1
+
     def get_indented_widget(self):
         icon = self.get_mark()
         widget = self.get_inner_widget()
-- 
2.43.0


From bee836cb9585a4610ab723c96065cce080f5ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 52/54] fix: a failing start or stop in the background fails
 there

---
 profiling/remote/background.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 30bdd2a..476e743 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -13,8 +13,11 @@ from __future__ import absolute_import
 
 import os
 import signal
+import sys
 import threading
 
+from six import reraise
+
 from profiling.profiler import ProfilerWrapper
 
 
@@ -30,6 +33,7 @@ class BackgroundProfiler(ProfilerWrapper):
         if signum is not None:
             self.signum = signum
         self.event = threading.Event()
+        self.exc_info = None
 
     def prepare(self):
         """Registers :meth:`_signal_handler` as a signal handler to start
@@ -44,9 +48,13 @@ class BackgroundProfiler(ProfilerWrapper):
         self._send_signal()
 
     def _send_signal(self):
+        self.exc_info = None
         self.event.clear()
         os.kill(os.getpid(), self.signum)
         self.event.wait()
+        exc_info, self.exc_info = self.exc_info, None
+        if exc_info is not None:
+            reraise(*exc_info)
 
     def _signal_handler(self, signum, frame):
         try:
@@ -54,6 +62,9 @@ class BackgroundProfiler(ProfilerWrapper):
                 self.profiler.stop()
             else:
                 self.profiler.start()
+        except Exception:
+            # it is not a failure of the interrupted program.
+            self.exc_info = sys.exc_info()
         finally:
             # don't leave the background thread waiting.
             self.event.set()
-- 
2.43.0


From 86990012f56b18285369841a893f3dc321af17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 53/54] fix: the server survives a profiler which could not be
 started

---
 profiling/remote/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index fd9dbe0..dcbc061 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -200,7 +200,11 @@ class ProfilingServer(object):
             except RuntimeError:
                 pass
             yield
-            self.profiler.stop()
+            try:
+                self.profiler.stop()
+            except RuntimeError:
+                # it could not be started.
+                pass
             result = self.profiler.result()
             data = pack_msg(RESULT, result,
                             pickle_protocol=self.pickle_protocol)
-- 
2.43.0


From 9d3735443bd84e328c5e57c2cd2ae8e3b0d0e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:24 +0000
Subject: [PATCH 54/54] fix: gevent server logs the addresses of its clients

---
 profiling/remote/gevent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/profiling/remote/gevent.py b/profiling/remote/gevent.py
index 0850e1e..fb7b3b0 100644
--- a/profiling/remote/gevent.py
+++ b/profiling/remote/gevent.py
@@ -13,7 +13,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EBADF, ETIMEDOUT
+from errno import EBADF, ENOTCONN, ETIMEDOUT
 import socket
 
 import gevent
@@ -79,7 +79,13 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
         sock.close()
 
     def _addr(self, sock):
-        return sock.getsockname()
+        try:
+            return sock.getpeername()
+        except socket.error as exc:
+            if exc.errno == ENOTCONN:
+                return None
+            else:
+                raise
 
     def _start_profiling(self):
         self.profiling_greenlet = gevent.spawn(self.profile_periodically)
-- 
2.43.0

