From ad759dd943745a92fbd1dbd187a09d09a6863bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 01/32] fix: discard gauges and meters whose value is not a
 number

---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 425a0b9..7655c03 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -194,7 +194,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_gauge_metric(key, value)
 
@@ -210,7 +210,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_meter_metric(key, value)
 
-- 
2.43.0


From 40cbf947bfc774e15365558a009bc4c7daaa0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 02/32] fix: discard counters whose sample rate is zero or not
 a number

---
 txstatsd/server/processor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 7655c03..9ae43c4 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -32,7 +32,7 @@ from txstatsd.metrics.metermetric import MeterMetricReporter
 SPACES = re.compile("\s+")
 SLASHES = re.compile("\/+")
 NON_ALNUM = re.compile("[^a-zA-Z_\-0-9\.]")
-RATE = re.compile("^@([\d\.]+)")
+RATE = re.compile("^@([\d\.]+(?:[eE][-+]?\d+)?)$")
 
 
 def normalize_key(key):
@@ -177,7 +177,12 @@ class MessageProcessor(BaseMessageProcessor):
             match = RATE.match(composite[2])
             if match is None:
                 return self.fail(message)
-            rate = match.group(1)
+            try:
+                rate = float(match.group(1))
+            except ValueError:
+                return self.fail(message)
+            if rate == 0:
+                return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
 
-- 
2.43.0


From 3d8e8af0105d912be954584f8a4dd542aa4cb512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 03/32] fix: let a flush complete when a counter was set to inf
 or nan

---
 txstatsd/metrics/countermetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/countermetric.py b/txstatsd/metrics/countermetric.py
index fc7a72c..95ad716 100644
--- a/txstatsd/metrics/countermetric.py
+++ b/txstatsd/metrics/countermetric.py
@@ -84,5 +84,7 @@ class CounterMetricReporter(object):
         self.count = value
 
     def report(self, timestamp):
-        return [(self.prefix + self.name + ".count",
-                 math.trunc(self.count), timestamp)]
+        count = self.count
+        if not (math.isnan(count) or math.isinf(count)):
+            count = math.trunc(count)
+        return [(self.prefix + self.name + ".count", count, timestamp)]
-- 
2.43.0


From 022fa59322c96cb47a210dbce7511e5fa13b98bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 04/32] fix: list the metric names of a non-compliant server

---
 txstatsd/server/configurableprocessor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 85f8bb1..61e2388 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -55,6 +55,15 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.message_prefix = message_prefix
         self.gauge_metrics = {}
 
+    def get_metric_names(self):
+        """Return the names of all seen metrics."""
+        metrics = set()
+        for seen in (self.timer_metrics, self.counter_metrics,
+                     self.gauge_metrics, self.meter_metrics,
+                     self.plugin_metrics):
+            metrics.update(seen.keys())
+        return list(metrics)
+
     def get_message_prefix(self, kind):
         return self.message_prefix
 
-- 
2.43.0


From b8df78c23dbf4acf40e5b7e8e5e316ed8b9fd306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 05/32] fix: keep messages that arrive while a flush is drained

---
 txstatsd/server/configurableprocessor.py |  6 +++---
 txstatsd/server/processor.py             | 25 +++++++++++++-----------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 61e2388..f2f3d8e 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -103,16 +103,16 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.meter_metrics[key].mark(value)
 
     def flush_counter_metrics(self, interval, timestamp):
-        for metric in self.counter_metrics.itervalues():
+        for metric in self.counter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics.itervalues():
+        for metric in self.gauge_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_timer_metrics(self, percent, timestamp):
-        for metric in self.timer_metrics.itervalues():
+        for metric in self.timer_metrics.values():
             messages = metric.report(timestamp)
             yield messages
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 9ae43c4..3d4d6c0 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -292,7 +292,8 @@ class MessageProcessor(BaseMessageProcessor):
                 yield metric
 
     def flush_counter_metrics(self, interval, timestamp):
-        for key, count in self.counter_metrics.iteritems():
+        for key in self.counter_metrics.keys():
+            count = self.counter_metrics[key]
             self.counter_metrics[key] = 0
 
             value = count / interval
@@ -301,7 +302,8 @@ class MessageProcessor(BaseMessageProcessor):
 
     def flush_timer_metrics(self, percent, timestamp):
         threshold_value = ((100 - percent) / 100.0)
-        for key, timers in self.timer_metrics.iteritems():
+        for key in self.timer_metrics.keys():
+            timers = self.timer_metrics[key]
             count = len(timers)
             if count > 0:
                 self.timer_metrics[key] = []
@@ -329,19 +331,19 @@ class MessageProcessor(BaseMessageProcessor):
                              for item, value in items.iteritems())
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics:
+        for metric in list(self.gauge_metrics):
             value = metric[0]
             key = metric[1]
 
             yield ((self.gauge_prefix + key + ".value", value, timestamp),)
 
     def flush_meter_metrics(self, timestamp):
-        for metric in self.meter_metrics.itervalues():
+        for metric in self.meter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.itervalues():
+        for metric in self.plugin_metrics.values():
             messages = metric.flush(interval, timestamp)
             yield messages
 
@@ -349,6 +351,10 @@ class MessageProcessor(BaseMessageProcessor):
         yield ((self.internal_metrics_prefix + "numStats",
                 num_stats, timestamp),)
 
+        # Messages keep arriving while the summary is being drained.
+        process_timings, self.process_timings = self.process_timings, {}
+        by_type, self.by_type = self.by_type, {}
+
         self.last_flush_duration = 0
         for name, (value, duration) in per_metric.iteritems():
             yield ((self.internal_metrics_prefix +
@@ -362,16 +368,13 @@ class MessageProcessor(BaseMessageProcessor):
             self.last_flush_duration += duration
 
         self.last_process_duration = 0
-        for metric_type, duration in self.process_timings.iteritems():
+        for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
-                    metric_type, self.by_type[metric_type], timestamp),
+                    metric_type, by_type[metric_type], timestamp),
                    (self.internal_metrics_prefix +
                     "receive.%s.duration" %
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
-                    (self.by_type[metric_type], metric_type, duration))
+                    (by_type[metric_type], metric_type, duration))
             self.last_process_duration += duration
-
-        self.process_timings.clear()
-        self.by_type.clear()
-- 
2.43.0


From 1bb96ea0f89ec002eacfa050e325046221cbeec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 06/32] fix: redirect messages with the type set by the rules

---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 3d4d6c0..d4524c1 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -67,7 +67,7 @@ class BaseMessageProcessor(object):
         return self.process_message(message, metric_type, key, fields)
 
     def rebuild_message(self, metric_type, key, fields):
-        return key + ":" + "|".join(fields)
+        return key + ":" + "|".join([fields[0], metric_type] + fields[2:])
 
     def fail(self, message):
         """Log and discard malformed message."""
-- 
2.43.0


From 5d56f24439da3a5b368d5142a895941625ef90d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 07/32] fix: duplicate a message when the rewritten pattern
 occurs anywhere in its name

---
 txstatsd/server/router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 3cd7afb..ff2cc57 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -244,7 +244,7 @@ class Router(BaseMessageProcessor):
         rexp = re.compile(pattern)
 
         def rewrite_target(metric_type, key, fields):
-            if dup == "dup" and rexp.match(key) is not None:
+            if dup == "dup" and rexp.search(key) is not None:
                 yield metric_type, key, fields
             key = rexp.sub(repl, key)
             yield metric_type, key, fields
-- 
2.43.0


From f6dcfe86afcc9f821c8e757be987293061275c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 08/32] fix: resume a paused TCP redirect

---
 txstatsd/server/router.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index ff2cc57..2a774d5 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -140,9 +140,9 @@ class TCPRedirectProtocol(Protocol):
     def resumeProducing(self):
         """We can write to the transport again. Yay!."""
         time_now = int(time.time())
-        log("Resumed TCP redirect. "
-            "Dropped %s messages during %s seconds ",
-                self.dropped, time_now - self.last_paused)
+        log.msg("Resumed TCP redirect. "
+                "Dropped %s messages during %s seconds " %
+                (self.dropped, time_now - self.last_paused))
         self.paused = False
         self.dropped = 0
         self.last_paused = None
-- 
2.43.0


From f1f1d55e56023d93ccc17b157d81b0ae53c2957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 09/32] fix: never report a negative rate when a flush is dated
 before the last one

---
 txstatsd/metrics/metermetric.py | 5 +++--
 txstatsd/metrics/timermetric.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/txstatsd/metrics/metermetric.py b/txstatsd/metrics/metermetric.py
index 990943e..c43508a 100644
--- a/txstatsd/metrics/metermetric.py
+++ b/txstatsd/metrics/metermetric.py
@@ -85,11 +85,12 @@ class MeterMetricReporter(object):
         @type timestamp: C{float}
         @param timestamp: The timestamp for now.
         """
-        poll_prev, self.poll_time = self.poll_time, timestamp
+        poll_prev = self.poll_time
 
-        if self.poll_time == poll_prev:
+        if timestamp <= poll_prev:
             return list()
 
+        self.poll_time = timestamp
         rate = float(self.value) / (self.poll_time - poll_prev)
         self.count, self.value = self.count + self.value, 0
 
diff --git a/txstatsd/metrics/timermetric.py b/txstatsd/metrics/timermetric.py
index cfad2f0..6d2e950 100644
--- a/txstatsd/metrics/timermetric.py
+++ b/txstatsd/metrics/timermetric.py
@@ -86,7 +86,7 @@ class TimerMetricReporter(object):
     def rate(self, timestamp):
         """The number of values seen since last clear."""
         dt = (timestamp - self.last_time)
-        if dt == 0:
+        if dt <= 0:
             return 0
         return self.histogram.count / dt
 
-- 
2.43.0


From 267ef801f63a9f9ec6d5674d02e1145041e1eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 10/32] fix: build the histogram of a sample of equal values

---
 txstatsd/metrics/histogrammetric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 11cd1b1..a848d0e 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -183,7 +183,10 @@ class HistogramMetricReporter(object):
         value_range = max_value - min_value
 
         for value in values:
-            pos = int(((value - min_value) / value_range) * n_bins)
+            if value_range == 0:
+                pos = 0
+            else:
+                pos = int(((value - min_value) / value_range) * n_bins)
             if pos == n_bins:
                 pos -= 1
 
-- 
2.43.0


From 7ca8a9d5d16672e2f707f87ca2d37161f05b12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 11/32] fix: compute the variance of samples whose running mean
 is -1

---
 txstatsd/metrics/histogrammetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index a848d0e..b11cc5c 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -217,7 +217,7 @@ class HistogramMetricReporter(object):
     def update_variance(self, value):
         old_values = self.variance
         new_values = [0.0, 0.0]
-        if old_values[0] == -1:
+        if self.count == 1:
             new_values[0] = value
             new_values[1] = 0.0
         else:
-- 
2.43.0


From b4aac60d2201de19ac61fee6e1b9fe3616c69bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 12/32] fix: accept a random draw of zero in the decaying
 sample

---
 txstatsd/stats/exponentiallydecayingsample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/stats/exponentiallydecayingsample.py b/txstatsd/stats/exponentiallydecayingsample.py
index a02dca1..0048cea 100644
--- a/txstatsd/stats/exponentiallydecayingsample.py
+++ b/txstatsd/stats/exponentiallydecayingsample.py
@@ -83,7 +83,9 @@ class ExponentiallyDecayingSample(object):
         if now >= self.next_scale_time:
             self.rescale(now, self.next_scale_time)
 
-        priority = exp(self.alpha * (timestamp - self.start_time)) / random()
+        # random() may be zero, but is never one.
+        priority = (exp(self.alpha * (timestamp - self.start_time)) /
+                    (1.0 - random()))
         values = self._values
 
         if self.count < self.reservoir_size:
-- 
2.43.0


From 854c29f5a5377029628ce725e91a8caf3a9f16df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 13/32] fix: name every node in the preference list of a key

---
 txstatsd/hashing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index c823914..af29ae1 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -62,8 +62,7 @@ class ConsistentHashRing:
         position = self.compute_ring_position(key)
         search_entry = (position, None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
-        last_index = (index - 1) % len(self.ring)
-        while len(nodes) < len(self.nodes) and index != last_index:
+        while len(nodes) < len(self.nodes):
             next_entry = self.ring[index]
             (position, next_node) = next_entry
             if next_node not in nodes:
-- 
2.43.0


From 7112550712e35dddd0ba63c5747af31f48f1c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 14/32] fix: let short command-line options override the config
 file

---
 txstatsd/service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index db2e237..bcb4fad 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -100,7 +100,7 @@ class OptionsGlue(usage.Options):
                 opt = opt[2:]
             else:
                 opt = opt[1:]
-            self.overridden_options.append(opt)
+            self.overridden_options.append(self.synonyms.get(opt, opt))
 
         super(OptionsGlue, self).parseOptions(options=options)
 
-- 
2.43.0


From 6e87bc04057d897df78b6185ca73d17e0f98861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 15/32] fix: keep reporting counters after a key appears or a
 reading fails

---
 txstatsd/process.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index f51e4f0..950e5de 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -160,21 +160,15 @@ def report_counters(report_function, *args, **kwargs):
     Report difference between last value and current value for wrapped
     function.
     """
-    def generate():
-        last_value = None
-        while True:
-            result = {}
-            new_value = report_function(*args, **kwargs)
-            if last_value is None:
-                last_value = new_value
-            else:
-                for key, value in new_value.iteritems():
-                    result[key] = value - last_value[key]
-                last_value = new_value
-            yield result
-    generator = generate()
+    last_values = [{}]
     def report():
-        return generator.next()
+        result = {}
+        new_value = report_function(*args, **kwargs)
+        last_value, last_values[0] = last_values[0], new_value
+        for key, value in new_value.iteritems():
+            if key in last_value:
+                result[key] = value - last_value[key]
+        return result
     update_wrapper(report, report_function)
     return report
 
-- 
2.43.0


From 33d44ef3e805aafd50b5631a2ccc11dd1b0151f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 16/32] fix: discard plugin messages whose fields are not
 numbers

---
 txstatsd/server/processor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index d4524c1..3e8a6da 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -146,13 +146,17 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
-        if not key in self.plugin_metrics:
+        metric = self.plugin_metrics.get(key)
+        if metric is None:
             factory = self.plugins[metric_type]
             metric = factory.build_metric(
                 self.get_message_prefix(factory.name),
                 name=key, wall_time_func=self.time_function)
-            self.plugin_metrics[key] = metric
-        self.plugin_metrics[key].process(items)
+        try:
+            metric.process(items)
+        except (TypeError, ValueError):
+            return self.fail(message)
+        self.plugin_metrics[key] = metric
 
     def process_timer_metric(self, key, duration, message):
         try:
-- 
2.43.0


From f5c3a7d463496eaddc8e04afa143eaee8e1e5a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:54 +0000
Subject: [PATCH 17/32] fix: keep calling a failing function scheduled without
 report function

---
 txstatsd/report.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 6447108..883fbed 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -51,11 +51,7 @@ class ReportingService(Service):
         If C{report_function} is C{None}, it just calls the function without
         reporting the metrics.
         """
-        if report_function is not None:
-            call = self.wrapped(function, report_function)
-        else:
-            call = function
-        task = LoopingCall(call)
+        task = LoopingCall(self.wrapped(function, report_function))
         if self.clock is not None:
             task.clock = self.clock
         self.tasks.append((task, interval))
@@ -65,6 +61,8 @@ class ReportingService(Service):
     def wrapped(self, function, report_function):
         def report_metrics(metrics):
             """For each metric returned, call C{report_function} with it."""
+            if report_function is None:
+                return metrics
             for name, value in metrics.items():
                 if self.instance_name:
                     name = self.instance_name + "." + name
-- 
2.43.0


From 40f77a55e0ca1ccf43524552700ce0bc4ce09a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:26 +0000
Subject: [PATCH 18/32] fix: redirect rules without a service let the message
 go on

Processing any message raised TypeError, as the target returned True where
an iterable of messages is expected.
---
 txstatsd/server/router.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 2a774d5..017d851 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -260,7 +260,8 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_udp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            # Nowhere to send from: the message just goes on.
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
@@ -281,7 +282,8 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_tcp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            # Nowhere to send from: the message just goes on.
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
-- 
2.43.0


From 40b364b828a6785dad25d11e76a73cda845cbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 19/32] fix: tell each write callback the outcome once

A callback that itself raised TypeError or a socket error was called a
second time, with None.
---
 txstatsd/protocol.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index dfe1be2..255528d 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -104,11 +104,10 @@ class TransportGateway(object):
         """
         try:
             bytes_sent = self.transport.write(data, (self.host, self.port))
-            if callback is not None:
-                callback(bytes_sent)
         except (OverflowError, TypeError, socket.error, socket.gaierror):
-            if callback is not None:
-                callback(None)
+            bytes_sent = None
+        if callback is not None:
+            callback(bytes_sent)
 
 
 class TwistedStatsDClient(object):
-- 
2.43.0


From 3e9467bbbe1eb14b190eb5f93f68f0bfaf83278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:45 +0000
Subject: [PATCH 20/32] fix: send byte strings as they are

Encoding a byte string that is not plain ASCII raised UnicodeDecodeError,
or sent it encoded twice.
---
 txstatsd/metrics/metric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/metrics/metric.py b/txstatsd/metrics/metric.py
index 937a09c..0c5ef3d 100644
--- a/txstatsd/metrics/metric.py
+++ b/txstatsd/metrics/metric.py
@@ -64,4 +64,6 @@ class Metric(object):
     def write(self, data):
         """Message the C{data} to the C{StatsD} server."""
         if self.connection is not None:
-            self.connection.write(data.encode('utf-8'))
+            if not isinstance(data, bytes):
+                data = data.encode('utf-8')
+            self.connection.write(data)
-- 
2.43.0


From d851aa7a4175c4a96a677b8bb00d8ef0201dd83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 21/32] fix: send queued messages before the connect callback's

---
 txstatsd/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 255528d..105e30a 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -209,11 +209,12 @@ class TwistedStatsDClient(object):
         self.transport_gateway = TransportGateway(self.transport, self.reactor,
                                                   self.host, self.port)
 
+        # What was queued goes first: the callback may write messages too.
+        self._flush_items()
+
         if self.connect_callback is not None:
             self.connect_callback()
 
-        self._flush_items()
-
     def _flush_items(self):
         """Flush all items (data, callback) from the DataQueue to the
         TransportGateway."""
-- 
2.43.0


From 6a68905885c21ca8eb0877f33599ddd4e988c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 22/32] fix: refuse rules without a space before the numbers

---
 twisted/plugins/sli_plugin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/twisted/plugins/sli_plugin.py b/twisted/plugins/sli_plugin.py
index 0691545..0e4b0b7 100644
--- a/twisted/plugins/sli_plugin.py
+++ b/twisted/plugins/sli_plugin.py
@@ -62,7 +62,7 @@ class SLIMetricFactory(object):
             return
 
         rules = rules.strip()
-        regexp = "([\w\.\*\?\_\-]+) => (\w+) IF (\w+)(.*)"
+        regexp = "([\w\.\*\?\_\-]+) => (\w+) IF (\w+) (.*)"
         mo = re.compile(regexp)
         for line_no, rule in enumerate(rules.split("\n")):
 
@@ -72,7 +72,6 @@ class SLIMetricFactory(object):
                     % (regexp, line_no, rule))
 
             head, label, cname, cparams = result.groups()
-            cparams = cparams[1:]
 
             self.config.setdefault(head, {})
 
-- 
2.43.0


From 314bdb8e18b11c90846863a871bc48941509287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 23/32] fix: refuse metric as a condition of service-level
 rules

---
 twisted/plugins/sli_plugin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/twisted/plugins/sli_plugin.py b/twisted/plugins/sli_plugin.py
index 0e4b0b7..ef86959 100644
--- a/twisted/plugins/sli_plugin.py
+++ b/twisted/plugins/sli_plugin.py
@@ -76,7 +76,8 @@ class SLIMetricFactory(object):
             self.config.setdefault(head, {})
 
             method = getattr(self, "build_" + cname, None)
-            if method is None:
+            # build_metric does not build a condition.
+            if method is None or cname == "metric":
                 raise TypeError("cannot build condition: %s %s" % (
                     cname, cparams))
 
-- 
2.43.0


From 865d761c097337615872224e9a95cdad073a9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 24/32] fix: process every line of a TCP chunk and keep the
 connection

The delayed call returned by lineReceived made LineReceiver leave the rest of
the data unprocessed and the reactor close the connection.
---
 txstatsd/server/protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/protocol.py b/txstatsd/server/protocol.py
index f76bf21..0213915 100644
--- a/txstatsd/server/protocol.py
+++ b/txstatsd/server/protocol.py
@@ -67,7 +67,9 @@ class StatsDTCPServerProtocol(LineReceiver):
             # Send the expected response to the
             # monitoring agent.
             return self.transport.write(self.monitor_response)
-        return self.transport.reactor.callLater(
+        # Returning the call would make LineReceiver stop and the
+        # connection be closed.
+        self.transport.reactor.callLater(
             0, self.processor.process, data)
 
 
-- 
2.43.0


From d700af208e0d487ace3beaff65922a7fb03863dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 25/32] fix: keep the last durations in milliseconds

They are compared with the flush interval, which is in milliseconds, so that
the status page never reported an error.
---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 3e8a6da..9ab85d0 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -369,7 +369,7 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration
+            self.last_flush_duration += duration * 1000
 
         self.last_process_duration = 0
         for metric_type, duration in process_timings.iteritems():
@@ -381,4 +381,4 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration
+            self.last_process_duration += duration * 1000
-- 
2.43.0


From 9c505ff28db7a747c17ceec6304e9c61fd54c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:37 +0000
Subject: [PATCH 26/32] fix: connect to every carbon host, with or without a
 port and name

---
 txstatsd/service.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index bcb4fad..cd10bcf 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -302,10 +302,11 @@ def createService(options, reactor=None):
 
     if not options["carbon-cache-host"]:
         options["carbon-cache-host"].append("127.0.0.1")
-    if not options["carbon-cache-port"]:
-        options["carbon-cache-port"].append(2004)
-    if not options["carbon-cache-name"]:
-        options["carbon-cache-name"].append(None)
+    # Every host is a destination, with or without its own port and name.
+    for option, default in (("carbon-cache-port", 2004),
+                            ("carbon-cache-name", None)):
+        missing = len(options["carbon-cache-host"]) - len(options[option])
+        options[option].extend([default] * missing)
 
     reporting = ReportingService(instance_name)
     reporting.setServiceParent(root_service)
-- 
2.43.0


From 97cce9efaac12bfc45cbd7da102710b9f8dc0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:06 +0000
Subject: [PATCH 27/32] fix: report resident and virtual memory under their own
 names

---
 txstatsd/process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index 950e5de..9ffb2e5 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -110,7 +110,10 @@ class ProcessReport(object):
 
     def get_memory_and_cpu(self, prefix="proc"):
         """Report memory and CPU stats for C{process}."""
-        vsize, rss = self.process.memory_info()
+        info = self.process.memory_info()
+        # Go by name where there are names: psutil has rss first.
+        vsize = getattr(info, "vms", info[0])
+        rss = getattr(info, "rss", info[1])
         result = {prefix + ".cpu.percent": self.process.cpu_percent(),
                   prefix + ".memory.percent":
                     self.process.memory_percent(),
-- 
2.43.0


From 9ac6da2427493875454ebe059ec4dba13d27472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 28/32] fix: report each gauge once however many values it was
 given

---
 txstatsd/server/processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 9ab85d0..81cda56 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -335,6 +335,10 @@ class MessageProcessor(BaseMessageProcessor):
                              for item, value in items.iteritems())
 
     def flush_gauge_metrics(self, timestamp):
+        # Only the last value of each gauge counts.
+        last = dict((key, value) for value, key in self.gauge_metrics)
+        self.gauge_metrics = deque(
+            [value, key] for key, value in last.iteritems())
         for metric in list(self.gauge_metrics):
             value = metric[0]
             key = metric[1]
-- 
2.43.0


From ca08ade53bd8f54edbf4e52e068ea7836123aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:58 +0000
Subject: [PATCH 29/32] fix: keep the metrics of different plugins apart when
 they share a name

---
 txstatsd/server/processor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 81cda56..2cd6fa6 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -104,6 +104,7 @@ class MessageProcessor(BaseMessageProcessor):
 
         self.plugins = {}
         self.plugin_metrics = {}
+        self.plugin_metrics_by_type = {}
 
         if plugins is not None:
             for plugin in plugins:
@@ -146,7 +147,8 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
-        metric = self.plugin_metrics.get(key)
+        # Plugins do not share a metric, even if they share its name.
+        metric = self.plugin_metrics_by_type.get((metric_type, key))
         if metric is None:
             factory = self.plugins[metric_type]
             metric = factory.build_metric(
@@ -156,7 +158,8 @@ class MessageProcessor(BaseMessageProcessor):
             metric.process(items)
         except (TypeError, ValueError):
             return self.fail(message)
-        self.plugin_metrics[key] = metric
+        self.plugin_metrics_by_type[metric_type, key] = metric
+        self.plugin_metrics.setdefault(key, metric)
 
     def process_timer_metric(self, key, duration, message):
         try:
@@ -351,7 +354,11 @@ class MessageProcessor(BaseMessageProcessor):
             yield messages
 
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.values():
+        metrics = self.plugin_metrics.values()
+        metrics.extend(
+            metric for (_, key), metric in self.plugin_metrics_by_type.items()
+            if metric is not self.plugin_metrics[key])
+        for metric in metrics:
             messages = metric.flush(interval, timestamp)
             yield messages
 
-- 
2.43.0


From 1f8d22d719776c6c27df89b8e24d01f57601de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:58 +0000
Subject: [PATCH 30/32] fix: give up a redirect's first connection attempt when
 the service stops

---
 txstatsd/server/router.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 017d851..964bf9c 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -74,18 +74,21 @@ class TCPRedirectService(Service):
         self.host = host
         self.port = port
         self.factory = factory
+        self.connector = None
         if reactor is None:
             from twisted.internet import reactor
         self.reactor = reactor
 
     def startService(self):
-        self.reactor.connectTCP(self.host, self.port, self.factory)
+        self.connector = self.reactor.connectTCP(
+            self.host, self.port, self.factory)
         return Service.startService(self)
 
     def stopService(self):
         self.factory.stopTrying()
-        if self.factory.protocol:
-            self.factory.protocol.transport.loseConnection()
+        if self.connector:
+            # Whether it is established or still being attempted.
+            self.connector.disconnect()
         return Service.stopService(self)
 
 
-- 
2.43.0


From 6d9ac5d590359f6a10cd86efbe66aeb2bc929679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:58 +0000
Subject: [PATCH 31/32] fix: refuse a routing glob that would fail on every
 message

---
 txstatsd/server/router.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 964bf9c..9648e48 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -233,6 +233,9 @@ class Router(BaseMessageProcessor):
         return metric_type_condition
 
     def build_condition_path_like(self, pattern):
+        # Refuse a pattern that would fail on every message.
+        re.compile(fnmatch.translate(pattern))
+
         def path_like_condition(metric_type, key, fields):
             return fnmatch.fnmatch(key, pattern)
         return path_like_condition
-- 
2.43.0


From 254035301483cb4a9d5c67ca05aa94eb9dd82121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:58 +0000
Subject: [PATCH 32/32] fix: let messages go on when a rewriting cannot be
 applied to them

---
 txstatsd/server/router.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 9648e48..29a2ba5 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -250,10 +250,16 @@ class Router(BaseMessageProcessor):
         rexp = re.compile(pattern)
 
         def rewrite_target(metric_type, key, fields):
+            try:
+                rewritten = rexp.sub(repl, key)
+            except (re.error, IndexError), error:
+                # The replacement asks for a group there is not.
+                log.msg("Cannot rewrite %s: %s" % (key, error))
+                yield metric_type, key, fields
+                return
             if dup == "dup" and rexp.search(key) is not None:
                 yield metric_type, key, fields
-            key = rexp.sub(repl, key)
-            yield metric_type, key, fields
+            yield metric_type, rewritten, fields
 
         return rewrite_target
 
-- 
2.43.0

