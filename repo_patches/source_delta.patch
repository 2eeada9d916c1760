From 6728689666b37037be2ccafee040679c1bde36d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 01/73] fix: measure batch export duration with the monotonic
 clock

The batch span and log record processors subtract the duration of an export
call from the next wait. Measured with the wall clock, a backwards clock step
during the call made the next wait as long as the step, so records stayed
queued far beyond the schedule delay.
---
 .../opentelemetry/sdk/_logs/_internal/export/__init__.py    | 6 +++---
 .../src/opentelemetry/sdk/trace/export/__init__.py          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 434dc74..79b7123 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -21,7 +21,7 @@ import os
 import sys
 import threading
 from os import environ, linesep
-from time import time_ns
+from time import monotonic_ns
 from typing import IO, Callable, Deque, List, Optional, Sequence
 
 from opentelemetry.context import (
@@ -254,9 +254,9 @@ class BatchLogRecordProcessor(LogRecordProcessor):
                     if self._shutdown:
                         break
 
-            start_ns = time_ns()
+            start_ns = monotonic_ns()
             self._export(flush_request)
-            end_ns = time_ns()
+            end_ns = monotonic_ns()
             # subtract the duration of this export call to the next timeout
             timeout = self._schedule_delay_millis / 1e3 - (
                 (end_ns - start_ns) / 1e9
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 47d1769..ebea525 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -21,7 +21,7 @@ import threading
 import typing
 from enum import Enum
 from os import environ, linesep
-from time import time_ns
+from time import monotonic_ns
 
 from opentelemetry.context import (
     _SUPPRESS_INSTRUMENTATION_KEY,
@@ -266,9 +266,9 @@ class BatchSpanProcessor(SpanProcessor):
                         break
 
             # subtract the duration of this export call to the next timeout
-            start = time_ns()
+            start = monotonic_ns()
             self._export(flush_request)
-            end = time_ns()
+            end = monotonic_ns()
             duration = (end - start) / 1e9
             timeout = self.schedule_delay_millis / 1e3 - duration
 
-- 
2.43.0


From a3551a3220e1eda6fa1063cec42cf43008dc8bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 02/73] fix: forget pending flush requests of the parent in
 batch processors after fork

A thread inside force_flush at the instant of os.fork() can hold the lock of
the flush request's event. The child inherited the request, and its new
worker thread blocked for ever when it tried to set that event, so the child
never exported anything.
---
 .../src/opentelemetry/sdk/_logs/_internal/export/__init__.py   | 3 +++
 .../src/opentelemetry/sdk/trace/export/__init__.py             | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 79b7123..3f5cdfc 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -221,6 +221,9 @@ class BatchLogRecordProcessor(LogRecordProcessor):
 
     def _at_fork_reinit(self):
         self._condition = threading.Condition(threading.Lock())
+        # a pending request belongs to a thread of the parent process, which
+        # may have held the lock of its event at the time of the fork
+        self._flush_request = None
         self._queue.clear()
         self._worker_thread = threading.Thread(
             name="OtelBatchLogRecordProcessor",
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index ebea525..0a2a586 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -230,6 +230,9 @@ class BatchSpanProcessor(SpanProcessor):
 
     def _at_fork_reinit(self):
         self.condition = threading.Condition(threading.Lock())
+        # a pending request belongs to a thread of the parent process, which
+        # may have held the lock of its event at the time of the fork
+        self._flush_request = None
         self.queue.clear()
 
         # worker_thread is local to a process, only the thread that issued fork continues
-- 
2.43.0


From 8989188a020813928b6a837316bae55074ade53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 03/73] fix: read BoundedAttributes items and length under its
 lock

Overwriting a key deletes and re-inserts it; a concurrent reader of a live
span could miss an attribute that was set, or get a KeyError while copying.
---
 opentelemetry-api/src/opentelemetry/attributes/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/attributes/__init__.py b/opentelemetry-api/src/opentelemetry/attributes/__init__.py
index 4979529..0c4a835 100644
--- a/opentelemetry-api/src/opentelemetry/attributes/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/attributes/__init__.py
@@ -163,7 +163,8 @@ class BoundedAttributes(MutableMapping):  # type: ignore
         return f"{dict(self._dict)}"
 
     def __getitem__(self, key: str) -> types.AttributeValue:
-        return self._dict[key]
+        with self._lock:
+            return self._dict[key]
 
     def __setitem__(self, key: str, value: types.AttributeValue) -> None:
         if getattr(self, "_immutable", False):  # type: ignore
@@ -198,7 +199,8 @@ class BoundedAttributes(MutableMapping):  # type: ignore
             return iter(self._dict.copy())  # type: ignore
 
     def __len__(self) -> int:
-        return len(self._dict)
+        with self._lock:
+            return len(self._dict)
 
     def copy(self):  # type: ignore
         return self._dict.copy()  # type: ignore
-- 
2.43.0


From d21e1b3db19618d84d63a55a4195ad8c2c567381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 04/73] fix: use the monotonic clock for the force_flush
 deadline of multi processors

A wall-clock step during force_flush made it report failure although every
processor succeeded in time, or grant processors more than the time left.
---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py       | 6 +++---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 302ca1e..2c3a10a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -23,7 +23,7 @@ import traceback
 import warnings
 from os import environ
 from threading import Lock
-from time import time_ns
+from time import monotonic_ns, time_ns
 from typing import Any, Callable, Tuple, Union  # noqa
 
 from opentelemetry._logs import Logger as APILogger
@@ -341,9 +341,9 @@ class SynchronousMultiLogRecordProcessor(LogRecordProcessor):
             True if all the log processors flushes the logs within timeout,
             False otherwise.
         """
-        deadline_ns = time_ns() + timeout_millis * 1000000
+        deadline_ns = monotonic_ns() + timeout_millis * 1000000
         for lp in self._log_record_processors:
-            current_ts = time_ns()
+            current_ts = monotonic_ns()
             if current_ts >= deadline_ns:
                 return False
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 3ac4580..c5f110c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -22,7 +22,7 @@ import threading
 import traceback
 import typing
 from os import environ
-from time import time_ns
+from time import monotonic_ns, time_ns
 from types import MappingProxyType, TracebackType
 from typing import (
     Any,
@@ -193,9 +193,9 @@ class SynchronousMultiSpanProcessor(SpanProcessor):
             True if all span processors flushed their spans within the
             given timeout, False otherwise.
         """
-        deadline_ns = time_ns() + timeout_millis * 1000000
+        deadline_ns = monotonic_ns() + timeout_millis * 1000000
         for sp in self._span_processors:
-            current_time_ns = time_ns()
+            current_time_ns = monotonic_ns()
             if current_time_ns >= deadline_ns:
                 return False
 
-- 
2.43.0


From cdc8e0ee7130e8d6edd544695edb52547ad442ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 05/73] fix: offer and collect exemplars under the lock of the
 aggregation

Exemplar reservoirs are not thread safe: concurrent recording and collection
could raise ValueError from Counter.add and mix two measurements into one
exemplar.
---
 .../sdk/metrics/_internal/aggregation.py           | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 8443d95..32fb7da 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -133,7 +133,8 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
     ) -> None:
         """Offer the measurement to the exemplar reservoir for sampling.
 
-        It should be called within the each :ref:`aggregate` call.
+        It should be called within the each :ref:`aggregate` call, with the
+        lock of the aggregation held: reservoirs are not thread safe.
 
         Args:
             measurement: The new measurement
@@ -193,7 +194,7 @@ class _SumAggregation(_Aggregation[Sum]):
 
             self._value = self._value + measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -418,7 +419,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
         with self._lock:
             self._value = measurement.value
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -433,8 +434,7 @@ class _LastValueAggregation(_Aggregation[GaugePoint]):
                 return None
             value = self._value
             self._value = None
-
-        exemplars = self._collect_exemplars()
+            exemplars = self._collect_exemplars()
 
         return NumberDataPoint(
             attributes=self._attributes,
@@ -524,7 +524,7 @@ class _ExplicitBucketHistogramAggregation(_Aggregation[HistogramPoint]):
 
             self._value[bisect_left(self._boundaries, measurement_value)] += 1
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
@@ -819,7 +819,7 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             # in _ExplicitBucketHistogramAggregation.aggregate
             value.increment_bucket(bucket_index)
 
-        self._sample_exemplar(measurement, should_sample_exemplar)
+            self._sample_exemplar(measurement, should_sample_exemplar)
 
     def collect(
         self,
-- 
2.43.0


From f843b16b2178066867fe2fe90db079d2def62478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 06/73] fix: merge exponential buckets into a zero-only
 previous point

After a collection that contained only zeros, the cumulative exponential
histogram kept an empty bucket range at index 0; merging values further than
max_size buckets away raised 'Incorrect merge scale' from collect() and lost
the data.
---
 .../sdk/metrics/_internal/aggregation.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 32fb7da..d7e62f0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1145,16 +1145,19 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             if current_bucket == 0:
                 continue
 
-            # Not considering the case where len(previous_buckets) == 0. This
-            # would not happen because self._previous_point is only assigned to
-            # an ExponentialHistogramDataPoint object if self._count != 0.
-
             current_index = current_buckets.index_base + current_bucket_index
             if current_index > current_buckets.index_end:
                 current_index -= len(current_buckets.counts)
 
             index = current_index >> current_change
 
+            if len(previous_buckets) == 0:
+                # Nothing but zeros was collected before: the index range of
+                # the previous buckets is meaningless.
+                previous_buckets.index_start = index
+                previous_buckets.index_end = index
+                previous_buckets.index_base = index
+
             if index < previous_buckets.index_start:
                 span = previous_buckets.index_end - index
 
-- 
2.43.0


From ef2c4a754f3cf7c52f0204b3e4fd3c64a816e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 07/73] fix: keep metric points from starting after they end

An aggregation created while a collection was in progress got a start time
later than the time of the points that collection produced.
---
 .../sdk/metrics/_internal/_view_instrument_match.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index be81d70..3ff84d4 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -44,6 +44,8 @@ class _ViewInstrumentMatch:
         self._instrument = instrument
         self._attributes_aggregation: Dict[frozenset, _Aggregation] = {}
         self._lock = Lock()
+        # Start time of the most recently created aggregation
+        self._last_start_nanos = 0
         self._instrument_class_aggregation = instrument_class_aggregation
         self._name = self._view._name or self._instrument.name
         self._description = (
@@ -107,6 +109,7 @@ class _ViewInstrumentMatch:
         if aggr_key not in self._attributes_aggregation:
             with self._lock:
                 if aggr_key not in self._attributes_aggregation:
+                    start_nanos = time_ns()
                     if not isinstance(
                         self._view._aggregation, DefaultAggregation
                     ):
@@ -115,7 +118,7 @@ class _ViewInstrumentMatch:
                                 self._instrument,
                                 attributes,
                                 self._view._exemplar_reservoir_factory,
-                                time_ns(),
+                                start_nanos,
                             )
                         )
                     else:
@@ -125,9 +128,10 @@ class _ViewInstrumentMatch:
                             self._instrument,
                             attributes,
                             self._view._exemplar_reservoir_factory,
-                            time_ns(),
+                            start_nanos,
                         )
                     self._attributes_aggregation[aggr_key] = aggregation
+                    self._last_start_nanos = start_nanos
 
         self._attributes_aggregation[aggr_key].aggregate(
             measurement, should_sample_exemplar
@@ -140,6 +144,11 @@ class _ViewInstrumentMatch:
     ) -> Optional[Sequence[DataPointT]]:
         data_points: List[DataPointT] = []
         with self._lock:
+            # An aggregation may have been created after this collection
+            # began, and its points must not start after they end.
+            collection_start_nanos = max(
+                collection_start_nanos, self._last_start_nanos
+            )
             for aggregation in self._attributes_aggregation.values():
                 data_point = aggregation.collect(
                     collection_aggregation_temporality, collection_start_nanos
-- 
2.43.0


From 9abe195bddd6baf689f4e045b9c005f930d1e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 08/73] fix: let racing creators of one instrument share the
 instrument

---
 .../sdk/metrics/_internal/__init__.py         | 84 +++++++++++++------
 1 file changed, 57 insertions(+), 27 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index faa0959..370a8d3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -105,7 +105,9 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # The thread that registered it may still be creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[status.instrument_id]
 
         instrument = _Counter(
             name,
@@ -116,8 +118,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_up_down_counter(
         self, name, unit="", description=""
@@ -139,7 +142,9 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # The thread that registered it may still be creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[status.instrument_id]
 
         instrument = _UpDownCounter(
             name,
@@ -150,8 +155,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_observable_counter(
         self,
@@ -177,7 +183,9 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # The thread that registered it may still be creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[status.instrument_id]
 
         instrument = _ObservableCounter(
             name,
@@ -188,11 +196,15 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
     def create_histogram(
         self,
@@ -244,7 +256,9 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # The thread that registered it may still be creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[status.instrument_id]
 
         instrument = _Histogram(
             name,
@@ -255,8 +269,9 @@ class Meter(APIMeter):
             explicit_bucket_boundaries_advisory,
         )
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_gauge(self, name, unit="", description="") -> APIGauge:
         status = self._register_instrument(name, _Gauge, unit, description)
@@ -274,7 +289,9 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # The thread that registered it may still be creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[status.instrument_id]
 
         instrument = _Gauge(
             name,
@@ -285,8 +302,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_observable_gauge(
         self, name, callbacks=None, unit="", description=""
@@ -308,7 +326,9 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # The thread that registered it may still be creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[status.instrument_id]
 
         instrument = _ObservableGauge(
             name,
@@ -319,11 +339,15 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
     def create_observable_up_down_counter(
         self, name, callbacks=None, unit="", description=""
@@ -345,7 +369,9 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # The thread that registered it may still be creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[status.instrument_id]
 
         instrument = _ObservableUpDownCounter(
             name,
@@ -356,11 +382,15 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
 
 def _get_exemplar_filter(exemplar_filter: str) -> ExemplarFilter:
-- 
2.43.0


From 3194f858feee498ba1aef700d103a8f7135ffd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 09/73] fix: keep no observations of a collection that timed
 out

---
 .../sdk/metrics/_internal/instrument.py       | 16 ++++++----
 .../metrics/_internal/measurement_consumer.py | 29 ++++++++++++-------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index b01578f..dc32814 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -135,20 +135,24 @@ class _Asynchronous:
     def callback(
         self, callback_options: CallbackOptions
     ) -> Iterable[Measurement]:
+        measurements = []
         for callback in self._callbacks:
             try:
                 for api_measurement in callback(callback_options):
-                    yield Measurement(
-                        api_measurement.value,
-                        time_unix_nano=time_ns(),
-                        instrument=self,
-                        context=api_measurement.context or get_current(),
-                        attributes=api_measurement.attributes,
+                    measurements.append(
+                        Measurement(
+                            api_measurement.value,
+                            time_unix_nano=time_ns(),
+                            instrument=self,
+                            context=api_measurement.context or get_current(),
+                            attributes=api_measurement.attributes,
+                        )
                     )
             except Exception:  # pylint: disable=broad-exception-caught
                 _logger.exception(
                     "Callback failed for instrument %s.", self.name
                 )
+        return measurements
 
 
 class Counter(_Synchronous, APICounter):
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index c651033..bcf92b6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -113,6 +113,11 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
 
             default_timeout_ns = 10000 * 1e6
 
+            # Nothing is consumed before all callbacks were called: a
+            # collection that times out must not leave observations behind,
+            # they would be added to the ones of the next collection.
+            async_measurements = []
+
             for async_instrument in self._async_instruments:
                 remaining_time = deadline_ns - time_ns()
 
@@ -127,18 +132,20 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
                         "Timed out while executing callback"
                     )
 
-                for measurement in measurements:
-                    should_sample_exemplar = (
-                        self._sdk_config.exemplar_filter.should_sample(
-                            measurement.value,
-                            measurement.time_unix_nano,
-                            measurement.attributes,
-                            measurement.context,
-                        )
-                    )
-                    metric_reader_storage.consume_measurement(
-                        measurement, should_sample_exemplar
+                async_measurements.extend(measurements)
+
+            for measurement in async_measurements:
+                should_sample_exemplar = (
+                    self._sdk_config.exemplar_filter.should_sample(
+                        measurement.value,
+                        measurement.time_unix_nano,
+                        measurement.attributes,
+                        measurement.context,
                     )
+                )
+                metric_reader_storage.consume_measurement(
+                    measurement, should_sample_exemplar
+                )
 
             result = self._reader_storages[metric_reader].collect()
 
-- 
2.43.0


From 59a198c80f8f97dd962a35b2b7fc541ff245746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 10/73] fix: keep an unusable observation from failing the
 whole collection

---
 .../metrics/_internal/measurement_consumer.py | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index bcf92b6..1d9fab2 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -15,6 +15,7 @@
 # pylint: disable=unused-import
 
 from abc import ABC, abstractmethod
+from logging import getLogger
 from threading import Lock
 from time import time_ns
 from typing import Iterable, List, Mapping, Optional
@@ -31,6 +32,8 @@ from opentelemetry.sdk.metrics._internal.metric_reader_storage import (
 )
 from opentelemetry.sdk.metrics._internal.point import Metric
 
+_logger = getLogger(__name__)
+
 
 class MeasurementConsumer(ABC):
     @abstractmethod
@@ -135,17 +138,24 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
                 async_measurements.extend(measurements)
 
             for measurement in async_measurements:
-                should_sample_exemplar = (
-                    self._sdk_config.exemplar_filter.should_sample(
-                        measurement.value,
-                        measurement.time_unix_nano,
-                        measurement.attributes,
-                        measurement.context,
+                # pylint: disable=broad-exception-caught
+                try:
+                    should_sample_exemplar = (
+                        self._sdk_config.exemplar_filter.should_sample(
+                            measurement.value,
+                            measurement.time_unix_nano,
+                            measurement.attributes,
+                            measurement.context,
+                        )
+                    )
+                    metric_reader_storage.consume_measurement(
+                        measurement, should_sample_exemplar
+                    )
+                except Exception:
+                    _logger.exception(
+                        "Failed to record an observation of instrument %s.",
+                        measurement.instrument.name,
                     )
-                )
-                metric_reader_storage.consume_measurement(
-                    measurement, should_sample_exemplar
-                )
 
             result = self._reader_storages[metric_reader].collect()
 
-- 
2.43.0


From ca222d78997081983cb32cc71446427112a4bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 11/73] fix: use the monotonic clock for the deadline of a
 collection

---
 .../sdk/metrics/_internal/measurement_consumer.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index 1d9fab2..3d22c2a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -17,7 +17,7 @@
 from abc import ABC, abstractmethod
 from logging import getLogger
 from threading import Lock
-from time import time_ns
+from time import monotonic_ns
 from typing import Iterable, List, Mapping, Optional
 
 # This kind of import is needed to avoid Sphinx errors.
@@ -112,7 +112,7 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
             metric_reader_storage = self._reader_storages[metric_reader]
             # for now, just use the defaults
             callback_options = CallbackOptions()
-            deadline_ns = time_ns() + (timeout_millis * 1e6)
+            deadline_ns = monotonic_ns() + (timeout_millis * 1e6)
 
             default_timeout_ns = 10000 * 1e6
 
@@ -122,7 +122,7 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
             async_measurements = []
 
             for async_instrument in self._async_instruments:
-                remaining_time = deadline_ns - time_ns()
+                remaining_time = deadline_ns - monotonic_ns()
 
                 if remaining_time < default_timeout_ns:
                     callback_options = CallbackOptions(
@@ -130,7 +130,7 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
                     )
 
                 measurements = async_instrument.callback(callback_options)
-                if time_ns() >= deadline_ns:
+                if monotonic_ns() >= deadline_ns:
                     raise MetricsTimeoutError(
                         "Timed out while executing callback"
                     )
-- 
2.43.0


From 9e72a79c55057cf0439e7af4af39ea2b54230427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 12/73] fix: keep the periodic reader's thread alive when a
 collection raises

---
 .../sdk/metrics/_internal/export/__init__.py             | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 52c6833..9e266b4 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -528,6 +528,12 @@ class PeriodicExportingMetricReader(MetricReader):
                     interval_secs,
                     exc_info=True,
                 )
+            # pylint: disable=broad-exception-caught
+            except Exception:
+                _logger.exception(
+                    "Exception while collecting metrics. Will try again after %s seconds",
+                    interval_secs,
+                )
         # one last collection below before shutting down completely
         try:
             self.collect(timeout_millis=self._export_interval_millis)
@@ -536,6 +542,9 @@ class PeriodicExportingMetricReader(MetricReader):
                 "Metric collection timed out.",
                 exc_info=True,
             )
+        # pylint: disable=broad-exception-caught
+        except Exception:
+            _logger.exception("Exception while collecting metrics.")
 
     def _receive_metrics(
         self,
-- 
2.43.0


From 241afea19b0485b076099113a146d8279a0da6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 13/73] fix: export nothing from the periodic reader after its
 shutdown

---
 .../sdk/metrics/_internal/export/__init__.py          | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 9e266b4..e329d44 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -484,6 +484,7 @@ class PeriodicExportingMetricReader(MetricReader):
         self._export_interval_millis = export_interval_millis
         self._export_timeout_millis = export_timeout_millis
         self._shutdown = False
+        self._exporter_shutdown = False
         self._shutdown_event = Event()
         self._shutdown_once = Once()
         self._daemon_thread = None
@@ -556,12 +557,16 @@ class PeriodicExportingMetricReader(MetricReader):
         # pylint: disable=broad-exception-caught,invalid-name
         try:
             with self._export_lock:
+                if self._exporter_shutdown:
+                    _logger.warning("Exporter is shut down, dropping metrics")
+                    return
                 self._exporter.export(
                     metrics_data, timeout_millis=timeout_millis
                 )
         except Exception:
             _logger.exception("Exception while exporting metrics")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
         deadline_ns = time_ns() + timeout_millis * 10**6
@@ -577,9 +582,13 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
+        self._exporter_shutdown = True
         self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
+        if self._shutdown:
+            _logger.warning("Can't flush after shutdown")
+            return False
         super().force_flush(timeout_millis=timeout_millis)
         self._exporter.force_flush(timeout_millis=timeout_millis)
         return True
-- 
2.43.0


From 5be4912bef19e1b8f935ee2dd9f49c378bc41ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 14/73] fix: use the monotonic clock for metric shutdown and
 flush deadlines

---
 .../opentelemetry/sdk/metrics/_internal/__init__.py    | 10 +++++-----
 .../sdk/metrics/_internal/export/__init__.py           | 10 ++++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index 370a8d3..8890ed1 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -17,7 +17,7 @@ from atexit import register, unregister
 from logging import getLogger
 from os import environ
 from threading import Lock
-from time import time_ns
+from time import monotonic_ns
 from typing import Optional, Sequence
 
 # This kind of import is needed to avoid Sphinx errors.
@@ -494,12 +494,12 @@ class MeterProvider(APIMeterProvider):
             )
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
-        deadline_ns = time_ns() + timeout_millis * 10**6
+        deadline_ns = monotonic_ns() + timeout_millis * 10**6
 
         metric_reader_error = {}
 
         for metric_reader in self._sdk_config.metric_readers:
-            current_ts = time_ns()
+            current_ts = monotonic_ns()
             try:
                 if current_ts >= deadline_ns:
                     raise MetricsTimeoutError(
@@ -530,7 +530,7 @@ class MeterProvider(APIMeterProvider):
         return True
 
     def shutdown(self, timeout_millis: float = 30_000):
-        deadline_ns = time_ns() + timeout_millis * 10**6
+        deadline_ns = monotonic_ns() + timeout_millis * 10**6
 
         def _shutdown():
             self._shutdown = True
@@ -544,7 +544,7 @@ class MeterProvider(APIMeterProvider):
         metric_reader_error = {}
 
         for metric_reader in self._sdk_config.metric_readers:
-            current_ts = time_ns()
+            current_ts = monotonic_ns()
             try:
                 if current_ts >= deadline_ns:
                     # pylint: disable=broad-exception-raised
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index e329d44..45c179e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -22,7 +22,7 @@ from logging import getLogger
 from os import environ, linesep
 from sys import stdout
 from threading import Event, Lock, RLock, Thread
-from time import time_ns
+from time import monotonic_ns
 from typing import IO, Callable, Iterable, Optional
 
 from typing_extensions import final
@@ -569,7 +569,7 @@ class PeriodicExportingMetricReader(MetricReader):
             detach(token)
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
-        deadline_ns = time_ns() + timeout_millis * 10**6
+        deadline_ns = monotonic_ns() + timeout_millis * 10**6
 
         def _shutdown():
             self._shutdown = True
@@ -581,9 +581,11 @@ class PeriodicExportingMetricReader(MetricReader):
 
         self._shutdown_event.set()
         if self._daemon_thread:
-            self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
+            self._daemon_thread.join(
+                timeout=(deadline_ns - monotonic_ns()) / 10**9
+            )
         self._exporter_shutdown = True
-        self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
+        self._exporter.shutdown(timeout=(deadline_ns - monotonic_ns()) / 10**6)
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         if self._shutdown:
-- 
2.43.0


From d276e4755b1609f7dec5d0ad0e55a6b1bffecd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 15/73] fix: give the metric exporter the time left to shut
 down

---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 45c179e..edfe886 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -585,7 +585,9 @@ class PeriodicExportingMetricReader(MetricReader):
                 timeout=(deadline_ns - monotonic_ns()) / 10**9
             )
         self._exporter_shutdown = True
-        self._exporter.shutdown(timeout=(deadline_ns - monotonic_ns()) / 10**6)
+        self._exporter.shutdown(
+            timeout_millis=max(deadline_ns - monotonic_ns(), 0) / 10**6
+        )
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         if self._shutdown:
-- 
2.43.0


From fd80093af2ef9502546a152e40f1ceb5ede17587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 16/73] fix: give exemplars recorded outside of a span no span
 id

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 22d1ee9..c683570 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -114,6 +114,9 @@ class ExemplarBucket:
             span_context = span.get_span_context()
             self.__span_id = span_context.span_id
             self.__trace_id = span_context.trace_id
+        else:
+            self.__span_id = None
+            self.__trace_id = None
 
         self.__offered = True
 
-- 
2.43.0


From 6dfe63e351896b53559d6d77cb8347745c6d5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 17/73] fix: honour an explicit empty context of a measurement

---
 .../sdk/metrics/_internal/instrument.py            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index dc32814..3022f43 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -144,7 +144,11 @@ class _Asynchronous:
                             api_measurement.value,
                             time_unix_nano=time_ns(),
                             instrument=self,
-                            context=api_measurement.context or get_current(),
+                            context=(
+                                get_current()
+                                if api_measurement.context is None
+                                else api_measurement.context
+                            ),
                             attributes=api_measurement.attributes,
                         )
                     )
@@ -178,7 +182,7 @@ class Counter(_Synchronous, APICounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                get_current() if context is None else context,
                 attributes,
             )
         )
@@ -202,7 +206,7 @@ class UpDownCounter(_Synchronous, APIUpDownCounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                get_current() if context is None else context,
                 attributes,
             )
         )
@@ -270,7 +274,7 @@ class Histogram(_Synchronous, APIHistogram):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                get_current() if context is None else context,
                 attributes,
             )
         )
@@ -294,7 +298,7 @@ class Gauge(_Synchronous, APIGauge):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                get_current() if context is None else context,
                 attributes,
             )
         )
-- 
2.43.0


From aa676a6d3a48a7fbb84ecd9e2f5aa82e060489b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 18/73] fix: keep the scope attributes of meters obtained
 through a proxy

---
 .../metrics/_internal/__init__.py             | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 2319d8d..6aa3334 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -151,6 +151,18 @@ class NoOpMeterProvider(MeterProvider):
         return NoOpMeter(name, version=version, schema_url=schema_url)
 
 
+def _get_real_meter(
+    meter_provider: MeterProvider,
+    name: str,
+    version: Optional[str],
+    schema_url: Optional[str],
+    attributes: Optional[Attributes],
+) -> "Meter":
+    if attributes is None:
+        return meter_provider.get_meter(name, version, schema_url)
+    return meter_provider.get_meter(name, version, schema_url, attributes)
+
+
 class _ProxyMeterProvider(MeterProvider):
     def __init__(self) -> None:
         self._lock = Lock()
@@ -166,11 +178,20 @@ class _ProxyMeterProvider(MeterProvider):
     ) -> "Meter":
         with self._lock:
             if self._real_meter_provider is not None:
-                return self._real_meter_provider.get_meter(
-                    name, version, schema_url
+                return _get_real_meter(
+                    self._real_meter_provider,
+                    name,
+                    version,
+                    schema_url,
+                    attributes,
                 )
 
-            meter = _ProxyMeter(name, version=version, schema_url=schema_url)
+            meter = _ProxyMeter(
+                name,
+                version=version,
+                schema_url=schema_url,
+                attributes=attributes,
+            )
             self._meters.append(meter)
             return meter
 
@@ -505,8 +526,10 @@ class _ProxyMeter(Meter):
         name: str,
         version: Optional[str] = None,
         schema_url: Optional[str] = None,
+        attributes: Optional[Attributes] = None,
     ) -> None:
         super().__init__(name, version=version, schema_url=schema_url)
+        self._attributes = attributes
         self._lock = Lock()
         self._instruments: List[_ProxyInstrumentT] = []
         self._real_meter: Optional[Meter] = None
@@ -517,8 +540,12 @@ class _ProxyMeter(Meter):
         Creates a real backing meter for this instance and notifies all created
         instruments so they can create real backing instruments.
         """
-        real_meter = meter_provider.get_meter(
-            self._name, self._version, self._schema_url
+        real_meter = _get_real_meter(
+            meter_provider,
+            self._name,
+            self._version,
+            self._schema_url,
+            self._attributes,
         )
 
         with self._lock:
-- 
2.43.0


From b61c76c1593229bc061fa6f0945fa90d8e0bbee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:36 +0000
Subject: [PATCH 19/73] fix: release the gRPC exporter's lock only when
 shutdown acquired it

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 4be75c5..3a0596c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -357,10 +357,11 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring call")
             return
         # wait for the last export if any
-        self._export_lock.acquire(timeout=timeout_millis / 1e3)
+        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)
         self._shutdown = True
         self._channel.close()
-        self._export_lock.release()
+        if acquired:
+            self._export_lock.release()
 
     @property
     @abstractmethod
-- 
2.43.0


From 87d3569bb6243dceafd6b85b47b680e8216c308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 20/73] fix: send nothing on the channel a concurrent shutdown
 closed

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 3a0596c..d950789 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -294,6 +294,11 @@ class OTLPExporterMixin(
                 return self._result.FAILURE
 
             with self._export_lock:
+                # The exporter may have been shut down while this call was
+                # waiting for the lock
+                if self._shutdown:
+                    return self._result.FAILURE
+
                 try:
                     self._client.Export(
                         request=self._translate_data(data),
-- 
2.43.0


From 682d6e3e8d19f953fd5bbe15033f8db451291741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 21/73] fix: retry after a malformed or negative RetryInfo
 instead of raising

---
 .../exporter/otlp/proto/grpc/exporter.py      | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index d950789..1cb858e 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -35,6 +35,7 @@ from typing import Sequence as TypingSequence
 from urllib.parse import urlparse
 
 from deprecated import deprecated
+from google.protobuf.message import DecodeError
 from google.rpc.error_details_pb2 import RetryInfo
 
 from grpc import (
@@ -322,12 +323,19 @@ class OTLPExporterMixin(
                             "google.rpc.retryinfo-bin"
                         )
                         if retry_info_bin is not None:
-                            retry_info = RetryInfo()
-                            retry_info.ParseFromString(retry_info_bin)
-                            delay = (
-                                retry_info.retry_delay.seconds
-                                + retry_info.retry_delay.nanos / 1.0e9
-                            )
+                            try:
+                                retry_info = RetryInfo()
+                                retry_info.ParseFromString(retry_info_bin)
+                                delay = max(
+                                    retry_info.retry_delay.seconds
+                                    + retry_info.retry_delay.nanos / 1.0e9,
+                                    0,
+                                )
+                            except DecodeError:
+                                logger.warning(
+                                    "Ignoring malformed RetryInfo from %s",
+                                    self._endpoint,
+                                )
 
                         logger.warning(
                             (
-- 
2.43.0


From 8a4708204034ac388c4e0f21ec742a6005a23d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 22/73] fix: report failure when shutdown closes the channel
 under an export

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 1cb858e..ac92fa3 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -309,6 +309,13 @@ class OTLPExporterMixin(
 
                     return self._result.SUCCESS
 
+                except ValueError:
+                    # grpc refuses calls on a closed channel: shutdown timed
+                    # out waiting for this export and closed it
+                    if not self._shutdown:
+                        raise
+                    return self._result.FAILURE
+
                 except RpcError as error:
                     if error.code() in [
                         StatusCode.CANCELLED,
-- 
2.43.0


From 6e847d582a9c1e1bc2f3d0c680e8acd7a31a2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 23/73] fix: shut down the OTLP HTTP metric exporter

---
 .../otlp/proto/http/metric_exporter/__init__.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 00f429e..f3f345e 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -164,6 +164,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         self._common_configuration(
             preferred_temporality, preferred_aggregation
         )
+        self._shutdown = False
 
     def _export(self, serialized_data: bytes):
         data = serialized_data
@@ -197,6 +198,12 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         timeout_millis: float = 10_000,
         **kwargs,
     ) -> MetricExportResult:
+        # After the call to shutdown subsequent calls to export are
+        # not allowed and should return a Failure result.
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring batch")
+            return MetricExportResult.FAILURE
+
         serialized_data = encode_metrics(metrics_data)
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
@@ -226,7 +233,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         return MetricExportResult.FAILURE
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
-        pass
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring call")
+            return
+        self._session.close()
+        self._shutdown = True
 
     @property
     def _exporting(self) -> str:
-- 
2.43.0


From 3698bc99f1c3ee3ff68b6e275c327bb5437ea8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 24/73] fix: report failure when an OTLP HTTP request fails
 without an answer

---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py      | 6 +++++-
 .../exporter/otlp/proto/http/metric_exporter/__init__.py    | 6 +++++-
 .../exporter/otlp/proto/http/trace_exporter/__init__.py     | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 21b8773..34e39b0 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -164,7 +164,11 @@ class OTLPLogExporter(LogExporter):
             if delay == self._MAX_RETRY_TIMEOUT:
                 return LogExportResult.FAILURE
 
-            resp = self._export(serialized_data)
+            try:
+                resp = self._export(serialized_data)
+            except requests.exceptions.RequestException as error:
+                _logger.error("Failed to export batch: %s", error)
+                return LogExportResult.FAILURE
             # pylint: disable=no-else-return
             if resp.ok:
                 return LogExportResult.SUCCESS
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index f3f345e..d342ddc 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -211,7 +211,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
             if delay == self._MAX_RETRY_TIMEOUT:
                 return MetricExportResult.FAILURE
 
-            resp = self._export(serialized_data.SerializeToString())
+            try:
+                resp = self._export(serialized_data.SerializeToString())
+            except requests.exceptions.RequestException as error:
+                _logger.error("Failed to export batch: %s", error)
+                return MetricExportResult.FAILURE
             # pylint: disable=no-else-return
             if resp.ok:
                 return MetricExportResult.SUCCESS
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 7bcf4b4..d3de9a4 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -156,7 +156,11 @@ class OTLPSpanExporter(SpanExporter):
             if delay == self._MAX_RETRY_TIMEOUT:
                 return SpanExportResult.FAILURE
 
-            resp = self._export(serialized_data)
+            try:
+                resp = self._export(serialized_data)
+            except requests.exceptions.RequestException as error:
+                _logger.error("Failed to export batch: %s", error)
+                return SpanExportResult.FAILURE
             # pylint: disable=no-else-return
             if resp.ok:
                 return SpanExportResult.SUCCESS
-- 
2.43.0


From c61a4657f0f7fc65d05abd46270d4b339a2fa019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 25/73] fix: make every Prometheus scrape report only what it
 collected

---
 .../exporter/prometheus/__init__.py           | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 475cfb1..af28734 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -62,12 +62,12 @@ API
 ---
 """
 
-from collections import deque
 from itertools import chain
 from json import dumps
 from logging import getLogger
 from os import environ
-from typing import Deque, Dict, Iterable, Sequence, Tuple, Union
+from threading import local
+from typing import Dict, Iterable, Optional, Sequence, Tuple, Union
 
 from prometheus_client import start_http_server
 from prometheus_client.core import (
@@ -169,13 +169,15 @@ class _CustomCollector:
 
     def __init__(self, disable_target_info: bool = False):
         self._callback = None
-        self._metrics_datas: Deque[MetricsData] = deque()
+        # Each scrape runs in a thread of its own and only reports what it
+        # collected itself
+        self._local = local()
         self._disable_target_info = disable_target_info
         self._target_info = None
 
     def add_metrics_data(self, metrics_data: MetricsData) -> None:
         """Add metrics to Prometheus data"""
-        self._metrics_datas.append(metrics_data)
+        self._local.metrics_data = metrics_data
 
     def collect(self) -> Iterable[PrometheusMetric]:
         """Collect fetches the metrics from OpenTelemetry
@@ -184,15 +186,21 @@ class _CustomCollector:
         for example when the HTTP endpoint is invoked by Prometheus.
         """
         if self._callback is not None:
+            self._local.metrics_data = None
             self._callback()
 
+        metrics_data: Optional[MetricsData] = getattr(
+            self._local, "metrics_data", None
+        )
+        self._local.metrics_data = None
+
         metric_family_id_metric_family = {}
 
-        if len(self._metrics_datas):
+        if metrics_data is not None:
             if not self._disable_target_info:
                 if self._target_info is None:
                     attributes: Attributes = {}
-                    for res in self._metrics_datas[0].resource_metrics:
+                    for res in metrics_data.resource_metrics:
                         attributes = {**attributes, **res.resource.attributes}
 
                     self._target_info = self._create_info_metric(
@@ -202,13 +210,11 @@ class _CustomCollector:
                     self._target_info
                 )
 
-        while self._metrics_datas:
             self._translate_to_prometheus(
-                self._metrics_datas.popleft(), metric_family_id_metric_family
+                metrics_data, metric_family_id_metric_family
             )
 
-            if metric_family_id_metric_family:
-                yield from metric_family_id_metric_family.values()
+            yield from metric_family_id_metric_family.values()
 
     # pylint: disable=too-many-locals,too-many-branches
     def _translate_to_prometheus(
-- 
2.43.0


From eff24eb47ecc030484e8e647210e149bb48f3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 26/73] fix: do not wait for resource detectors that timed out

---
 .../src/opentelemetry/sdk/resources/__init__.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 752b906..c0064cb 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -511,7 +511,8 @@ def get_aggregated_resources(
     """
     detectors_merged_resource = initial_resource or Resource.create()
 
-    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as executor:
+    executor = concurrent.futures.ThreadPoolExecutor(max_workers=4)
+    try:
         futures = [executor.submit(detector.detect) for detector in detectors]
         for detector_ind, future in enumerate(futures):
             detector = detectors[detector_ind]
@@ -537,5 +538,8 @@ def get_aggregated_resources(
                 detectors_merged_resource = detectors_merged_resource.merge(
                     detected_resource
                 )
+    finally:
+        # Do not wait for detectors that took longer than their timeout
+        executor.shutdown(wait=False)
 
     return detectors_merged_resource
-- 
2.43.0


From 804eebee44bcd1c80aa909d692959f5e6e13b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 27/73] fix: run resource detectors in the order they were
 listed

---
 .../opentelemetry/sdk/resources/__init__.py   | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index c0064cb..513ffd5 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -189,15 +189,16 @@ class Resource:
         if not attributes:
             attributes = {}
 
-        otel_experimental_resource_detectors = {"otel"}.union(
-            {
-                otel_experimental_resource_detector.strip()
-                for otel_experimental_resource_detector in environ.get(
-                    OTEL_EXPERIMENTAL_RESOURCE_DETECTORS, ""
-                ).split(",")
-                if otel_experimental_resource_detector
-            }
-        )
+        # A later detector overrides an earlier one: keep the order they were
+        # listed in, attributes from the environment override all others.
+        otel_experimental_resource_detectors = {
+            otel_experimental_resource_detector.strip(): None
+            for otel_experimental_resource_detector in environ.get(
+                OTEL_EXPERIMENTAL_RESOURCE_DETECTORS, ""
+            ).split(",")
+            if otel_experimental_resource_detector
+        }
+        otel_experimental_resource_detectors.setdefault("otel")
 
         resource_detectors: List[ResourceDetector] = []
 
-- 
2.43.0


From e6c4d1afbfdf069ad761b0c25e0ddd6d1a1f87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 28/73] fix: run processors of the concurrent multi processors
 in place at interpreter exit

---
 .../sdk/_logs/_internal/__init__.py            | 18 ++++++++++++++++--
 .../src/opentelemetry/sdk/trace/__init__.py    | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 2c3a10a..e627057 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -381,6 +381,20 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         with self._lock:
             self._log_record_processors += (log_record_processor,)
 
+    def _submit(
+        self, func: Callable[..., Any], *args: Any, **kwargs: Any
+    ) -> concurrent.futures.Future:
+        try:
+            return self._executor.submit(func, *args, **kwargs)
+        except RuntimeError:
+            # The interpreter is exiting: the executor takes no more work
+            future = concurrent.futures.Future()
+            try:
+                future.set_result(func(*args, **kwargs))
+            except Exception as ex:  # pylint: disable=broad-exception-caught
+                future.set_exception(ex)
+            return future
+
     def _submit_and_wait(
         self,
         func: Callable[[LogRecordProcessor], Callable[..., None]],
@@ -389,7 +403,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
     ):
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(func(lp), *args, **kwargs)
+            future = self._submit(func(lp), *args, **kwargs)
             futures.append(future)
         for future in futures:
             future.result()
@@ -413,7 +427,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         """
         futures = []
         for lp in self._log_record_processors:
-            future = self._executor.submit(lp.force_flush, timeout_millis)
+            future = self._submit(lp.force_flush, timeout_millis)
             futures.append(future)
 
         done_futures, not_done_futures = concurrent.futures.wait(
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index c5f110c..50cda41 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -232,6 +232,20 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         with self._lock:
             self._span_processors += (span_processor,)
 
+    def _submit(
+        self, func: Callable[..., Any], *args: Any, **kwargs: Any
+    ) -> concurrent.futures.Future:
+        try:
+            return self._executor.submit(func, *args, **kwargs)
+        except RuntimeError:
+            # The interpreter is exiting: the executor takes no more work
+            future = concurrent.futures.Future()
+            try:
+                future.set_result(func(*args, **kwargs))
+            except Exception as ex:  # pylint: disable=broad-exception-caught
+                future.set_exception(ex)
+            return future
+
     def _submit_and_await(
         self,
         func: Callable[[SpanProcessor], Callable[..., None]],
@@ -240,7 +254,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
     ):
         futures = []
         for sp in self._span_processors:
-            future = self._executor.submit(func(sp), *args, **kwargs)
+            future = self._submit(func(sp), *args, **kwargs)
             futures.append(future)
         for future in futures:
             future.result()
@@ -274,7 +288,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         """
         futures = []
         for sp in self._span_processors:  # type: SpanProcessor
-            future = self._executor.submit(sp.force_flush, timeout_millis)
+            future = self._submit(sp.force_flush, timeout_millis)
             futures.append(future)
 
         timeout_sec = timeout_millis / 1e3
-- 
2.43.0


From 42ec20a667b1ed5a6a929adb07e0b60dc155d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 29/73] fix: shut down every processor even if the shutdown of
 another one raises

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py  | 10 +++++++++-
 .../src/opentelemetry/sdk/trace/__init__.py            | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index e627057..af2fd30 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -326,8 +326,15 @@ class SynchronousMultiLogRecordProcessor(LogRecordProcessor):
 
     def shutdown(self) -> None:
         """Shutdown the log processors one by one"""
+        error = None
         for lp in self._log_record_processors:
-            lp.shutdown()
+            try:
+                lp.shutdown()
+            except Exception as ex:  # pylint: disable=broad-exception-caught
+                # The other processors have to be shut down nevertheless
+                error = error or ex
+        if error is not None:
+            raise error
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
         """Force flush the log processors one by one
@@ -405,6 +412,7 @@ class ConcurrentMultiLogRecordProcessor(LogRecordProcessor):
         for lp in self._log_record_processors:
             future = self._submit(func(lp), *args, **kwargs)
             futures.append(future)
+        concurrent.futures.wait(futures)
         for future in futures:
             future.result()
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 50cda41..86c9deb 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -176,8 +176,15 @@ class SynchronousMultiSpanProcessor(SpanProcessor):
 
     def shutdown(self) -> None:
         """Sequentially shuts down all underlying span processors."""
+        error = None
         for sp in self._span_processors:
-            sp.shutdown()
+            try:
+                sp.shutdown()
+            except Exception as ex:  # pylint: disable=broad-exception-caught
+                # The other processors have to be shut down nevertheless
+                error = error or ex
+        if error is not None:
+            raise error
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
         """Sequentially calls force_flush on all underlying
@@ -256,6 +263,7 @@ class ConcurrentMultiSpanProcessor(SpanProcessor):
         for sp in self._span_processors:
             future = self._submit(func(sp), *args, **kwargs)
             futures.append(future)
+        concurrent.futures.wait(futures)
         for future in futures:
             future.result()
 
-- 
2.43.0


From cf97a1a51a7ed47586d73443077d22c17fef4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 30/73] fix: return the result of
 EventLoggerProvider.force_flush

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index ae16302..1180c7d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -86,4 +86,4 @@ class EventLoggerProvider(APIEventLoggerProvider):
         self._logger_provider.shutdown()
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
-        self._logger_provider.force_flush(timeout_millis)
+        return self._logger_provider.force_flush(timeout_millis)
-- 
2.43.0


From 05c1142ddf01f837632533c6aa851a38169488a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 31/73] fix: register the exit handler of a meter provider only
 once it owns its readers

---
 .../src/opentelemetry/sdk/metrics/_internal/__init__.py    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index 8890ed1..3484a32 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -471,9 +471,6 @@ class MeterProvider(APIMeterProvider):
         disabled = environ.get(OTEL_SDK_DISABLED, "")
         self._disabled = disabled.lower().strip() == "true"
 
-        if shutdown_on_exit:
-            self._atexit_handler = register(self.shutdown)
-
         self._meters = {}
         self._shutdown_once = Once()
         self._shutdown = False
@@ -493,6 +490,10 @@ class MeterProvider(APIMeterProvider):
                 self._measurement_consumer.collect
             )
 
+        # Only now that all readers belong to this provider
+        if shutdown_on_exit:
+            self._atexit_handler = register(self.shutdown)
+
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         deadline_ns = monotonic_ns() + timeout_millis * 10**6
 
-- 
2.43.0


From db796f29b69ad8d735f9654c1805003f47a7121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 32/73] fix: report a failed flush of a reader or metric
 exporter from force_flush

---
 .../opentelemetry/sdk/metrics/_internal/__init__.py | 13 +++++++++----
 .../sdk/metrics/_internal/export/__init__.py        |  6 ++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index 3484a32..cb59d1d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -498,6 +498,7 @@ class MeterProvider(APIMeterProvider):
         deadline_ns = monotonic_ns() + timeout_millis * 10**6
 
         metric_reader_error = {}
+        flushed = True
 
         for metric_reader in self._sdk_config.metric_readers:
             current_ts = monotonic_ns()
@@ -506,9 +507,13 @@ class MeterProvider(APIMeterProvider):
                     raise MetricsTimeoutError(
                         "Timed out while flushing metric readers"
                     )
-                metric_reader.force_flush(
-                    timeout_millis=(deadline_ns - current_ts) / 10**6
-                )
+                if (
+                    metric_reader.force_flush(
+                        timeout_millis=(deadline_ns - current_ts) / 10**6
+                    )
+                    is False
+                ):
+                    flushed = False
 
             # pylint: disable=broad-exception-caught
             except Exception as error:
@@ -528,7 +533,7 @@ class MeterProvider(APIMeterProvider):
                 "metric readers failed during collect:\n"
                 f"{metric_reader_error_string}"
             )
-        return True
+        return flushed
 
     def shutdown(self, timeout_millis: float = 30_000):
         deadline_ns = monotonic_ns() + timeout_millis * 10**6
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index edfe886..a459e37 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -594,5 +594,7 @@ class PeriodicExportingMetricReader(MetricReader):
             _logger.warning("Can't flush after shutdown")
             return False
         super().force_flush(timeout_millis=timeout_millis)
-        self._exporter.force_flush(timeout_millis=timeout_millis)
-        return True
+        return (
+            self._exporter.force_flush(timeout_millis=timeout_millis)
+            is not False
+        )
-- 
2.43.0


From cae2e471a9203ee1053d626f6839ad86c97412d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 33/73] fix: keep a record the LoggingHandler can't translate
 from raising into the application

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index af2fd30..0b1bea0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -578,7 +578,11 @@ class LoggingHandler(logging.Handler):
         """
         logger = get_logger(record.name, logger_provider=self._logger_provider)
         if not isinstance(logger, NoOpLogger):
-            logger.emit(self._translate(record))
+            # pylint: disable=broad-exception-caught
+            try:
+                logger.emit(self._translate(record))
+            except Exception:
+                self.handleError(record)
 
     def flush(self) -> None:
         """
-- 
2.43.0


From b73cdd61e37f2c35891774b107e1c86ce1a25e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 34/73] fix: keep simple log processors from exporting what
 their exporters log

---
 .../sdk/_logs/_internal/__init__.py           | 11 ++++++++++
 .../sdk/_logs/_internal/export/__init__.py    | 20 ++++++++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 0b1bea0..fa2fd30 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -37,6 +37,7 @@ from opentelemetry._logs import (
     std_to_otel,
 )
 from opentelemetry.attributes import BoundedAttributes
+from opentelemetry.context import create_key, get_value
 from opentelemetry.sdk.environment_variables import (
     OTEL_ATTRIBUTE_COUNT_LIMIT,
     OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT,
@@ -59,6 +60,9 @@ _logger = logging.getLogger(__name__)
 _DEFAULT_OTEL_ATTRIBUTE_COUNT_LIMIT = 128
 _ENV_VALUE_UNSET = ""
 
+# Set while a log record is exported by the thread that emitted it
+_EXPORTING_LOGS_KEY = create_key("exporting_logs")
+
 
 class LogDroppedAttributesWarning(UserWarning):
     """Custom warning to indicate dropped log attributes due to limits.
@@ -570,6 +574,13 @@ class LoggingHandler(logging.Handler):
             attributes=attributes,
         )
 
+    def handle(self, record: logging.LogRecord) -> bool:
+        # A record logged by an exporter that was called to export a record
+        # would be exported by the same exporter in turn, and so on.
+        if get_value(_EXPORTING_LOGS_KEY):
+            return False
+        return super().handle(record)
+
     def emit(self, record: logging.LogRecord) -> None:
         """
         Emit a record. Skip emitting if logger is NoOp.
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 3f5cdfc..b6765e0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -31,6 +31,7 @@ from opentelemetry.context import (
     set_value,
 )
 from opentelemetry.sdk._logs import LogData, LogRecord, LogRecordProcessor
+from opentelemetry.sdk._logs._internal import _EXPORTING_LOGS_KEY
 from opentelemetry.sdk.environment_variables import (
     OTEL_BLRP_EXPORT_TIMEOUT,
     OTEL_BLRP_MAX_EXPORT_BATCH_SIZE,
@@ -122,15 +123,24 @@ class SimpleLogRecordProcessor(LogRecordProcessor):
         self._shutdown = False
 
     def emit(self, log_data: LogData):
-        if self._shutdown:
-            _logger.warning("Processor is already shutdown, ignoring call")
-            return
-        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))
+        token = attach(
+            set_value(
+                _EXPORTING_LOGS_KEY,
+                True,
+                set_value(_SUPPRESS_INSTRUMENTATION_KEY, True),
+            )
+        )
         try:
+            if self._shutdown:
+                _logger.warning(
+                    "Processor is already shutdown, ignoring call"
+                )
+                return
             self._exporter.export((log_data,))
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Exception while exporting logs.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self):
         self._shutdown = True
-- 
2.43.0


From eee6da5ba8204b7360bc4484c960e67175896a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 35/73] fix: keep batch log processors from exporting what
 their exporters log

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py     | 6 +++---
 .../opentelemetry/sdk/_logs/_internal/export/__init__.py  | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index fa2fd30..08703fe 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -60,7 +60,7 @@ _logger = logging.getLogger(__name__)
 _DEFAULT_OTEL_ATTRIBUTE_COUNT_LIMIT = 128
 _ENV_VALUE_UNSET = ""
 
-# Set while a log record is exported by the thread that emitted it
+# Set in the thread that exports log records while it does so
 _EXPORTING_LOGS_KEY = create_key("exporting_logs")
 
 
@@ -575,8 +575,8 @@ class LoggingHandler(logging.Handler):
         )
 
     def handle(self, record: logging.LogRecord) -> bool:
-        # A record logged by an exporter that was called to export a record
-        # would be exported by the same exporter in turn, and so on.
+        # A record logged by an exporter that is exporting log records would
+        # be exported by the same exporter in turn, and so on.
         if get_value(_EXPORTING_LOGS_KEY):
             return False
         return super().handle(record)
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index b6765e0..66ee09c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -316,7 +316,13 @@ class BatchLogRecordProcessor(LogRecordProcessor):
             record = self._queue.pop()
             self._log_records[idx] = record
             idx += 1
-        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))
+        token = attach(
+            set_value(
+                _EXPORTING_LOGS_KEY,
+                True,
+                set_value(_SUPPRESS_INSTRUMENTATION_KEY, True),
+            )
+        )
         try:
             self._exporter.export(self._log_records[:idx])  # type: ignore
         except Exception:  # pylint: disable=broad-exception-caught
-- 
2.43.0


From 94e01f144c470b262c49af2273f44110c0c397a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 36/73] fix: keep log exporters from deadlocking shutdown by
 logging

---
 .../opentelemetry/sdk/_logs/_internal/__init__.py    |  6 +++---
 .../sdk/_logs/_internal/export/__init__.py           | 12 ++++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 08703fe..b2ad069 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -60,7 +60,7 @@ _logger = logging.getLogger(__name__)
 _DEFAULT_OTEL_ATTRIBUTE_COUNT_LIMIT = 128
 _ENV_VALUE_UNSET = ""
 
-# Set in the thread that exports log records while it does so
+# Set while a log processor calls its exporter
 _EXPORTING_LOGS_KEY = create_key("exporting_logs")
 
 
@@ -575,8 +575,8 @@ class LoggingHandler(logging.Handler):
         )
 
     def handle(self, record: logging.LogRecord) -> bool:
-        # A record logged by an exporter that is exporting log records would
-        # be exported by the same exporter in turn, and so on.
+        # A record logged by an exporter of log records would be exported by
+        # the same exporter in turn, and so on.
         if get_value(_EXPORTING_LOGS_KEY):
             return False
         return super().handle(record)
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 66ee09c..77ea89d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -144,7 +144,11 @@ class SimpleLogRecordProcessor(LogRecordProcessor):
 
     def shutdown(self):
         self._shutdown = True
-        self._exporter.shutdown()
+        token = attach(set_value(_EXPORTING_LOGS_KEY, True))
+        try:
+            self._exporter.shutdown()
+        finally:
+            detach(token)
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:  # pylint: disable=no-self-use
         return True
@@ -380,7 +384,11 @@ class BatchLogRecordProcessor(LogRecordProcessor):
         with self._condition:
             self._condition.notify_all()
         self._worker_thread.join()
-        self._exporter.shutdown()
+        token = attach(set_value(_EXPORTING_LOGS_KEY, True))
+        try:
+            self._exporter.shutdown()
+        finally:
+            detach(token)
 
     def force_flush(self, timeout_millis: Optional[int] = None) -> bool:
         if timeout_millis is None:
-- 
2.43.0


From 7cef781b1a5a0f430a3a5f8112674eecbcd036db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 37/73] fix: keep handlers that log about a record from waiting
 for each other

---
 .../sdk/_logs/_internal/__init__.py           | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index b2ad069..574a00e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -37,7 +37,13 @@ from opentelemetry._logs import (
     std_to_otel,
 )
 from opentelemetry.attributes import BoundedAttributes
-from opentelemetry.context import create_key, get_value
+from opentelemetry.context import (
+    attach,
+    create_key,
+    detach,
+    get_value,
+    set_value,
+)
 from opentelemetry.sdk.environment_variables import (
     OTEL_ATTRIBUTE_COUNT_LIMIT,
     OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT,
@@ -60,7 +66,7 @@ _logger = logging.getLogger(__name__)
 _DEFAULT_OTEL_ATTRIBUTE_COUNT_LIMIT = 128
 _ENV_VALUE_UNSET = ""
 
-# Set while a log processor calls its exporter
+# Set while a LoggingHandler emits a record or a log processor calls its exporter
 _EXPORTING_LOGS_KEY = create_key("exporting_logs")
 
 
@@ -575,8 +581,8 @@ class LoggingHandler(logging.Handler):
         )
 
     def handle(self, record: logging.LogRecord) -> bool:
-        # A record logged by an exporter of log records would be exported by
-        # the same exporter in turn, and so on.
+        # A record logged while emitting or exporting another one would be
+        # emitted and exported in the same way in turn, and so on.
         if get_value(_EXPORTING_LOGS_KEY):
             return False
         return super().handle(record)
@@ -589,11 +595,16 @@ class LoggingHandler(logging.Handler):
         """
         logger = get_logger(record.name, logger_provider=self._logger_provider)
         if not isinstance(logger, NoOpLogger):
+            # What is logged meanwhile must not wait for the lock of another
+            # LoggingHandler, which may be waiting for the lock of this one
+            token = attach(set_value(_EXPORTING_LOGS_KEY, True))
             # pylint: disable=broad-exception-caught
             try:
                 logger.emit(self._translate(record))
             except Exception:
                 self.handleError(record)
+            finally:
+                detach(token)
 
     def flush(self) -> None:
         """
-- 
2.43.0


From f336871206a49292e2c8ad5bf79b5bad3f1ca0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 38/73] fix: keep the active scope and explicit parents right
 in the OpenTracing shim

ScopeManagerShim.active returned the scope of an outer span, or None, after a
span was activated without the shim, and closing what it returned detached a
context it had not attached.  start_active_span ignored ignore_active_span and
references when a span was active.
---
 .../shim/opentracing_shim/__init__.py         | 46 +++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8f4935e..d49168a 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -360,7 +360,11 @@ class ScopeShim(Scope):
     ):
         super().__init__(manager, span)
         self._span_cm = span_cm
-        self._token = attach(set_value(_SHIM_KEY, self))
+        # A scope that did not activate its span only presents the span that
+        # is already active: it leaves the current context as it is.
+        self._token = (
+            attach(set_value(_SHIM_KEY, self)) if span_cm is not None else None
+        )
 
     # TODO: Change type of `manager` argument to `opentracing.ScopeManager`? We
     # need to get rid of `manager.tracer` for this.
@@ -429,7 +433,8 @@ class ScopeShim(Scope):
         exc_val: BaseException | None,
         exc_tb: TracebackType | None,
     ) -> None:
-        detach(self._token)
+        if self._token is not None:
+            detach(self._token)
         if self._span_cm is not None:
             self._span_cm.__exit__(exc_type, exc_val, exc_tb)
         else:
@@ -497,12 +502,15 @@ class ScopeManagerShim(ScopeManager):
         if span.get_span_context() == INVALID_SPAN_CONTEXT:
             return None
 
-        try:
-            return get_value(_SHIM_KEY)
-        except KeyError:
-            span_context = SpanContextShim(span.get_span_context())
-            wrapped_span = SpanShim(self._tracer, span_context, span)
-            return ScopeShim(self, span=wrapped_span)
+        # The scope kept in the context may be that of an outer span, or there
+        # may be none at all: spans are also activated without the shim.
+        scope = get_value(_SHIM_KEY)
+        if scope is not None and scope.span.unwrap() is span:
+            return scope
+
+        span_context = SpanContextShim(span.get_span_context())
+        wrapped_span = SpanShim(self._tracer, span_context, span)
+        return ScopeShim(self, span=wrapped_span)
 
     @property
     def tracer(self) -> "TracerShim":
@@ -594,14 +602,6 @@ class TracerShim(Tracer):
             :class:`ScopeManagerShim`.
         """
 
-        current_span = get_current_span()
-
-        if (
-            child_of is None
-            and current_span.get_span_context() is not INVALID_SPAN_CONTEXT
-        ):
-            child_of = SpanShim(None, None, current_span)
-
         span = self.start_span(
             operation_name=operation_name,
             child_of=child_of,
@@ -646,8 +646,14 @@ class TracerShim(Tracer):
             An already-started :class:`SpanShim` instance.
         """
 
+        valid_links = []
+        if references:
+            for ref in references:
+                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
+                    valid_links.append(Link(ref.referenced_context.unwrap()))
+
         # Use active span as parent when no explicit parent is specified.
-        if not ignore_active_span and not child_of:
+        if not ignore_active_span and not child_of and not valid_links:
             child_of = self.active_span
 
         # Use the specified parent or the active span if possible. Otherwise,
@@ -656,12 +662,6 @@ class TracerShim(Tracer):
         if isinstance(parent, OtelSpanContext):
             parent = NonRecordingSpan(parent)
 
-        valid_links = []
-        if references:
-            for ref in references:
-                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:
-                    valid_links.append(Link(ref.referenced_context.unwrap()))
-
         if valid_links and parent is None:
             parent = NonRecordingSpan(valid_links[0].context)
 
-- 
2.43.0


From 7134afb9ad24b0401e85619ffac39fc583ab5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 39/73] fix: detach the context in SimpleSpanProcessor.on_end
 even if the exporter raises a BaseException

---
 .../src/opentelemetry/sdk/trace/export/__init__.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 0a2a586..ac4ea4e 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -114,7 +114,8 @@ class SimpleSpanProcessor(SpanProcessor):
         # pylint: disable=broad-exception-caught
         except Exception:
             logger.exception("Exception while exporting Span.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self) -> None:
         self.span_exporter.shutdown()
-- 
2.43.0


From 3855023212cd0e6c6dd2095d9171782dd9b8af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 40/73] fix: copy measurement attributes instead of keeping the
 mapping of the caller

A caller that reused or changed its attributes mapping changed data points and
exemplars recorded earlier.
---
 .../sdk/metrics/_internal/_view_instrument_match.py        | 2 ++
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py   | 3 ++-
 .../src/opentelemetry/sdk/metrics/_internal/instrument.py  | 7 ++++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index 3ff84d4..ea09709 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -109,6 +109,8 @@ class _ViewInstrumentMatch:
         if aggr_key not in self._attributes_aggregation:
             with self._lock:
                 if aggr_key not in self._attributes_aggregation:
+                    # The caller may change its mapping later.
+                    attributes = dict(attributes)
                     start_nanos = time_ns()
                     if not isinstance(
                         self._view._aggregation, DefaultAggregation
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index c683570..ad8a361 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -108,7 +108,8 @@ class ExemplarBucket:
         """
         self.__value = value
         self.__time_unix_nano = time_unix_nano
-        self.__attributes = attributes
+        # The caller may change its mapping later.
+        self.__attributes = dict(attributes) if attributes else None
         span = trace.get_current_span(context)
         if span != INVALID_SPAN:
             span_context = span.get_span_context()
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index 3022f43..8dbd1b2 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -139,6 +139,11 @@ class _Asynchronous:
         for callback in self._callbacks:
             try:
                 for api_measurement in callback(callback_options):
+                    attributes = api_measurement.attributes
+                    if attributes is not None:
+                        # The callback may reuse one mapping for all of its
+                        # observations.
+                        attributes = dict(attributes)
                     measurements.append(
                         Measurement(
                             api_measurement.value,
@@ -149,7 +154,7 @@ class _Asynchronous:
                                 if api_measurement.context is None
                                 else api_measurement.context
                             ),
-                            attributes=api_measurement.attributes,
+                            attributes=attributes,
                         )
                     )
             except Exception:  # pylint: disable=broad-exception-caught
-- 
2.43.0


From 5b50ba3b4b6363e403e7e7aad706fa928ef61894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 41/73] fix: extract baggage into the root context when no
 context is given

That is what the propagator API documents and the other propagators do; it
used the current context.
---
 .../src/opentelemetry/baggage/propagation/__init__.py          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
index 49fb378..74476f4 100644
--- a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
@@ -18,7 +18,6 @@ from typing import Iterable, List, Mapping, Optional, Set
 from urllib.parse import quote_plus, unquote_plus
 
 from opentelemetry.baggage import _is_valid_pair, get_all, set_baggage
-from opentelemetry.context import get_current
 from opentelemetry.context.context import Context
 from opentelemetry.propagators import textmap
 from opentelemetry.util.re import _DELIMITER_PATTERN
@@ -47,7 +46,7 @@ class W3CBaggagePropagator(textmap.TextMapPropagator):
         """
 
         if context is None:
-            context = get_current()
+            context = Context()
 
         header = _extract_first_element(
             getter.get(carrier, self._BAGGAGE_HEADER_NAME)
-- 
2.43.0


From 2a03a222a49f8b8d692349b9429d3a8770da0f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 42/73] fix: propagate the context of the parent through
 NoOpTracer

Without an SDK, spans started below a remote parent lost it, which broke the
trace for everything downstream.
---
 .../src/opentelemetry/trace/__init__.py           | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/__init__.py b/opentelemetry-api/src/opentelemetry/trace/__init__.py
index 73087e9..43fc8fb 100644
--- a/opentelemetry-api/src/opentelemetry/trace/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/trace/__init__.py
@@ -469,7 +469,11 @@ class NoOpTracer(Tracer):
         record_exception: bool = True,
         set_status_on_exception: bool = True,
     ) -> "Span":
-        return INVALID_SPAN
+        # Without an SDK the context of the parent is still propagated.
+        parent_span = get_current_span(context)
+        if isinstance(parent_span, NonRecordingSpan):
+            return parent_span
+        return NonRecordingSpan(parent_span.get_span_context())
 
     @_agnosticcontextmanager
     def start_as_current_span(
@@ -484,7 +488,14 @@ class NoOpTracer(Tracer):
         set_status_on_exception: bool = True,
         end_on_exit: bool = True,
     ) -> Iterator["Span"]:
-        yield INVALID_SPAN
+        span = self.start_span(name, context)
+        if context is None:
+            yield span
+        else:
+            with use_span(
+                span, record_exception=False, set_status_on_exception=False
+            ) as span:
+                yield span
 
 
 @deprecated(version="1.9.0", reason="You should use NoOpTracer")  # type: ignore
-- 
2.43.0


From 8caa700e57e12d47b6fb821f2902c01e69c8f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 43/73] fix: ignore B3 headers of all-zero ids instead of
 replacing the active span

---
 .../src/opentelemetry/propagators/b3/__init__.py            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 1bbc361..9c34fb0 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -105,6 +105,12 @@ class B3MultiFormat(TextMapPropagator):
 
         trace_id = int(trace_id, 16)
         span_id = int(span_id, 16)
+        if (
+            trace_id == trace.INVALID_TRACE_ID
+            or span_id == trace.INVALID_SPAN_ID
+        ):
+            return context
+
         options = 0
         # The b3 spec provides no defined behavior for both sample and
         # flag values set. Since the setting of at least one implies
-- 
2.43.0


From b7c533087f7cbbd3bb9569896bc0d69ed695bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 44/73] fix: ignore Jaeger headers of invalid ids instead of
 replacing the active span

---
 .../propagators/jaeger/__init__.py            | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 6b6eb8f..a3b7b9e 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -53,21 +53,18 @@ class JaegerPropagator(TextMapPropagator):
         context = self._extract_baggage(getter, carrier, context)
 
         trace_id, span_id, flags = _parse_trace_id_header(header)
-        if (
-            trace_id == trace.INVALID_TRACE_ID
-            or span_id == trace.INVALID_SPAN_ID
-        ):
+        span_context = trace.SpanContext(
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
+        )
+        if not span_context.is_valid:
             return context
 
-        span = trace.NonRecordingSpan(
-            trace.SpanContext(
-                trace_id=trace_id,
-                span_id=span_id,
-                is_remote=True,
-                trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
-            )
+        return trace.set_span_in_context(
+            trace.NonRecordingSpan(span_context), context
         )
-        return trace.set_span_in_context(span, context)
 
     def inject(
         self,
-- 
2.43.0


From ce9b944f3e86dce8f8450e137c8781154a3810db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 45/73] fix: encode log records without trace context or
 severity

One such record made the OTLP encoder raise, which lost its whole batch.
---
 .../common/_internal/_log_encoder/__init__.py | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 9cd4484..aded2e4 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -38,28 +38,34 @@ def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
 
 
 def _encode_log(log_data: LogData) -> PB2LogRecord:
+    # trace_id, span_id, trace_flags and severity_number are optional: 0 or
+    # None stands for a record that was emitted without them.
     span_id = (
-        None
-        if log_data.log_record.span_id == 0
-        else _encode_span_id(log_data.log_record.span_id)
+        _encode_span_id(log_data.log_record.span_id)
+        if log_data.log_record.span_id
+        else None
     )
     trace_id = (
-        None
-        if log_data.log_record.trace_id == 0
-        else _encode_trace_id(log_data.log_record.trace_id)
+        _encode_trace_id(log_data.log_record.trace_id)
+        if log_data.log_record.trace_id
+        else None
     )
+    trace_flags = log_data.log_record.trace_flags
+    severity_number = log_data.log_record.severity_number
     body = log_data.log_record.body
     return PB2LogRecord(
         time_unix_nano=log_data.log_record.timestamp,
         observed_time_unix_nano=log_data.log_record.observed_timestamp,
         span_id=span_id,
         trace_id=trace_id,
-        flags=int(log_data.log_record.trace_flags),
+        flags=int(trace_flags) if trace_flags is not None else None,
         body=_encode_value(body, allow_null=True),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-        severity_number=log_data.log_record.severity_number.value,
+        severity_number=severity_number.value
+        if severity_number is not None
+        else None,
     )
 
 
-- 
2.43.0


From 566bd35ce3abdebb475a9491976a787d8b01e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 46/73] fix: encode the trace state of span links for OTLP

---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 388d229..3d14f51 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -159,6 +159,7 @@ def _encode_links(links: Sequence[Link]) -> Sequence[PB2SPan.Link]:
             encoded_link = PB2SPan.Link(
                 trace_id=_encode_trace_id(link.context.trace_id),
                 span_id=_encode_span_id(link.context.span_id),
+                trace_state=_encode_trace_state(link.context.trace_state),
                 attributes=_encode_attributes(link.attributes),
                 dropped_attributes_count=link.dropped_attributes,
                 flags=_span_flags(link.context),
-- 
2.43.0


From b105901a5eff619020841bedd8f499e88388a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 47/73] fix: export to Zipkin v1 without a tag length limit

The default max_tag_value_length of None made every export raise.
---
 .../src/opentelemetry/exporter/zipkin/json/v1/__init__.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
index c44a2dd..5014c21 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
@@ -27,7 +27,11 @@ class V1Encoder(Encoder):
     ) -> List[Dict]:
         binary_annotations = []
         for tag_key, tag_value in self._extract_tags_from_span(span).items():
-            if isinstance(tag_value, str) and self.max_tag_value_length > 0:
+            if (
+                isinstance(tag_value, str)
+                and self.max_tag_value_length is not None
+                and self.max_tag_value_length > 0
+            ):
                 tag_value = tag_value[: self.max_tag_value_length]
             binary_annotations.append(
                 {
-- 
2.43.0


From 2e479a2b6a10416f0852af9f789b1eae3e72d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 48/73] fix: count escapes in the length of Zipkin sequence
 tags

A sequence with elements that JSON escapes was cut off inside of an element.
---
 .../src/opentelemetry/exporter/zipkin/encoder/__init__.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
index bb90daa..0718e33 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
@@ -180,8 +180,8 @@ class Encoder(abc.ABC):
                 if tag_value_element is None:
                     running_string_length += 4  # null with no quotes
                 else:
-                    # + 2 accounts for string quotation marks
-                    running_string_length += len(tag_value_element) + 2
+                    # includes string quotation marks and escapes
+                    running_string_length += len(json.dumps(tag_value_element))
 
                 if tag_value_elements:
                     # accounts for ',' item separator
-- 
2.43.0


From 7262ec5f3722487811baddacf4612a3348c9c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 49/73] fix: copy exemplar attributes only when they are a
 mapping

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index ad8a361..749e4a1 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -109,7 +109,9 @@ class ExemplarBucket:
         self.__value = value
         self.__time_unix_nano = time_unix_nano
         # The caller may change its mapping later.
-        self.__attributes = dict(attributes) if attributes else None
+        self.__attributes = (
+            dict(attributes) if isinstance(attributes, Mapping) else attributes
+        )
         span = trace.get_current_span(context)
         if span != INVALID_SPAN:
             span_context = span.get_span_context()
-- 
2.43.0


From cabf0d0d5e292abc08b46e33e43440aade2205af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 50/73] fix: encode only trace states as the trace state of a
 span or link

---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 3d14f51..9a2c043 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -180,7 +180,7 @@ def _encode_status(status: Status) -> Optional[PB2Status]:
 
 def _encode_trace_state(trace_state: TraceState) -> Optional[str]:
     pb2_trace_state = None
-    if trace_state is not None:
+    if isinstance(trace_state, TraceState):
         pb2_trace_state = ",".join(
             [f"{key}={value}" for key, value in (trace_state.items())]
         )
-- 
2.43.0


From a20dd9496261c80d016e4dc38b98ac8df454d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 51/73] fix: encode any mapping as the trace state of a span or
 link

---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 9a2c043..dbedbce 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -14,7 +14,7 @@
 
 import logging
 from collections import defaultdict
-from typing import List, Optional, Sequence
+from typing import List, Mapping, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -180,7 +180,7 @@ def _encode_status(status: Status) -> Optional[PB2Status]:
 
 def _encode_trace_state(trace_state: TraceState) -> Optional[str]:
     pb2_trace_state = None
-    if isinstance(trace_state, TraceState):
+    if isinstance(trace_state, Mapping):
         pb2_trace_state = ",".join(
             [f"{key}={value}" for key, value in (trace_state.items())]
         )
-- 
2.43.0


From 7caacb3a1692731ce6a651641d70ada933f71ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 52/73] fix: keep encoded whitespace around the values of W3C
 baggage

---
 .../src/opentelemetry/baggage/propagation/__init__.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
index 74476f4..1ffccbf 100644
--- a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
@@ -92,8 +92,9 @@ class W3CBaggagePropagator(textmap.TextMapPropagator):
                 _logger.warning("Invalid baggage entry: `%s`", entry)
                 continue
 
-            name = unquote_plus(name).strip()
-            value = unquote_plus(value).strip()
+            # Only whitespace around the encoded name and value is optional.
+            name = unquote_plus(name.strip())
+            value = unquote_plus(value.strip())
 
             context = set_baggage(
                 name,
-- 
2.43.0


From 082c7006831187814885342916e236ec9eb7440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 53/73] fix: keep encoded whitespace and repeated prefixes in
 Jaeger baggage

---
 .../src/opentelemetry/propagators/jaeger/__init__.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index a3b7b9e..ddec3e5 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -118,8 +118,8 @@ class JaegerPropagator(TextMapPropagator):
         for key in baggage_keys:
             value = _extract_first_element(getter.get(carrier, key))
             context = baggage.set_baggage(
-                key.replace(self.BAGGAGE_PREFIX, ""),
-                urllib.parse.unquote(value).strip(),
+                key[len(self.BAGGAGE_PREFIX) :],
+                urllib.parse.unquote(value.strip()),
                 context=context,
             )
         return context
-- 
2.43.0


From 4ebbad43e62bbfc01a99caccfba54b1c584bfabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:39 +0000
Subject: [PATCH 54/73] fix: leave the links given to a span to the caller

A span replaced the attributes of the Link objects it was given, so a link
given to two spans changed what the first one, ended or not, had recorded.
---
 .../src/opentelemetry/sdk/trace/__init__.py     | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 86c9deb..30afc82 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -851,13 +851,18 @@ class Span(trace_api.Span, ReadableSpan):
         valid_links = []
         for link in links:
             if link and _is_valid_link(link.context, link.attributes):
-                # pylint: disable=protected-access
-                link._attributes = BoundedAttributes(
-                    self._limits.max_link_attributes,
-                    link.attributes,
-                    max_value_len=self._limits.max_attribute_length,
+                # The link belongs to the caller, who may give it to other
+                # spans as well.
+                valid_links.append(
+                    trace_api.Link(
+                        context=link.context,
+                        attributes=BoundedAttributes(
+                            self._limits.max_link_attributes,
+                            link.attributes,
+                            max_value_len=self._limits.max_attribute_length,
+                        ),
+                    )
                 )
-                valid_links.append(link)
 
         return BoundedList.from_seq(self._limits.max_links, valid_links)
 
-- 
2.43.0


From 53abec73eaff22d1b1d1f065a93ea9d0edfc5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 55/73] fix: fill the fixed size exemplar reservoir before
 replacing exemplars

The measurement that fills the last place could replace an earlier one, and a
reservoir of size n then held less than n of n measurements.
---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 749e4a1..e4b2a10 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -279,7 +279,7 @@ class SimpleFixedSizeExemplarReservoir(FixedSizeExemplarReservoirABC):
         context: Context,
     ) -> int:
         self._measurements_seen += 1
-        if self._measurements_seen < self._size:
+        if self._measurements_seen <= self._size:
             return self._measurements_seen - 1
 
         index = randrange(0, self._measurements_seen)
-- 
2.43.0


From adc7664edac93da50e4d92699a9e9d321d6a7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 56/73] fix: keep baggage items set concurrently on one
 OpenTracing span

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index d49168a..d1d4aa5 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -87,6 +87,7 @@ API
 from __future__ import annotations
 
 import logging
+from threading import Lock
 from types import TracebackType
 from typing import Type, TypeVar
 
@@ -163,6 +164,7 @@ class SpanContextShim(SpanContext):
         self._otel_context = otel_context
         # Context is being used here since it must be immutable.
         self._baggage = Context()
+        self._baggage_lock = Lock()
 
     def unwrap(self) -> OtelSpanContext:
         """Returns the wrapped :class:`opentelemetry.trace.SpanContext`
@@ -303,9 +305,10 @@ class SpanShim(Span):
             value: A tag value.
         """
         # pylint: disable=protected-access
-        self._context._baggage = set_baggage(
-            key, value, context=self._context._baggage
-        )
+        with self._context._baggage_lock:
+            self._context._baggage = set_baggage(
+                key, value, context=self._context._baggage
+            )
 
     def get_baggage_item(self, key: str) -> object | None:
         """Retrieves value of the baggage item with the given key.
-- 
2.43.0


From d87fe7144b9da9a51f888b1c92debb9741dbbf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:19 +0000
Subject: [PATCH 57/73] fix: record metric measurements that have list
 attribute values

---
 .../sdk/metrics/_internal/_view_instrument_match.py    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index ea09709..e26e5ca 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -104,7 +104,15 @@ class _ViewInstrumentMatch:
         else:
             attributes = {}
 
-        aggr_key = frozenset(attributes.items())
+        try:
+            aggr_key = frozenset(attributes.items())
+        except TypeError:
+            # A list is a valid attribute value, but cannot be hashed.
+            attributes = {
+                key: tuple(value) if isinstance(value, list) else value
+                for key, value in attributes.items()
+            }
+            aggr_key = frozenset(attributes.items())
 
         if aggr_key not in self._attributes_aggregation:
             with self._lock:
-- 
2.43.0


From 1348b40c31c94409d77270950a52a437a3cb9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 58/73] fix: let observable callbacks create instruments

---
 .../sdk/metrics/_internal/measurement_consumer.py      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index 3d22c2a..e2cfde6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -79,6 +79,9 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
         self._async_instruments: List[
             "opentelemetry.sdk.metrics._internal.instrument._Asynchronous"
         ] = []
+        # Not the lock that is held while callbacks are called: a callback may
+        # create instruments.
+        self._async_instruments_lock = Lock()
 
     def consume_measurement(self, measurement: Measurement) -> None:
         should_sample_exemplar = (
@@ -100,7 +103,7 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
             "opentelemetry.sdk.metrics._internal.instrument._Asynchronous"
         ),
     ) -> None:
-        with self._lock:
+        with self._async_instruments_lock:
             self._async_instruments.append(instrument)
 
     def collect(
@@ -121,7 +124,10 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
             # they would be added to the ones of the next collection.
             async_measurements = []
 
-            for async_instrument in self._async_instruments:
+            with self._async_instruments_lock:
+                async_instruments = list(self._async_instruments)
+
+            for async_instrument in async_instruments:
                 remaining_time = deadline_ns - monotonic_ns()
 
                 if remaining_time < default_timeout_ns:
-- 
2.43.0


From aa4a4ff8c484569fe509d654fe2eb609efe1a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 59/73] fix: histogram views keep the advice of the first
 instrument to themselves

ExplicitBucketHistogramAggregation is shared by every instrument its view (or
its reader) selects. It stored the boundaries the first one advised as its own,
so the others reported those too, and it failed on instruments without advice.
---
 .../sdk/metrics/_internal/aggregation.py             | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index d7e62f0..008c011 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1390,10 +1390,12 @@ class ExplicitBucketHistogramAggregation(Aggregation):
                 AggregationTemporality.CUMULATIVE
             )
 
-        if self._boundaries is None:
-            self._boundaries = (
-                instrument._advisory.explicit_bucket_boundaries
-                or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
+        # This object is shared by all the instruments its view matches: the
+        # advice of one of them must not become the boundaries of the others.
+        boundaries = self._boundaries
+        if boundaries is None and isinstance(instrument, Histogram):
+            boundaries = (
+                instrument._advisory.explicit_bucket_boundaries or None
             )
 
         return _ExplicitBucketHistogramAggregation(
@@ -1401,7 +1403,7 @@ class ExplicitBucketHistogramAggregation(Aggregation):
             instrument_aggregation_temporality,
             start_time_unix_nano,
             reservoir_factory(_ExplicitBucketHistogramAggregation),
-            self._boundaries,
+            boundaries,
             self._record_min_max,
         )
 
-- 
2.43.0


From 7e086ad18f88e123ee9b32101f8343409c3027f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 60/73] fix: views select instruments by name whatever its case

Instrument names are case-insensitive and kept in lower case, so a view for an
instrument created with capitals in its name never matched it.
---
 .../src/opentelemetry/sdk/metrics/_internal/view.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
index b3fa029..77b00d2 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/view.py
@@ -170,7 +170,8 @@ class View:
                 return False
 
         if self._instrument_name is not None:
-            if not fnmatch(instrument.name, self._instrument_name):
+            # Instrument names are case-insensitive, they are kept lower case.
+            if not fnmatch(instrument.name, self._instrument_name.lower()):
                 return False
 
         if self._instrument_unit is not None:
-- 
2.43.0


From 754734e152ccceb1e2d070742a5a6203a3c63237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 61/73] fix: exponential histogram views leave asynchronous
 instruments alone

As explicit bucket views already do: these aggregations ignore the totals that
asynchronous instruments observe, so all of their data was silently lost.
---
 .../sdk/metrics/_internal/metric_reader_storage.py         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
index f512181..c8e00fb 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/metric_reader_storage.py
@@ -29,6 +29,7 @@ from opentelemetry.sdk.metrics._internal._view_instrument_match import (
 from opentelemetry.sdk.metrics._internal.aggregation import (
     Aggregation,
     ExplicitBucketHistogramAggregation,
+    ExponentialBucketHistogramAggregation,
     _DropAggregation,
     _ExplicitBucketHistogramAggregation,
     _ExponentialBucketHistogramAggregation,
@@ -301,7 +302,11 @@ class MetricReaderStorage:
 
         # pylint: disable=protected-access
         if isinstance(instrument, Asynchronous) and isinstance(
-            view._aggregation, ExplicitBucketHistogramAggregation
+            view._aggregation,
+            (
+                ExplicitBucketHistogramAggregation,
+                ExponentialBucketHistogramAggregation,
+            ),
         ):
             _logger.warning(
                 "View %s and instrument %s will produce "
-- 
2.43.0


From 913eb33504d8fbc66eaa23b28e114a320dabe129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 62/73] fix: ignore a sampling ratio out of range in the
 environment

OTEL_TRACES_SAMPLER_ARG=1.5 (or nan) made creating a TracerProvider raise
ValueError, while other values that are no probability are ignored.
---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
index fb6990a..3877ebc 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
@@ -436,8 +436,12 @@ def _get_from_env_or_default() -> Sampler:
     if trace_sampler in ("traceidratio", "parentbased_traceidratio"):
         try:
             rate = float(os.getenv(OTEL_TRACES_SAMPLER_ARG))
+            if not 0.0 <= rate <= 1.0:
+                raise ValueError("Probability must be in range [0.0, 1.0].")
         except (ValueError, TypeError):
-            _logger.warning("Could not convert TRACES_SAMPLER_ARG to float.")
+            _logger.warning(
+                "Could not convert TRACES_SAMPLER_ARG to a probability."
+            )
             rate = 1.0
         return _KNOWN_SAMPLERS[trace_sampler](rate)
 
-- 
2.43.0


From c6e62b7ceb88a57e255e98b79f03e21c4b629365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 63/73] fix: accept the documented compression values in the
 OTLP gRPC exporters

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index ac92fa3..7c2e34a 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -84,7 +84,9 @@ ExportResultT = TypeVar("ExportResultT")
 
 _ENVIRON_TO_COMPRESSION = {
     None: None,
+    "none": Compression.NoCompression,
     "gzip": Compression.Gzip,
+    "deflate": Compression.Deflate,
 }
 
 
-- 
2.43.0


From 74df632bac2c8add27dc8ec9c38bdf216e6490a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 64/73] fix: zeros do not lower the scale of a cumulative
 exponential histogram

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 008c011..ee2e7d4 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -968,6 +968,12 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                 if scale is None and self._previous_scale is not None:
                     scale = self._previous_scale
 
+                # Zeros fit any scale: they must not cost resolution.
+                if count == zero_count:
+                    scale = self._previous_scale
+                elif self._previous_count == self._previous_zero_count:
+                    self._previous_scale = scale
+
                 min_scale = min(self._previous_scale, scale)
 
                 low_positive, high_positive = (
-- 
2.43.0


From 2da193a186a3c53f71bba23cdbc5e99ff8249c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 65/73] fix: exponential histograms ignore infinities and NaN

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index ee2e7d4..fbdc459 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -19,7 +19,7 @@ from bisect import bisect_left
 from enum import IntEnum
 from functools import partial
 from logging import getLogger
-from math import inf
+from math import inf, isfinite
 from threading import Lock
 from typing import (
     Callable,
@@ -713,6 +713,10 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
     ) -> None:
         # pylint: disable=too-many-branches,too-many-statements, too-many-locals
 
+        # No bucket covers infinities and NaN
+        if not isfinite(measurement.value):
+            return
+
         with self._lock:
             if self._value_positive is None:
                 self._value_positive = Buckets()
-- 
2.43.0


From 66729e714711058cde683996459646a92cfb91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:12 +0000
Subject: [PATCH 66/73] fix: exponential histogram buckets at boundaries
 survive a change of scale

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index fbdc459..d9c8359 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -789,7 +789,9 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                     self._mapping.scale - scale_change
                 )
 
-                index = self._mapping.map_to_index(measurement_value)
+                # Mapping the value again could give another bucket than the
+                # one the new scale was made for, when it is at a boundary
+                index >>= scale_change
 
             self._scale = self._mapping.scale
 
-- 
2.43.0


From 45931f4a7c704595098b355c056e2b20164d4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 67/73] fix: OpenCensus message events keep their time in every
 time zone

---
 .../src/opentelemetry/shim/opencensus/_shim_span.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
index 2012035..450af3f 100644
--- a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
+++ b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 import logging
-from datetime import datetime
+from datetime import datetime, timezone
 from typing import TYPE_CHECKING
 
 import wrapt
@@ -53,9 +53,11 @@ def _opencensus_time_to_nanos(timestamp: str) -> int:
     # https://github.com/census-instrumentation/opencensus-python/blob/c38c71b9285e71de94d0185ff3c5bf65ee163345/opencensus/common/utils/__init__.py#L76
     #
     # datetime.fromisoformat() does not work with the added "Z" until python 3.11
-    seconds_float = datetime.strptime(
-        timestamp, "%Y-%m-%dT%H:%M:%S.%fZ"
-    ).timestamp()
+    seconds_float = (
+        datetime.strptime(timestamp, "%Y-%m-%dT%H:%M:%S.%fZ")
+        .replace(tzinfo=timezone.utc)
+        .timestamp()
+    )
     return round(seconds_float * 1e9)
 
 
-- 
2.43.0


From d1931fb9ee68e49da3cdafa445008c801f8acaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 68/73] fix: OpenCensus exporter accepts a global provider
 without a service name

---
 .../exporter/opencensus/trace_exporter/__init__.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py
index 0b79bbb..04b5963 100644
--- a/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py
@@ -53,7 +53,7 @@ class OpenCensusSpanExporter(SpanExporter):
     ):
         tracer_provider = trace.get_tracer_provider()
         service_name = (
-            tracer_provider.resource.attributes[SERVICE_NAME]
+            tracer_provider.resource.attributes.get(SERVICE_NAME)
             if getattr(tracer_provider, "resource", None)
             else Resource.create().attributes.get(SERVICE_NAME)
         )
-- 
2.43.0


From 7f261f2ecaa90be5aca1626478c490ee720d305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:43 +0000
Subject: [PATCH 69/73] fix: a span processor with nothing to flush does not
 fail force_flush

---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 30afc82..3dbbe35 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -137,6 +137,7 @@ class SpanProcessor:
         Returns:
             False if the timeout is exceeded, True otherwise.
         """
+        return True
 
 
 # Temporary fix until https://github.com/PyCQA/pylint/issues/4098 is resolved
-- 
2.43.0


From 2668e874ce294d62c9d288e0fe06c4cfcaebbf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:35 +0000
Subject: [PATCH 70/73] fix: log records without a timestamp can be printed

LogRecord.to_json formatted a missing timestamp as if there were one, so
the ConsoleLogExporter raised for every record emitted without one and
lost it with the rest of its batch.
---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 574a00e..ddf64b6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -240,7 +240,11 @@ class LogRecord(APILogRecord):
                     dict(self.attributes) if bool(self.attributes) else None
                 ),
                 "dropped_attributes": self.dropped_attributes,
-                "timestamp": ns_to_iso_str(self.timestamp),
+                "timestamp": (
+                    ns_to_iso_str(self.timestamp)
+                    if self.timestamp is not None
+                    else None
+                ),
                 "observed_timestamp": ns_to_iso_str(self.observed_timestamp),
                 "trace_id": (
                     f"0x{format_trace_id(self.trace_id)}"
-- 
2.43.0


From 744ddc435e32ba8e7ace438b7dc09196be51cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 71/73] fix: log records with any kind of body can be printed

Bodies may hold bytes and any sequence or mapping, which json doesn't
support: the ConsoleLogExporter raised for such a record and lost it with
the rest of its batch.
---
 .../sdk/_logs/_internal/__init__.py              | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index ddf64b6..702233f 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -15,12 +15,14 @@ from __future__ import annotations
 
 import abc
 import atexit
+import base64
 import concurrent.futures
 import json
 import logging
 import threading
 import traceback
 import warnings
+from collections.abc import Mapping, Sequence
 from os import environ
 from threading import Lock
 from time import monotonic_ns, time_ns
@@ -173,6 +175,19 @@ _UnsetLogLimits = LogLimits(
 )
 
 
+def _to_json_value(value: Any) -> Any:
+    """Converts the parts of a body that json doesn't support itself"""
+    if isinstance(value, bytes):
+        return base64.b64encode(value).decode("ascii")
+    if isinstance(value, Mapping):
+        return dict(value)
+    if isinstance(value, Sequence):
+        return list(value)
+    raise TypeError(
+        f"Object of type {type(value).__name__} is not JSON serializable"
+    )
+
+
 class LogRecord(APILogRecord):
     """A LogRecord instance represents an event being logged.
 
@@ -260,6 +275,7 @@ class LogRecord(APILogRecord):
                 "resource": json.loads(self.resource.to_json()),
             },
             indent=indent,
+            default=_to_json_value,
         )
 
     @property
-- 
2.43.0


From 4f9d599716e5f351e6c5c71c012bd0e0dbea378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:35 +0000
Subject: [PATCH 72/73] fix: objects logged as a message don't cost other
 records their export

The LoggingHandler sets the body of a record to the object that was logged
itself, an exception for example. No exporter can send such a body: the
export of the whole batch failed. Use its text for what can't be a body.
---
 .../sdk/_logs/_internal/__init__.py           | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 702233f..62cf510 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -514,6 +514,17 @@ _RESERVED_ATTRS = frozenset(
 )
 
 
+def _is_any_value(value: Any) -> bool:
+    """Whether the value, with all it contains, can be the body of a record"""
+    if value is None or isinstance(value, (str, bool, int, float, bytes)):
+        return True
+    if isinstance(value, Mapping):
+        return all(map(_is_any_value, value.values()))
+    if isinstance(value, Sequence):
+        return all(map(_is_any_value, value))
+    return False
+
+
 class LoggingHandler(logging.Handler):
     """A handler class which writes logging records, in OTLP format, to
     a network destination or file. Supports signals from the `logging` module.
@@ -572,9 +583,14 @@ class LoggingHandler(logging.Handler):
             # is sometimes used in such a way that objects incorrectly end up
             # set as record.msg, in those cases we would like to bypass
             # `record.getMessage()` completely and set the body to the object
-            # itself instead of its string representation.
+            # itself instead of its string representation, if it can be a body
+            # at all: exporters can't send any other object.
             # For more background, see: https://github.com/open-telemetry/opentelemetry-python/pull/4216
-            if not record.args and not isinstance(record.msg, str):
+            if (
+                not record.args
+                and not isinstance(record.msg, str)
+                and _is_any_value(record.msg)
+            ):
                 # no args are provided so it's *mostly* safe to use the message template as the body
                 body = record.msg
             else:
-- 
2.43.0


From d75f32adbb24f37e65f8a9536c167121f01706c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:30 +0000
Subject: [PATCH 73/73] fix: an event that says it is not sampled is not marked
 sampled by the current span

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index 1180c7d..28a2160 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -55,7 +55,11 @@ class EventLogger(APIEventLogger):
             observed_timestamp=None,
             trace_id=event.trace_id or span_context.trace_id,
             span_id=event.span_id or span_context.span_id,
-            trace_flags=event.trace_flags or span_context.trace_flags,
+            trace_flags=(
+                span_context.trace_flags
+                if event.trace_flags is None
+                else event.trace_flags
+            ),
             severity_text=None,
             severity_number=event.severity_number or SeverityNumber.INFO,
             body=event.body,
-- 
2.43.0

