From eb3f0decf9e30081566e219d568c4b6d8482f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 01/35] fix: schedule the next RFID exchange by its own
 duration and reply start

finish_transaction() scheduled the end of the new exchange after the duration
of the previous one, and the power update at the response start for the
previous exchange, whose reply start lies in the past: the model clock went
backwards. The id of that event was also never stored, so turning the reader
off could not cancel it.
---
 pysim/models/rfid/handlers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9a71e4a..f5551c9 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -100,7 +100,8 @@ def turn_reader_on(kernel, reader):
         transaction.duration, finish_transaction, (transaction, ))
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
     # Scheduling turning off
     power_mode = reader.power_control_mode
@@ -306,13 +307,15 @@ def finish_transaction(kernel, transaction):
         cmd_frame = _no_tag_response(kernel, ctx, reader)
 
     # Processing new command (reader frame)
-    ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
+    ctx.transaction = transaction
     ctx.transaction.timeout_event_id = kernel.schedule(
-        transaction.duration, finish_transaction, (ctx.transaction, )
+        transaction.duration, finish_transaction, (transaction, )
     )
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, ))
 
 
 def switch_reader_antenna(kernel, reader):
-- 
2.43.0


From e19b281ab47d777ad747b91498075e95ba8b9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:40 +0000
Subject: [PATCH 02/35] fix: validate scheduling requests as documented

schedule() and call() document SchedulingInPastError, ValueError and TypeError
for a negative delay, a missing handler, a non-callable handler and
non-iterable arguments, but accepted all of them: a negative delay moved the
model clock backwards and the others aborted the run later.
---
 pysim/sim/simulator.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a7da8a3..9679cfb 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -337,9 +337,18 @@ class Kernel:
             msg: str = ''
     ) -> EventId:
         '''Планирование нового события'''
-        if delay is not None:
-            return self._queue.push(self._sim_time + delay, (handler, args, msg))
-        return None
+        if delay is None:
+            return None
+        if delay < 0:
+            raise SchedulingInPastError(
+                f'attempt to schedule an event with delay {delay}')
+        if handler is None:
+            raise ValueError('event handler is not set')
+        if not callable(handler):
+            raise TypeError(f'event handler {handler!r} is not callable')
+        if not isinstance(args, Iterable):
+            raise TypeError(f'event arguments {args!r} are not iterable')
+        return self._queue.push(self._sim_time + delay, (handler, args, msg))
 
     def cancel(self, event_id: EventId) -> int:
         '''Отменить событие с идентификатором `event_id`'''
-- 
2.43.0


From 40c66d6b545b551b0d44a7d918dc9645ab62a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 03/35] fix: enforce max_num_events

The event-count limit was stored but never checked.
---
 pysim/sim/simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 9679cfb..beb5c95 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -27,6 +27,7 @@ class ExitReason(Enum):
     REACHED_SIM_TIME_LIMIT = 2
     STOPPED = 3
     INTERRUPTED = 4  # выполнение не закончилось - прерывание при отладке
+    REACHED_NUM_EVENTS_LIMIT = 5
 
 
 @dataclass
@@ -371,6 +372,10 @@ class Kernel:
         elif self._max_real_time is not None and self.real_time_elapsed > self._max_real_time:
             self.stop_reason = ExitReason.REACHED_REAL_TIME_LIMIT
             return True
+        elif (self._max_num_events is not None and
+                self._num_events_served >= self._max_num_events):
+            self.stop_reason = ExitReason.REACHED_NUM_EVENTS_LIMIT
+            return True
         elif self._user_stop:
             return True
 
-- 
2.43.0


From f887a0a2af6158f32463ca73c49b5dcb8f26bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 04/35] fix: report NO_MORE_EVENTS when the event queue drains

exit_reason stayed None when a run ended because its last event was served,
and a stop() requested in the initialiser was overwritten when no event had
been scheduled.
---
 pysim/sim/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index beb5c95..a3e907e 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -443,9 +443,6 @@ class Kernel:
         # 3) Инициализация модели
         self._initializer(sim, *self._initializer_args)
 
-        if self._queue.empty:
-            self.stop_reason = ExitReason.NO_MORE_EVENTS
-
         while not self._queue.empty and not self.stop_conditions():
             t, event_id, item = self._queue.pop()
             self._sim_time = t
@@ -453,6 +450,10 @@ class Kernel:
             handler(sim, *args)
             self._num_events_served += 1
             self.lhandler = handler
+
+        if self.stop_reason is None:
+            self.stop_reason = ExitReason.NO_MORE_EVENTS
+
         if self._finalize:
             fin_ret = self._finalize(sim)
         else:
-- 
2.43.0


From abaa3c205710c6be821d7903b9079fb8b1e80340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 05/35] fix: measure elapsed real time with the monotonic clock

With time.time() a step of the wall clock ended a run early, kept it from
ever reaching its real-time limit, or gave a negative elapsed time.
---
 pysim/sim/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a3e907e..1e84c55 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -434,7 +434,7 @@ class Kernel:
         self.set_debug(debug)
 
         self._num_events_served = 0
-        self._t_start = time.time()
+        self._t_start = time.monotonic()
 
         # 2) Создать экземпляр Simulator. Если контекст есть,
         #    использовать его. Если нет - использовать словарь (по-умолчанию)
@@ -474,7 +474,7 @@ class Kernel:
 
     @property
     def real_time_elapsed(self):
-        return time.time() - self._t_start
+        return time.monotonic() - self._t_start
 
 
 def build_simulation(
-- 
2.43.0


From 425f465c8ae8aeab44e370930e3f8959d00eb8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 06/35] fix: give every simulation a logger of its own

Simulations with the same model name shared one logging.Logger: building a
second one while the first was running replaced its handlers and level.
---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index af5e50e..f01f310 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -141,7 +141,9 @@ class ModelLogger:
             time_getter: функция получения модельного времени
             run_id: идентификатор запуска
         """
-        self._logger = logging.getLogger(model_name)
+        # Логгер создается напрямую, а не через getLogger(): иначе все симуляции
+        # с одним названием модели делили бы один и тот же объект.
+        self._logger = logging.Logger(model_name)
         self.time_getter = time_getter or (lambda: 0)
         self._run_id: int = run_id or uuid.uuid4().int % 1_000_000
         self._setup_was_called: bool = False
-- 
2.43.0


From 6d59be014fc5abf4617e3f8d2abb0f3c22c7f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 07/35] fix: let console_level and file_level go below the
 default level

The logger itself dropped records below ModelLoggerConfig.level before the
handlers with a lower level of their own could see them.
---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index f01f310..fe4dada 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -212,7 +212,9 @@ class ModelLogger:
             self._logger.addHandler(f_handler)
 
         self._logger.propagate = False
-        self._logger.setLevel(config.level)
+        # Уровни обработчиков могут быть ниже уровня по-умолчанию
+        self._logger.setLevel(
+            min([config.level] + [h.level for h in self._logger.handlers]))
         
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From c6af9db1e197b4c8d83f41532e12f6accde05d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 08/35] fix: use file_name_sep when building the log file name

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index fe4dada..528036e 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -202,7 +202,8 @@ class ModelLogger:
             else:
                 file_name = ModelLogger.build_file_name(
                     config.file_name, 
-                    self._run_id
+                    self._run_id,
+                    config.file_name_sep
                 )
             
             # Каждый запуск создает отдельный файл, поэтому режим = 'w'
-- 
2.43.0


From b254789ebe95c54d8d7ae7ea88a8f76c36100efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:08 +0000
Subject: [PATCH 09/35] fix: do not lose records of custom levels on a coloured
 console

ColoredFormatter raised KeyError for any level other than the standard five.
---
 pysim/sim/logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 528036e..1f9fbf9 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -42,7 +42,10 @@ class ColoredFormatter(logging.Formatter):
         }
 
     def format(self, record):
-        log_fmt: logging.Formatter = self.FORMATS[record.levelno]
+        # Для нестандартных уровней цвет не определен
+        log_fmt: logging.Formatter | None = self.FORMATS.get(record.levelno)
+        if log_fmt is None:
+            return super().format(record)
         return log_fmt.format(record)
 
 
-- 
2.43.0


From 187cda7d32b4e5f04d953a214fa1af5452596e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 10/35] fix: a tag reply starts T1 after the end of the command

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 59cdb1f..445dfa5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1578,7 +1578,7 @@ class Transaction():
             t4 = std.link_t4(reader.rtcal)
             exchange_duration = (self._command_duration + t1 +
                                  self._reply_duration + t2)
-            self._reply_start_time = time + t1
+            self._reply_start_time = self._command_end_time + t1
             self._reply_end_time = (
                 self._reply_start_time + self._reply_duration
             )
-- 
2.43.0


From c91be833dbf0fe3829c0abcc5b3706d9a450ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 11/35] fix: only Query starts with the full preamble

---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 445dfa5..8f6a6ce 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -291,7 +291,7 @@ class _ReaderQREP(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryRep(reader.session)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -336,7 +336,7 @@ class _ReaderAdjust(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryAdjust(reader.session, reader.updn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None  # Reader is already ON
@@ -380,7 +380,7 @@ class _ReaderACK(_ReaderState):
 
     def enter(self, reader):
         cmd = std.Ack(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None
@@ -426,7 +426,7 @@ class _ReaderREQRN(_ReaderState):
 
     def enter(self, reader):
         cmd = std.ReqRN(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -470,7 +470,7 @@ class _ReaderREAD(_ReaderState):
     def enter(self, reader):
         cmd = std.Read(std.MemoryBank.TID, 0x00, reader.read_tid_words_num,
                        reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
-- 
2.43.0


From b9ab00ecb3592ff2c3474b05f82c95e593a82607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 12/35] fix: wait after QueryAdjust for as long as the command
 sent lasts

---
 pysim/models/rfid/epcstd.py   | 2 +-
 pysim/models/rfid/handlers.py | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 2738602..fd64398 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -885,7 +885,7 @@ def query_adjust_duration(
     delim=None, tari=None, rtcal=None, session=None, updn=None
 ):
     return reader_frame_duration(QueryAdjust(session, updn), tari, rtcal,
-                                 delim)
+                                 delim=delim)
 
 
 # noinspection PyTypeChecker
diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index f5551c9..581b692 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -202,7 +202,6 @@ def _no_tag_response(kernel, ctx, reader):
                 # Отправить команду QueryAdjust
                 reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
@@ -276,7 +275,6 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 # Отправить команду QueryAdjust
                 reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
-- 
2.43.0


From 93c41198688abb0f20695d8fa589b443e0de39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 13/35] fix: switch the target after exactly rounds_per_target
 rounds

---
 pysim/models/rfid/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 8f6a6ce..9a5182d 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -239,8 +239,9 @@ class _ReaderQUERY(_ReaderState):
         if reader.target_strategy == 'switch':
             if reader.num_rounds_before_target_switch <= 0:
                 reader.target = reader.target.invert()
+                # Текущий раунд - уже первый с новым значением target
                 reader.num_rounds_before_target_switch = \
-                    reader.rounds_per_target
+                    reader.rounds_per_target - 1
             else:
                 reader.num_rounds_before_target_switch -= 1
 
-- 
2.43.0


From 82c5b60820ef80e4e71ff1b35e6c0a3ea7062096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 14/35] fix: survive a tag leaving in the middle of an exchange

---
 pysim/models/rfid/handlers.py | 8 +++++++-
 pysim/models/rfid/objects.py  | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 581b692..d1e88c0 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -224,7 +224,9 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
 
         # noinspection PyShadowingNames
         def on_slot_end(round_index, slot_index, reader, tag, statistics):
-            statistics.get_tag_record(tag).close_tag_read_record()
+            tag_record = statistics.get_tag_record(tag)
+            if tag_record is not None:  # метка могла уже покинуть модель
+                tag_record.close_tag_read_record()
             reader.slot_finish_listeners.remove(
                 statistics.slot_end_listener_id)
 
@@ -295,6 +297,10 @@ def finish_transaction(kernel, transaction):
     tag, frame, snr, ber = transaction.received_tag_frame(
         ctx.medium, kernel.time)
 
+    if frame is not None and tag not in ctx.tags:
+        # Метка покинула модель, не закончив ответ
+        frame = None
+
     if frame is not None:
         # Если есть один ответ от метки
         cmd_frame = _one_tag_response(
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 9a5182d..c7b65f3 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1858,6 +1858,7 @@ class Statistics:
 
     def close_tag_record(self, tag):
         record = self._current_tag_records.pop(tag)
+        record.close_tag_read_record()
         self.tags_history.append(record)
 
     def average_rounds_per_tag(self):
-- 
2.43.0


From e7bdfafb89a559e35b8ac2e60d92d21617ce34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 15/35] fix: give every generated tag an EPC and a TID of its
 own

---
 pysim/models/rfid/objects.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index c7b65f3..1c8ace5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1357,6 +1357,10 @@ class Generator:
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
 
+        # Переменные части EPC и TID следующей метки
+        self._epc_suffix = None
+        self._tid_suffix = None
+
     def set_interval(self, fn, *args):
         self._next_interval = (fn,) + args
 
@@ -1381,8 +1385,10 @@ class Generator:
         tid_suffix_bitlen = (
             self.tid_bitlen - hex_string_bitlen(self.tid_prefix)
         )
-        self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
-        self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
+        if self._epc_suffix is None:
+            self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
+        if self._tid_suffix is None:
+            self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
 
         tag_id = next(model.next_tag_id)
         tag = Tag(tag_id)
-- 
2.43.0


From 999c7b11a33bcdb4309ae4180a00961d312614cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 16/35] fix: keep the Q of a tag within 0..15 on QueryAdjust

---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 1c8ace5..3d336a9 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1204,11 +1204,11 @@ class Tag:
             )
             self._set_state(Tag.State.ARBITRATE)
             updn = qadjust.updn
-            if self.q + updn >= 0 or self.q + updn <= 15:
-                self.q = self.q + updn
-                self._slot_counter = np.random.randint(0, pow(2, self.q))
-                stat = self.kernel.context.statistics
-                stat.get_tag_record(self).num_qadjust_attained += 1
+            # По стандарту Q не выходит за границы 0..15
+            self.q = min(15, max(0, self.q + updn))
+            self._slot_counter = np.random.randint(0, pow(2, self.q))
+            stat = self.kernel.context.statistics
+            stat.get_tag_record(self).num_qadjust_attained += 1
             if self._slot_counter == 0:
                 self._set_state(Tag.State.REPLY)
                 self._rn = np.random.randint(0, 0x10000)
-- 
2.43.0


From d5eb3d30f21c6ded3c35a4ff37d6cad321fb0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 17/35] fix: move a tag before evaluating the power it receives

---
 pysim/models/rfid/handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index d1e88c0..b90065c 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -29,12 +29,12 @@ def start_simulation(kernel):
 
 def _update_power(time, reader, tags, transaction, medium, statistics):
     for tag in tags:
-        power = medium.estimate_tag_rx_power(reader, tag, time)
-        tag.set_power(time, power)
         tag.pos += tag.velocity * tag.normalized_direction * (
             time - tag.last_pos_update
         )
         tag.last_pos_update = time
+        power = medium.estimate_tag_rx_power(reader, tag, time)
+        tag.set_power(time, power)
         # uncomment lines below for PL debug
         # print(f'Estimated tag RX power: {power}')
         # print(f'- tag:    pos={tag.antenna.pos}, '
-- 
2.43.0


From d94bbc1846d7dff071c37a6a11fe06167a3910a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 18/35] fix: pass the QueryAdjust options to every run of an
 RFID sweep

---
 pysim/models/rfid/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index 5d45aab..c3553ca 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -144,6 +144,8 @@ def prepare_multiple_simulation(variadic, **kwargs):
         'power': kwargs['power'],
         'num_tags': kwargs['num_tags'],
         'verbose': False,
+        'useadjust': kwargs['useadjust'],
+        'delta': kwargs['delta'],
     } for _ in enumerate(variadic_values)]
 
     # Теперь заменим значения варьируемого аргумента, чтобы в каждом
-- 
2.43.0


From 2f922c566822bba6ac1307a6954b566101b1cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 19/35] fix: show the results of a tag offset sweep and create
 the plot folder

---
 pysim/models/rfid/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index b05d60b..bd87c22 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -1,4 +1,5 @@
 import json
+import os
 import matplotlib.pyplot as plt
 from tabulate import tabulate
 import time
@@ -91,7 +92,7 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     results_dict = results_to_dict(ret)
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/plots/' + current_time + '-' + variadic + '.png'
-    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
+    units = {'speed': 'km/h', 'reader_offset': 'm', 'tag_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
     
     fig, ax = plt.subplots(figsize=(14, 8), layout='constrained')
     ax.plot(
@@ -106,4 +107,5 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     ax.tick_params(axis='both', which='major', labelsize=31)
     ax.grid()
     if save_fig:
+        os.makedirs(os.path.dirname(filename), exist_ok=True)
         fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0


From ec5e1ff0e576673959773d0dbd3f3d5b79d0e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 20/35] fix: seed the numpy generator of every worker of an
 RFID sweep

---
 pysim/models/rfid/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index c3553ca..a1551b6 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -1,5 +1,6 @@
 import click
 import multiprocessing
+import numpy as np
 from time import time_ns
 
 import pysim.models.rfid.configurator as configurator
@@ -154,7 +155,9 @@ def prepare_multiple_simulation(variadic, **kwargs):
         args_list[i][variadic] = value
 
     pool = multiprocessing.Pool(
-        kwargs.get('jobs', multiprocessing.cpu_count())
+        kwargs.get('jobs', multiprocessing.cpu_count()),
+        # Иначе все процессы унаследуют одно и то же состояние генератора
+        initializer=np.random.seed
     )
     return pool.map(prepare_simulation, args_list)
 
-- 
2.43.0


From fa14d0987fbe987e348bcbf2b21720b73ab08782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 21/35] fix: count exactly the pings that were not acknowledged
 as missed

---
 pysim/models/pingpong/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index aac84bb..61b7da5 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -98,8 +98,9 @@ class Client(Node):
         assert self.channel is not None
         assert self.server is not None
 
-        if not self.was_acknowledged:
+        if self.num_pings_sent > 0 and not self.was_acknowledged:
             self.num_missed += 1
+        self.was_acknowledged = False
         self.number += 1
         if self.max_pings is None or self.num_pings_sent < self.max_pings:
             sim.logger.debug("client timeout, sending ping #%d", self.number)
-- 
2.43.0


From a319d28692ee8007970014e7beff54f9d7dd4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 22/35] fix: report the miss rate of ping-pong, not its success
 rate

---
 pysim/models/pingpong/README.md   | 6 +++---
 pysim/models/pingpong/handlers.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysim/models/pingpong/README.md b/pysim/models/pingpong/README.md
index 0d03bce..6120ee5 100644
--- a/pysim/models/pingpong/README.md
+++ b/pysim/models/pingpong/README.md
@@ -61,7 +61,7 @@ python3 cli.py -l 0.7
 Параметры: {'loss_prob': 0.7, 'interval': 10.0, 'channel_delay': 2.0, 'service_delay': 1.0, 'max_pings': 1000000}
 - Средний интервал отправки Ping клиентом(условные единицы) = 10.0
 - Средняя длительность передачи сообщения(условные единицы) = 2.0
-- Вероятность потери сообщения = 0.299611 
+- Вероятность потери сообщения = 0.700389 
 ```
 а для команды 
 ```
@@ -86,7 +86,7 @@ python3 cli.py -i 15 -i 25 -i 35 -i 45 -i 55
 +--------------+---------------------------------------------------+
 | avg_interval |          [15.0, 25.0, 35.0, 45.0, 55.0]           |
 |  avg_delay   |             [2.0, 2.0, 2.0, 2.0, 2.0]             |
-|  miss_rate   | [0.900109, 0.89992, 0.899941, 0.900157, 0.900191] |
+|  miss_rate   | [0.099891, 0.10008, 0.100059, 0.099843, 0.099809] |
 +--------------+---------------------------------------------------+
 ```
 Также если передать функции `result_processing` в модуле `processing.py` параметр
@@ -97,7 +97,7 @@ save_results=True
 Пример файла для одной из команд выше:
 ```
 Входные параметры: {"interval": [15.0, 25.0, 35.0, 45.0], "channel_delay": 2.0, "service_delay": 1.0, "loss_prob": 0.1, "max_pings": 1000000}
-Результаты моделирования: {"avg_interval": [15.0, 25.0, 35.0, 45.0], "avg_delay": [2.0, 2.0, 2.0, 2.0], "miss_rate": [0.900471, 0.89983, 0.900341, 0.900455]}
+Результаты моделирования: {"avg_interval": [15.0, 25.0, 35.0, 45.0], "avg_delay": [2.0, 2.0, 2.0, 2.0], "miss_rate": [0.099529, 0.10017, 0.099659, 0.099545]}
 ```
 
 
diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 1b1b3c9..37ffc98 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -21,6 +21,6 @@ def finalize(sim: Simulator) -> Result:
         avg_interval=statistics.mean(model.client.intervals_list),
         avg_delay=statistics.mean(model.channel.delays_list),
         miss_rate=(
-            model.client.num_acknowledged / model.client.num_pings_sent
+            model.client.num_missed / model.client.num_pings_sent
         ),
     )
-- 
2.43.0


From e134d78beecea599a2269bd1858c0abcaccc9e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 23/35] fix: finish ping-pong runs in which nothing was sent or
 acknowledged

---
 pysim/models/pingpong/handlers.py | 10 ++++++++--
 pysim/models/pingpong/model.py    |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 37ffc98..961e439 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -17,10 +17,16 @@ def finalize(sim: Simulator) -> Result:
     # noinspection PyTypeChecker
     model: Model = sim.context
 
+    # Прогон мог закончиться раньше, чем что-то было отправлено
     return Result(
-        avg_interval=statistics.mean(model.client.intervals_list),
-        avg_delay=statistics.mean(model.channel.delays_list),
+        avg_interval=_mean(model.client.intervals_list),
+        avg_delay=_mean(model.channel.delays_list),
         miss_rate=(
             model.client.num_missed / model.client.num_pings_sent
+            if model.client.num_pings_sent > 0 else 0.0
         ),
     )
+
+
+def _mean(values) -> float:
+    return statistics.mean(values) if values else 0.0
diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index 61b7da5..b866d97 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -176,6 +176,9 @@ class Server(Node):
                 sim.context.client.interval,
                 sim.context.client.handle_timeout
             )
+            sim.context.client.intervals_list.append(
+                sim.context.client.interval
+            )
 
     def handle_service_end(self, sim: Simulator, ping: Packet) -> None:
         """
-- 
2.43.0


From cc1b561931cff9090548c26373817e4b38ff4065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 24/35] fix: print the results of a ping-pong sweep against
 their parameter values

---
 pysim/models/pingpong/processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 47ebaff..226d586 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -56,6 +56,8 @@ def result_processing(initial_data, results, variadic, save_results=False):
         'miss_rate': []
         }
     if isinstance(results, list):
+        # Значения в том порядке, в котором получены результаты
+        initial_data[variadic] = sorted(set(initial_data[variadic]))
         for i in range(len(results)):
             res['avg_interval'].append(results[i].avg_interval),
             res['avg_delay'].append(results[i].avg_delay),
-- 
2.43.0


From ba51e1843d2cd823521c46f47716b7f0db5280cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 25/35] fix: send tags the change of Q the reader actually made

The direction of QueryAdjust was taken from the kind of the slot. When the
fractional Q started apart from Q (q set and q_fp left at its default), an
empty slot could raise the reader's Q while telling the tags to lower theirs.
---
 pysim/models/rfid/handlers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index b90065c..88fcc41 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -198,9 +198,9 @@ def _no_tag_response(kernel, ctx, reader):
                 kernel.logger.error(
                     f'Считыватель уменьшил Q с {reader.q} до {new_q}'
                 )
-                reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = -1
+                reader.updn = new_q - reader.q
+                reader.q = new_q  # обновляем q в считывателе
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
@@ -273,9 +273,9 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 kernel.logger.error(
                     f'Считыватель увеличил Q с {reader.q} до {new_q}'
                 )
-                reader.q = new_q  # обновляем q в считывателе
                 # Отправить команду QueryAdjust
-                reader.updn = 1
+                reader.updn = new_q - reader.q
+                reader.q = new_q  # обновляем q в считывателе
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
-- 
2.43.0


From 3f5959822b9ca4e2e1c94533cbae487a36371746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 26/35] fix: compute BER with the configured distribution

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 3d336a9..72c353c 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1530,7 +1530,7 @@ class Medium:
         return snr
 
     def estimate_reader_rx_ber(self, reader, tag, tags, snr):
-        return chan.ber(snr)
+        return chan.ber(snr, self.ber_distribution)
 
 
 #############################################################################
-- 
2.43.0


From ada4c068dab590592e96857aa7ff73fc7492d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 27/35] fix: give tags the configured session flag persistence

---
 pysim/models/rfid/configurator.py | 3 +++
 pysim/models/rfid/objects.py      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 26e287f..0c52767 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -324,6 +324,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
     generator.antenna_gain = settings.tag_antenna_gain
     generator.modulation_loss = settings.tag_modulation_loss
     generator.sensitivity = settings.tag_sensitivity
+    generator.s1_persistence = settings.s1_persistence
+    generator.s2_persistence = settings.s2_persistence
+    generator.s3_persistence = settings.s3_persistence
 
     generator.set_interval(
         settings.generation_interval[0],
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 72c353c..7d4b86e 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1354,6 +1354,11 @@ class Generator:
     modulation_loss = -12.0  # dBm
     sensitivity = -18.0  # dBm
 
+    # Session flags persistence
+    s1_persistence = 2.0  # sec.
+    s2_persistence = 2.0  # sec.
+    s3_persistence = 2.0  # sec.
+
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
 
@@ -1406,6 +1411,9 @@ class Generator:
         tag.antenna.cable_loss = self.cable_loss
         tag.sensitivity = self.sensitivity
         tag.modulation_loss = self.modulation_loss
+        tag.s1_persistence = self.s1_persistence
+        tag.s2_persistence = self.s2_persistence
+        tag.s3_persistence = self.s3_persistence
         return tag
 
 
-- 
2.43.0


From 8aa1bb2f0c0f87e64b6115cc5436d77e6515e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 28/35] fix: number the tags of every RFID model from zero

---
 pysim/models/rfid/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 7d4b86e..4ef275d 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -71,12 +71,13 @@ class Model:
     medium = None
     statistics = None
     update_interval = 0.001
-    next_tag_id = itertools.count()
+    next_tag_id = None
     max_tags_num = None
 
     def __init__(self):
         self.reader = Reader()
         self.tags = []
+        self.next_tag_id = itertools.count()
         self.statistics = Statistics()
         self.generators = []
         self.medium = Medium()
-- 
2.43.0


From 4e6e47f52466800e867d10d1537c3022091fe2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 29/35] fix: leave cancelled events out of the list of future
 events

---
 pysim/sim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 1e84c55..f747c66 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -264,7 +264,7 @@ class EventQueue:
         return len(self._event_dict) == 0
 
     def to_list(self):
-        return list(self._event_list)
+        return [event for event in self._event_list if event[-1] is not None]
 
 
 class Kernel:
-- 
2.43.0


From cfdb9f5015691c3b2cea12b76578d62f6bc5d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 30/35] fix: a forced logger set-up takes effect for levels
 used before it

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 1f9fbf9..d08f614 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -181,7 +181,9 @@ class ModelLogger:
             return
         
         config = config or ModelLoggerConfig()
-        self._logger.handlers = []
+        # Новый объект: Logger, созданный не через getLogger(), не сбрасывает
+        # кеш уровней при повторном вызове setLevel().
+        self._logger = logging.Logger(self._logger.name)
         if config.use_console:
             if config.colored_console:
                 c_formatter = ColoredFormatter(
-- 
2.43.0


From ed33565b6e343e2d4e39bc71ff1ed21a22687f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 31/35] fix: a logger without destinations writes nothing to
 the console

---
 pysim/sim/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index d08f614..9b87dbb 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -221,6 +221,9 @@ class ModelLogger:
         # Уровни обработчиков могут быть ниже уровня по-умолчанию
         self._logger.setLevel(
             min([config.level] + [h.level for h in self._logger.handlers]))
+        if not self._logger.handlers:
+            # Без обработчиков logging сам выводит записи в stderr (lastResort)
+            self._logger.addHandler(logging.NullHandler())
         
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From 8283af175d57101b7054ea76342353a31536d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 32/35] fix: do not overwrite results saved earlier, create the
 results folder

---
 pysim/models/pingpong/processing.py | 17 ++++++++++++++++-
 pysim/models/rfid/processing.py     | 19 ++++++++++++++++---
 pysim/models/tag_time/processing.py | 19 +++++++++++++++++--
 3 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 226d586..e46c967 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -1,12 +1,27 @@
 import json
+import os
 from tabulate import tabulate
 import time
 
 
+def new_file_name(filename):
+    '''
+    Имя для нового файла: результаты, сохранённые ранее
+    (например, в ту же секунду), не должны быть затёрты.
+    '''
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
+    name, ext = os.path.splitext(filename)
+    number = 1
+    while os.path.exists(filename):
+        number += 1
+        filename = f'{name}-{number}{ext}'
+    return filename
+
+
 def save_results_to_file(initial_data, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/' + 'model_res-' + current_time + '.txt'
-    with open(filename, 'w') as f:
+    with open(new_file_name(filename), 'x') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
 
diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index bd87c22..d5d4282 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -78,12 +78,26 @@ def print_the_mult_results_to_the_terminal(initial_data, results, variadic):
     print(f'Среднее время одной симуляции = {sum(time_list)/len(time_list)} с')
 
 
+def new_file_name(filename):
+    '''
+    Имя для нового файла: результаты, сохранённые ранее
+    (например, в ту же секунду), не должны быть затёрты.
+    '''
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
+    name, ext = os.path.splitext(filename)
+    number = 1
+    while os.path.exists(filename):
+        number += 1
+        filename = f'{name}-{number}{ext}'
+    return filename
+
+
 def save_mult_results_to_file(initial_data, results, variadic):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
     ret, time_list = separate_res(results)
     results_dict = results_to_dict(ret)
-    with open(filename, 'w') as f:
+    with open(new_file_name(filename), 'x') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(results_dict))
 
@@ -107,5 +121,4 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     ax.tick_params(axis='both', which='major', labelsize=31)
     ax.grid()
     if save_fig:
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
-        fig.savefig(filename)
\ No newline at end of file
+        fig.savefig(new_file_name(filename))
\ No newline at end of file
diff --git a/pysim/models/tag_time/processing.py b/pysim/models/tag_time/processing.py
index 0d7cd29..10f2a5a 100644
--- a/pysim/models/tag_time/processing.py
+++ b/pysim/models/tag_time/processing.py
@@ -1,4 +1,5 @@
 import json
+import os
 import matplotlib.pyplot as plt
 import time
 
@@ -20,10 +21,24 @@ def result_processing(kwargs, result, save_res=True, plot_res=False):
               result.sim_time/kwargs['max_transmisions'])
 
 
+def new_file_name(filename):
+    '''
+    Имя для нового файла: результаты, сохранённые ранее
+    (например, в ту же секунду), не должны быть затёрты.
+    '''
+    os.makedirs(os.path.dirname(filename), exist_ok=True)
+    name, ext = os.path.splitext(filename)
+    number = 1
+    while os.path.exists(filename):
+        number += 1
+        filename = f'{name}-{number}{ext}'
+    return filename
+
+
 def save_results(kwargs, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
-    with open(filename, 'w') as f:
+    with open(new_file_name(filename), 'x') as f:
         f.write('Входные параметры: ' + json.dumps(kwargs) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
 
@@ -39,4 +54,4 @@ def plot_results(kwargs, res, save_fig=True):
         markersize=8,
     )
     if save_fig:
-        fig.savefig(filename)
+        fig.savefig(new_file_name(filename))
-- 
2.43.0


From a876513e814fa182881e2f43857345268516bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 33/35] fix: print ping-pong results before saving them, so
 that a failed save loses nothing

---
 pysim/models/pingpong/processing.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index e46c967..25a5f33 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -58,11 +58,11 @@ def result_processing(initial_data, results, variadic, save_results=False):
     '''
     Обработка полученных данных из модели.
 
-    Если save_results = True, то входные и
+    Данные выводятся в терминал.
+
+    Далее, если save_results = True, то входные и
     выходные данные сохраняются в .txt файл в
     папке results.
-
-    Далее данные выводятся в терминал
     '''
     # Преобразуем данные из типа Result (pydentic) в dict
     res = {
@@ -80,11 +80,11 @@ def result_processing(initial_data, results, variadic, save_results=False):
     else:
         res = results.dict()
 
-    # Запись данных в файл
-    if save_results:
-        save_results_to_file(initial_data, res)
-
     # Вывод данных в терминал
     print_the_results_to_the_terminal(
         initial_data, res, isinstance(results, list)
     )
+
+    # Запись данных в файл
+    if save_results:
+        save_results_to_file(initial_data, res)
-- 
2.43.0


From 7c277dd2251ccaae7b866797c95dc458a569ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 34/35] fix: a console that is closed or cannot show a record
 no longer aborts the run

---
 pysim/sim/logger.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 9b87dbb..3f2d994 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -95,6 +95,24 @@ class ModelLoggerConfig:
     file_name_no_run_id: bool = True
 
 
+def _ignore_failures(handler: logging.Handler) -> logging.Handler:
+    """
+    Отказ обработчика не должен прерывать симуляцию. logging сам сообщает
+    об отказе в stderr, но если stderr закрыт (или не может вывести текст),
+    такое сообщение само завершается исключением.
+    """
+    report = handler.handleError
+
+    def handle_error(record):
+        try:
+            report(record)
+        except Exception:
+            pass
+
+    handler.handleError = handle_error
+    return handler
+
+
 class ModelLogger:
     """
     Логгер для моделей.
@@ -196,7 +214,7 @@ class ModelLogger:
             s_handler = logging.StreamHandler()
             s_handler.setLevel(config.console_level or config.level)     
             s_handler.setFormatter(c_formatter)
-            self._logger.addHandler(s_handler)
+            self._logger.addHandler(_ignore_failures(s_handler))
 
         if config.file_name is not None:
             f_formatter = logging.Formatter(config.fmt, style=config.style)
@@ -215,7 +233,7 @@ class ModelLogger:
             f_handler = logging.FileHandler(file_name,  mode = 'w')
             f_handler.setLevel(config.file_level or config.level)
             f_handler.setFormatter(f_formatter)
-            self._logger.addHandler(f_handler)
+            self._logger.addHandler(_ignore_failures(f_handler))
 
         self._logger.propagate = False
         # Уровни обработчиков могут быть ниже уровня по-умолчанию
-- 
2.43.0


From 5bddb2f42c13de4ac3d9abfa2c7d7b34dd7e2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 35/35] fix: a StopIteration raised by a model reaches the
 caller of run_simulation unchanged

---
 pysim/sim/simulator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index f747c66..9a5d65d 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -557,11 +557,21 @@ def build_simulation(
 
 def run_simulation(sim: Iterator[ExecResult]) -> ExecResult:
     ret = None
+    stop_iteration = None
     try:
         while True:
             ret = next(sim)
     except StopIteration:
         pass
+    except RuntimeError as e:
+        # Исключение StopIteration, вышедшее из обработчика, превращается
+        # в генераторе в RuntimeError (PEP 479). Возвращаем исходное.
+        if (not isinstance(e.__cause__, StopIteration)
+                or e.args != ('generator raised StopIteration',)):
+            raise
+        stop_iteration = e.__cause__
+    if stop_iteration is not None:
+        raise stop_iteration
     if ret is None:
         raise RuntimeError("simulation yield no results")
     return ret
-- 
2.43.0

