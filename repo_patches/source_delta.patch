From 52d9ee5b87e01fe47bc5b5c5c43a1f460db59a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 01/52] fix: report a case as failed, if its parallel job ends
 without a report

---
 booktest/reports.py | 2 +-
 booktest/runs.py    | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index a764841..f4d97bb 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -167,7 +167,7 @@ class CaseReports:
     def make_case(case_name,
                   res: TestResult,
                   duration):
-        return (case_name, res.name, duration)
+        return (case_name, res, duration)
 
     def to_dir(self, out_dir):
         report_file = os.path.join(out_dir, "cases.txt")
diff --git a/booktest/runs.py b/booktest/runs.py
index c725ce7..8a84de3 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -75,6 +75,7 @@ class RunBatch:
                 "output.txt")
 
         output = open(output_file, "w")
+        rv = -1
 
         try:
             run = TestRun(
@@ -228,8 +229,10 @@ class ParallelRunner:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                if os.path.exists(report_file):
-                    reports.append(CaseReports.of_file(report_file).cases[0])
+                # the report is missing or empty, if the job broke
+                case_reports = CaseReports.of_file(report_file).by_name(i)
+                if len(case_reports) > 0:
+                    reports.append(case_reports[0])
                 else:
                     reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))
 
-- 
2.43.0


From fad42541dc5e372be54098b76cc932235c7bfecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 02/52] fix: cases 'a.b/c' and 'a/b/c' shared their parallel
 batch directory

---
 booktest/runs.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 8a84de3..5fbf04e 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -40,6 +40,12 @@ def prepare_batch_dir(out_dir: str):
         os.makedirs(_batch_dir, exist_ok=True)
 
 
+def batch_name(case_name: str):
+    """ a file name, that is unique for the case """
+    return ".".join([i.replace("%", "%25").replace(".", "%2e")
+                     for i in case_name.split("/")])
+
+
 class RunBatch:
     #
     # Tests are collected into suites, that are
@@ -59,19 +65,15 @@ class RunBatch:
         self.setup = setup
 
     def __call__(self, case):
-        path = case.split("/")
-        batch_name = ".".join(path)
         batch_dir = \
             os.path.join(
                 self.out_dir,
                 ".batches",
-                batch_name)
+                batch_name(case))
 
         output_file = \
             os.path.join(
-                self.out_dir,
-                ".batches",
-                batch_name,
+                batch_dir,
                 "output.txt")
 
         output = open(output_file, "w")
@@ -100,8 +102,7 @@ class RunBatch:
 
 
 def case_batch_dir_and_report_file(batches_dir, name):
-    path = ".".join(name.split("/"))
-    batch_dir = os.path.join(batches_dir, path)
+    batch_dir = os.path.join(batches_dir, batch_name(name))
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
 
-- 
2.43.0


From 26c361893d742061afccc64e8360148e5e01bc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 03/52] fix: do not pass unquoted paths to the shell for making
 and removing directories

---
 booktest/runs.py        | 5 +++--
 booktest/testcaserun.py | 4 ++--
 booktest/testrun.py     | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 5fbf04e..7001016 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,6 +1,7 @@
 import traceback
 import multiprocessing
 import os
+import shutil
 import threading
 import time
 from collections import defaultdict
@@ -36,7 +37,7 @@ def prepare_batch_dir(out_dir: str):
     _batch_dir = batch_dir(out_dir)
 
     if os.path.exists(_batch_dir):
-        os.system(f"rm -rf {_batch_dir}")
+        shutil.rmtree(_batch_dir)
         os.makedirs(_batch_dir, exist_ok=True)
 
 
@@ -314,7 +315,7 @@ def parallel_run_tests(exp_dir,
 
     exit_code = 0
 
-    os.system(f"mkdir -p {out_dir}")
+    os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
     with open(report_file, "w") as report_f:
diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 944969e..9179106 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -45,7 +45,7 @@ class TestCaseRun:
 
         # expectation file
         self.exp_base_dir = path.join(run.exp_dir, relative_dir)
-        os.system(f"mkdir -p {self.exp_base_dir}")
+        os.makedirs(self.exp_base_dir, exist_ok=True)
         self.exp_file_name = path.join(self.exp_base_dir, name + ".md")
         self.exp_dir_name = path.join(self.exp_base_dir, name)
         self.exp_file_exists = path.exists(self.exp_file_name)
@@ -56,7 +56,7 @@ class TestCaseRun:
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
-        os.system(f"mkdir -p {self.out_base_dir}")
+        os.makedirs(self.out_base_dir, exist_ok=True)
         self.out_file_name = path.join(self.out_base_dir, name + ".md")
         self.out_dir_name = path.join(self.out_base_dir, name)
         self.out_tmp_dir_name = path.join(self.out_base_dir, name + ".tmp")
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 66c133d..284d69a 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -122,7 +122,7 @@ class TestRun:
         oks = 0
         fails = 0
         tests = 0
-        os.system(f"mkdir -p {self.report_dir}")
+        os.makedirs(self.report_dir, exist_ok=True)
         report_file = path.join(self.report_dir, "cases.txt")
 
         # 1.2. To continue testing, we need to read
-- 
2.43.0


From eb50b0b0594b287a24b3dbc1f56dea2501168acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 04/52] fix: command line flags leaked to later invocations in
 the same process

---
 booktest/tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index b6cb00e..86600ec 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -366,7 +366,7 @@ class Tests:
         if setup is None:
             setup = BookTestSetup()
 
-        config = get_default_config()
+        config = dict(get_default_config())
         # extra default configuration parameters get layered
         # on top of normal default configuration
         for key, value in extra_default_config.items():
-- 
2.43.0


From eb38c79790daf57c9cc15607f5ec72704f12a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 05/52] fix: standard error and logging were not restored after
 a test case

---
 booktest/testcaserun.py | 24 +++++++++++++-----------
 booktest/testrun.py     | 27 ++++++++++++++++-----------
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 9179106..670beec 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -76,10 +76,6 @@ class TestCaseRun:
         self.log = None
         self.orig_handlers = None
 
-        # swap error
-        self.orig_err = sys.stderr
-        sys.stderr = self.err
-
         # error management
         #
         # let's separate diff from proper failure
@@ -306,14 +302,20 @@ s
             sys.stderr = self.orig_err
             self.orig_err = None
 
-        self.err.close()
-        self.err = None
-
         self.close_exp_reader()
-        self.out.close()
-        self.out = None
-        self.rep.close()
-        self.rep = None
+
+        # close every file, even if closing one of them fails
+        files = [self.err, self.out, self.rep]
+        self.err = self.out = self.rep = None
+        error = None
+        for file in files:
+            if file is not None:
+                try:
+                    file.close()
+                except Exception as e:
+                    error = e
+        if error is not None:
+            raise error
 
     def next_exp_line(self):
         """
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 284d69a..626e496 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -88,18 +88,23 @@ class TestRun:
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
         t = TestCaseRun(self, case_path, self.config, self.output)
-        t.start(title)
         try:
-            if inspect.iscoroutinefunction(case):
-                rv = await case(t)
-            else:
-                rv = case(t)
-        except Exception as e:
-            t.iln().fail().iln(f"test raised exception {e}:")
-            t.iln(traceback.format_exc())
-            rv = None
-
-        result, interaction = t.end()
+            t.start(title)
+            try:
+                if inspect.iscoroutinefunction(case):
+                    rv = await case(t)
+                else:
+                    rv = case(t)
+            except Exception as e:
+                t.iln().fail().iln(f"test raised exception {e}:")
+                t.iln(traceback.format_exc())
+                rv = None
+
+            result, interaction = t.end()
+        finally:
+            # restore standard error and logging, also if the test did not
+            # get to its end
+            t.close()
         if result is TestResult.OK or result is TestResult.DIFF:
             # if the test case return a value, store it in a cache
             self.save_test_result(case_path, rv)
-- 
2.43.0


From 4f11b6cb85f93b8705e9781122ab2c1ebc850531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 06/52] fix: results of dependencies: None was not stored, a
 crash left partial results, unpicklable results ended the run

---
 booktest/testrun.py | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 626e496..d066aa5 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -61,40 +61,43 @@ class TestRun:
             # a bit hacky way for figuring out the dependencies
             if match_method(method, t[1]):
                 bin_path = self.tests.test_result_path(self.out_dir, t[0])
-                if bin_path not in self.cache:
-                    if path.exists(bin_path):
-                        with open(bin_path, 'rb') as file:
-                            rv = pickle.load(file)
-                            self.cache[bin_path] = rv
-                    else:
-                        raise Exception(
-                            f"case {case.name} dependency {t[0]}" +
-                            f" missing in '{bin_path}'")
-
-                return True, self.cache[bin_path]
+                if bin_path in self.cache:
+                    rv = self.cache[bin_path]
+                elif path.exists(bin_path):
+                    with open(bin_path, 'rb') as file:
+                        rv = pickle.load(file)
+                    self.cache[bin_path] = rv
+                else:
+                    raise Exception(
+                        f"case {case.name} dependency {t[0]}" +
+                        f" missing in '{bin_path}'")
+
+                return True, rv
 
         return False, None
 
-    def save_test_result(self, case_path, result):
+    def save_test_result(self, case_path, result, pickled):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
+        # write aside and rename to never leave a partial result behind
+        tmp_path = f"{bin_path}.new"
+        with open(tmp_path, 'wb') as file:
+            file.write(pickled)
+        os.replace(tmp_path, bin_path)
         self.cache[bin_path] = result
-        if result is None:
-            if path.exists(bin_path):
-                os.remove(bin_path)
-        else:
-            with open(bin_path, 'wb') as file:
-                pickle.dump(result, file)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
         t = TestCaseRun(self, case_path, self.config, self.output)
         try:
             t.start(title)
+            pickled = None
             try:
                 if inspect.iscoroutinefunction(case):
                     rv = await case(t)
                 else:
                     rv = case(t)
+                # a result, that cannot be stored, fails the test
+                pickled = pickle.dumps(rv)
             except Exception as e:
                 t.iln().fail().iln(f"test raised exception {e}:")
                 t.iln(traceback.format_exc())
@@ -106,8 +109,8 @@ class TestRun:
             # get to its end
             t.close()
         if result is TestResult.OK or result is TestResult.DIFF:
-            # if the test case return a value, store it in a cache
-            self.save_test_result(case_path, rv)
+            # store the returned value (also None) for the dependents
+            self.save_test_result(case_path, rv, pickled)
 
         return result, interaction, t.took_ms
 
-- 
2.43.0


From 42daf087074429062b921b74f057e9481723c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 07/52] fix: any dependency hung with NoCache

---
 booktest/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/cache.py b/booktest/cache.py
index 886ff18..c66212a 100644
--- a/booktest/cache.py
+++ b/booktest/cache.py
@@ -42,6 +42,9 @@ class NoCache:
     def __len__(self):
         return 0
 
+    def __contains__(self, key):
+        return False
+
     def __getitem__(self, key):
         return None
 
-- 
2.43.0


From 22580384bc468c6559324f03a35e003242081f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 08/52] fix: sys.exit() or a cancellation in a test ended the
 run, or hung it in parallel mode

---
 booktest/testrun.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index d066aa5..c2ce78d 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -31,6 +31,18 @@ def match_method(matcher, method):
     return matcher_func == method_func and (matcher_self == method_self or matcher_self is None)
 
 
+def is_interrupt(e):
+    """
+    Tells the interruption of the run from exceptions, that are test's own,
+    including e.g. the SystemExit of sys.exit()
+    """
+    if isinstance(e, asyncio.CancelledError):
+        # asyncio cancels the running task on CTRL-C
+        cancelling = getattr(asyncio.current_task(), "cancelling", None)
+        return cancelling is not None and cancelling() > 0
+    return isinstance(e, KeyboardInterrupt)
+
+
 class TestRun:
     """
     Runs a selection of test cases from the test-object
@@ -98,7 +110,9 @@ class TestRun:
                     rv = case(t)
                 # a result, that cannot be stored, fails the test
                 pickled = pickle.dumps(rv)
-            except Exception as e:
+            except BaseException as e:
+                if is_interrupt(e):
+                    raise
                 t.iln().fail().iln(f"test raised exception {e}:")
                 t.iln(traceback.format_exc())
                 rv = None
@@ -199,4 +213,8 @@ class TestRun:
         return rv
 
     def run(self):
-        return asyncio.run(self.run_async())
+        try:
+            return asyncio.run(self.run_async())
+        except SystemExit as e:
+            # an asyncio task of a test may exit past the test
+            raise RuntimeError(f"a task of a test exited with {e.code}") from e
-- 
2.43.0


From fe9b480c21dd2eb4f23a40a8788c0ed531e075c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 09/52] fix: CTRL-C did not stop a sequential run of
 synchronous tests

---
 booktest/testrun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index c2ce78d..6e7abe4 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -194,6 +194,9 @@ class TestRun:
                 CaseReports.write_case(
                     report_f, case_name, res, duration)
 
+                # let asyncio deliver the pending CTRL-C, if there is any
+                await asyncio.sleep(0)
+
                 # manage situations, where testing should
                 # be aborted
                 if request == UserRequest.ABORT or \
-- 
2.43.0


From f2e2e7b31832ae04f40cda8a69fc872c87bbb59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 10/52] fix: an aborted parallel run still executed every case,
 that was runnable

---
 booktest/runs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 7001016..96a32f8 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -209,7 +209,9 @@ class ParallelRunner:
 
             # start async jobs
             for name in planned_tasks:
-                if name not in self.done and name not in scheduled:
+                # start only, what can run immediately. everything handed over to the pool
+                # will run, even if the run is aborted
+                if len(scheduled) < self.process_count and not self._abort:
                     # allocate resources
                     self.reserved_resources |= self.resources[name]
                     scheduled[name] = self.pool.apply_async(self.run_batch, args=[name])
-- 
2.43.0


From 9611cfb0aaedb62da8bde8d8261686b6f55e8dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 11/52] fix: an interrupted parallel run ended with exit status
 0 or hung

---
 booktest/runs.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 96a32f8..3ff01cf 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -171,6 +171,7 @@ class ParallelRunner:
         self.resources = resources
         self.scheduled = {}
         self._abort = False
+        self._interrupted = False
         self.thread = None
         self.lock = threading.Lock()
 
@@ -201,6 +202,10 @@ class ParallelRunner:
         with self.lock:
             self._abort = True
 
+    def interrupt(self):
+        self._interrupted = True
+        self.abort()
+
     def thread_function(self):
         scheduled = dict()
 
@@ -282,10 +287,14 @@ class ParallelRunner:
         # the coverage measurement to succeed
         self._abort = True
         self.thread.join()
-        self.pool.close()
+        if self._interrupted:
+            # the interruption may have reached also the workers, whose
+            # jobs will never be done
+            self.pool.terminate()
+        else:
+            self.pool.close()
 
-        # for some reason, this will get stuck on keyboard interruptions
-        # yet, it is necessary to get coverage correctly
+        # this is necessary to get coverage correctly
         self.pool.join()
 
 
@@ -364,7 +373,8 @@ def parallel_run_tests(exp_dir,
                         duration)
 
             except KeyboardInterrupt as e:
-                runner.abort()
+                exit_code = -1
+                runner.interrupt()
                 for i in runner.todo - runner.done:
                     print(f"  {i}..interrupted")
 
@@ -377,6 +387,8 @@ def parallel_run_tests(exp_dir,
 
                 # add already processed, but not interacted reports
                 for case_name, result, duration in runner.done_reports():
+                    if result != TestResult.OK:
+                        exit_code = -1
                     report_case_begin(print,
                                       case_name,
                                       None,
-- 
2.43.0


From 7ffe2869a79a9fa1876824c552ecbe67cea53b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 12/52] fix: accepting an already accepted case destroyed its
 snapshots

---
 booktest/review.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/review.py b/booktest/review.py
index 423afe7..71d0a21 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -90,6 +90,10 @@ def freeze_case(exp_dir,
     out_dir_name = os.path.join(out_dir, case_name)
     out_file_name = os.path.join(out_dir, case_name + ".md")
 
+    if not path.exists(out_file_name) and path.exists(exp_file_name):
+        # already accepted
+        return
+
     # destroy old test related files
     if path.exists(exp_dir_name):
         shutil.rmtree(exp_dir_name)
-- 
2.43.0


From 0712d60209c27deeac5d815da8e8e5550ff300cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 13/52] fix: review crashed after an interrupted run

---
 booktest/review.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 71d0a21..d2ea3c8 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -281,7 +281,11 @@ def review(exp_dir,
            config,
            passed,
            cases=None):
-    metrics = Metrics.of_dir(out_dir)
+    try:
+        took_ms = Metrics.of_dir(out_dir).took_ms
+    except (OSError, ValueError):
+        # the run didn't get to its end
+        took_ms = 0
     report_txt = os.path.join(out_dir, "cases.txt")
     case_reports = CaseReports.of_file(report_txt)
 
@@ -330,6 +334,6 @@ def review(exp_dir,
     end_report(print,
                updated_case_reports.failed(),
                len(updated_case_reports.cases),
-               metrics.took_ms)
+               took_ms)
 
     return rv
-- 
2.43.0


From f76cf35b3d6bd7d5360721409d58980b282b7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 14/52] fix: tmsln() measured time by the system clock, that
 may be stepped

---
 booktest/testcaserun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 670beec..2f30dda 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -628,9 +628,9 @@ s
         NOTE: if max_ms is defined, this line will fail, if the test took more than
         max_ms milliseconds.
         """
-        before = time.time()
+        before = time.perf_counter()
         rv = f()
-        after = time.time()
+        after = time.perf_counter()
         ms = (after-before)*1000
         if ms > max_ms:
             self.fail().tln(f"{(after - before) * 1000:.2f} ms > "
-- 
2.43.0


From b936f26193f083a46f1274b9d5825d44956b94ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 15/52] fix: a cache kept over runs returned old results of
 dependencies, that a parallel run had replaced

---
 booktest/testrun.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 6e7abe4..eeb9ac5 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -43,6 +43,10 @@ def is_interrupt(e):
     return isinstance(e, KeyboardInterrupt)
 
 
+def file_version(stat):
+    return stat.st_ino, stat.st_mtime_ns, stat.st_size
+
+
 class TestRun:
     """
     Runs a selection of test cases from the test-object
@@ -73,17 +77,22 @@ class TestRun:
             # a bit hacky way for figuring out the dependencies
             if match_method(method, t[1]):
                 bin_path = self.tests.test_result_path(self.out_dir, t[0])
-                if bin_path in self.cache:
-                    rv = self.cache[bin_path]
-                elif path.exists(bin_path):
-                    with open(bin_path, 'rb') as file:
-                        rv = pickle.load(file)
-                    self.cache[bin_path] = rv
-                else:
+                if not path.exists(bin_path):
                     raise Exception(
                         f"case {case.name} dependency {t[0]}" +
                         f" missing in '{bin_path}'")
 
+                if bin_path in self.cache:
+                    version, rv = self.cache[bin_path]
+                    # another process may have stored a newer result
+                    if version == file_version(os.stat(bin_path)):
+                        return True, rv
+
+                with open(bin_path, 'rb') as file:
+                    version = file_version(os.fstat(file.fileno()))
+                    rv = pickle.load(file)
+                self.cache[bin_path] = (version, rv)
+
                 return True, rv
 
         return False, None
@@ -94,8 +103,9 @@ class TestRun:
         tmp_path = f"{bin_path}.new"
         with open(tmp_path, 'wb') as file:
             file.write(pickled)
+        version = file_version(os.stat(tmp_path))
         os.replace(tmp_path, bin_path)
-        self.cache[bin_path] = result
+        self.cache[bin_path] = (version, result)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
-- 
2.43.0


From 269833a2e95a955c0215ff0d7e29ad3b1a05fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 16/52] fix: a parallel run hung, if the report of a case could
 not be read

---
 booktest/runs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 3ff01cf..757885c 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -238,8 +238,12 @@ class ParallelRunner:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                # the report is missing or empty, if the job broke
-                case_reports = CaseReports.of_file(report_file).by_name(i)
+                # the report is missing, empty or broken, if the job broke
+                case_reports = []
+                try:
+                    case_reports = CaseReports.of_file(report_file).by_name(i)
+                except Exception:
+                    traceback.print_exc()
                 if len(case_reports) > 0:
                     reports.append(case_reports[0])
                 else:
-- 
2.43.0


From 11b5494c640a60ca770c80461b7ca59f6731c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:14 +0000
Subject: [PATCH 17/52] fix: review and forget crashed, if nothing had been run

---
 booktest/reports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/booktest/reports.py b/booktest/reports.py
index f4d97bb..ef353fe 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -174,6 +174,8 @@ class CaseReports:
         return self.to_file(report_file)
 
     def to_file(self, file):
+        # the directory is missing, if nothing has been run yet
+        os.makedirs(os.path.dirname(file), exist_ok=True)
         with open(file, "w") as f:
             for i in self.cases:
                 CaseReports.write_case(f,
-- 
2.43.0


From 70ad98925d15bc55f512da8fbedc3310bf485897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:39 +0000
Subject: [PATCH 18/52] fix: a parallel run interrupted at its end hung

---
 booktest/runs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 757885c..49d0b70 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -291,7 +291,7 @@ class ParallelRunner:
         # the coverage measurement to succeed
         self._abort = True
         self.thread.join()
-        if self._interrupted:
+        if self._interrupted or exc_type is KeyboardInterrupt:
             # the interruption may have reached also the workers, whose
             # jobs will never be done
             self.pool.terminate()
-- 
2.43.0


From a074824d02728a80a122103393ca4d872e197a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:04 +0000
Subject: [PATCH 19/52] fix: CTRL-C at the start of a parallel run hung

---
 booktest/runs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 49d0b70..de93db4 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -283,7 +283,9 @@ class ParallelRunner:
         self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=coverage.process_startup)
         self.pool.__enter__()
 
-        self.thread = threading.Thread(target=self.thread_function)
+        # a daemon, because CTRL-C may hit before or after the thread is guarded
+        # by __exit__()
+        self.thread = threading.Thread(target=self.thread_function, daemon=True)
         self.thread.start()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From 25dd8a73626165d7a102eaec0b5321e060a9504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:04 +0000
Subject: [PATCH 20/52] fix: environment was not restored after a failed set-up
 of env snapshots or mocks, unset variables crashed them

---
 booktest/env.py | 96 +++++++++++++++++++++++++------------------------
 1 file changed, 50 insertions(+), 46 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f21b060..2b38ea2 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -6,6 +6,14 @@ import json
 from booktest.coroutines import maybe_async_call
 
 
+def restore_env(old_env: dict):
+    for name, value in old_env.items():
+        if value is None:
+            os.environ.pop(name, None)
+        else:
+            os.environ[name] = value
+
+
 class SnapshotEnv:
 
     def __init__(self,
@@ -34,29 +42,29 @@ class SnapshotEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name in self.names:
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
-            if name in self.snaphots:
-                value = self.snaphots[name]
-                if value is None:
-                    del os.environ[name]
+        try:
+            for name in self.names:
+                old_value = os.environ.get(name)
+                self._old_env.setdefault(name, old_value)
+                if name in self.snaphots:
+                    value = self.snaphots[name]
+                    if value is None:
+                        os.environ.pop(name, None)
+                    else:
+                        os.environ[name] = self.snaphots[name]
+                    self.capture[name] = value
+                elif self.complete_snapshots or self.refresh_snapshots:
+                    self.capture[name] = old_value
                 else:
-                    os.environ[name] = self.snaphots[name]
-                self.capture[name] = value
-            elif self.complete_snapshots or self.refresh_snapshots:
-                self.capture[name] = old_value
-            else:
-                raise Exception(
-                    f"missing env snapshot '{name}'. "
-                    "try running booktest with '-s' flag to capture the missing snapshot")
+                    raise Exception(
+                        f"missing env snapshot '{name}'. "
+                        "try running booktest with '-s' flag to capture the missing snapshot")
+        except BaseException:
+            restore_env(self._old_env)
+            raise
 
     def stop(self):
-        for name, value in self._old_env.items():
-            if value is None:
-                del os.environ[name]
-            else:
-                os.environ[name] = self._old_env[name]
+        restore_env(self._old_env)
 
         with open(self.snapshot_out_path, "w") as f:
             json.dump(self.capture, f, indent=4)
@@ -110,22 +118,19 @@ class MockMissingEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+        try:
+            for name, value in self.env.items():
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
 
-            if old_value is None:
-                if value is None:
-                    del os.environ[name]
-                else:
+                if old_value is None and value is not None:
                     os.environ[name] = value
+        except BaseException:
+            restore_env(self._old_env)
+            raise
 
     def stop(self):
-        for name, value in self._old_env.items():
-            if value is None:
-                del os.environ[name]
-            else:
-                os.environ[name] = self._old_env[name]
+        restore_env(self._old_env)
 
     def __enter__(self):
         self.start()
@@ -162,23 +167,22 @@ class MockEnv:
             raise ValueError("already started")
 
         self._old_env = {}
-        for name, value in self.env.items():
-            old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+        try:
+            for name, value in self.env.items():
+                old_value = os.environ.get(name)
+                self._old_env[name] = old_value
 
-            if value is None:
-                if name in os.environ:
-                    del os.environ[name]
-            else:
-                os.environ[name] = value
+                if value is None:
+                    if name in os.environ:
+                        del os.environ[name]
+                else:
+                    os.environ[name] = value
+        except BaseException:
+            self.stop()
+            raise
 
     def stop(self):
-        for name, value in self._old_env.items():
-            if value is None:
-                if name in os.environ:
-                    del os.environ[name]
-            else:
-                os.environ[name] = self._old_env[name]
+        restore_env(self._old_env)
         self._old_env = None
 
     def __enter__(self):
-- 
2.43.0


From 371ab67cc5782f8a828fd13eb1e75ad7099e59e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:04 +0000
Subject: [PATCH 21/52] fix: mocks of missing environment variables were
 applied, while capturing snapshots

---
 booktest/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index 2b38ea2..032c5c6 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -123,7 +123,7 @@ class MockMissingEnv:
                 old_value = os.environ.get(name)
                 self._old_env[name] = old_value
 
-                if old_value is None and value is not None:
+                if self._do_mock and old_value is None and value is not None:
                     os.environ[name] = value
         except BaseException:
             restore_env(self._old_env)
-- 
2.43.0


From 57de644eb34d70c37c50f70a36fa7d464b411fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:04 +0000
Subject: [PATCH 22/52] fix: of several snapshot_env decorators of a test only
 the outermost kept its snapshots

---
 booktest/env.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index 032c5c6..013b275 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -66,8 +66,15 @@ class SnapshotEnv:
     def stop(self):
         restore_env(self._old_env)
 
+        # several decorators may snapshot different variables of the same test
+        capture = {}
+        if os.path.exists(self.snapshot_out_path):
+            with open(self.snapshot_out_path, "r") as f:
+                capture = json.load(f)
+        capture.update(self.capture)
+
         with open(self.snapshot_out_path, "w") as f:
-            json.dump(self.capture, f, indent=4)
+            json.dump(capture, f, indent=4)
 
     def t_snapshots(self):
         self.t.h1("env snaphots:")
-- 
2.43.0


From 37ead71bace42d33f34cb77282091d94827114bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:58 +0000
Subject: [PATCH 23/52] fix: snapshotted and mocked functions were not restored
 exactly, or not at all after an error

---
 booktest/functions.py | 68 ++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 1cdb85a..b5db7e1 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -96,14 +96,47 @@ class FunctionSnapshotter:
         return str(self.func)
 
 
+_MISSING = object()
+
+
 def set_function(func, value):
+    """ sets the function and returns the original attribute for restore_functions() """
     target = None
     if hasattr(func, "__self__"):
         target = func.__self__
     elif hasattr(func, "__module__"):
         target = sys.modules[func.__module__]
+        # functions of classes are set in the class
+        for i in getattr(func, "__qualname__", "").split(".")[:-1]:
+            owner = getattr(target, i, None)
+            if not isinstance(owner, type):
+                break
+            target = owner
     name = func.__name__
+    original = getattr(target, "__dict__", {}).get(name, _MISSING)
     setattr(target, name, value)
+    return target, name, original
+
+
+def set_functions(values):
+    originals = []
+
+    try:
+        for func, value in values:
+            originals.append(set_function(func, value))
+    except BaseException:
+        restore_functions(originals)
+        raise
+
+    return originals
+
+
+def restore_functions(originals):
+    for target, name, original in reversed(originals):
+        if original is _MISSING:
+            delattr(target, name)
+        else:
+            setattr(target, name, original)
 
 
 class SnapshotFunctions:
@@ -126,7 +159,7 @@ class SnapshotFunctions:
 
         self.snapshots = None
         self.calls = None
-        self.snapshotters = None
+        self.original_funcs = None
 
     def snapshot(self, func, *args, **kwargs):
         call = FunctionCall.from_properties(func, args, kwargs)
@@ -161,21 +194,14 @@ class SnapshotFunctions:
                     snapshots.append(
                         FunctionCallSnapshot.from_json_object(json.load(f)))
 
-        snapshotters = []
-
-        for func in self.snapshot_funcs:
-            snapshotter = FunctionSnapshotter(self, func)
-            set_function(func, snapshotter)
-            snapshotters.append(snapshotter)
+        self.original_funcs = set_functions(
+            [(func, FunctionSnapshotter(self, func)) for func in self.snapshot_funcs])
 
         self.snapshots = snapshots
         self.calls = []
-        self.snapshotters = snapshotters
 
     def stop(self):
-        for snapshotter in self.snapshotters:
-            func = snapshotter.func
-            set_function(func, func)
+        restore_functions(self.original_funcs)
 
         os.makedirs(self.mock_out_path, exist_ok=True)
 
@@ -185,7 +211,7 @@ class SnapshotFunctions:
             with open(os.path.join(self.mock_out_path, f"{name}.json"), "w") as f:
                 json.dump(snapshot.json_object(), f, indent=4)
 
-        self.snapshotters = None
+        self.original_funcs = None
         self.snapshots = None
         self.calls = None
 
@@ -200,8 +226,10 @@ class SnapshotFunctions:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.t_snapshots()
-        self.stop()
+        try:
+            self.t_snapshots()
+        finally:
+            self.stop()
 
 
 def snapshot_functions(*snapshot_funcs):
@@ -238,18 +266,10 @@ class MockFunctions:
         if self._original_funcs is not None:
             raise RuntimeError('FunctionSnapshots has already been started')
 
-        original_funcs = []
-
-        for func, mock in self.mock_funcs.items():
-            set_function(func, mock)
-            original_funcs.append(func)
-
-        self._original_funcs = original_funcs
+        self._original_funcs = set_functions(self.mock_funcs.items())
 
     def stop(self):
-        for func in self._original_funcs:
-            set_function(func, func)
-
+        restore_functions(self._original_funcs)
         self._original_funcs = None
 
     def __enter__(self):
-- 
2.43.0


From 11f9cd2d1532fccf6fc8ebe3b85effa152deb32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:58 +0000
Subject: [PATCH 24/52] fix: a test modifying the result of a snapshotted
 function changed its snapshot

---
 booktest/functions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index b5db7e1..bb37720 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -168,7 +168,8 @@ class SnapshotFunctions:
             if snapshot.match(call):
                 if snapshot not in self.calls:
                     self.calls.append(snapshot)
-                return snapshot.result
+                # the test may modify the result
+                return copy.deepcopy(snapshot.result)
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for function call {call.func()} - {call.hash}. "
@@ -176,9 +177,12 @@ class SnapshotFunctions:
 
         rv = func(*args, **kwargs)
 
-        # remove old version, it may have been timeout
+        # the result is stored as it is now, the test may modify it
+        snapshot = FunctionCallSnapshot(call, json.loads(json.dumps(rv)))
+
+        # replace old version, it may have been timeout
         self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, rv))
+        self.calls.append(snapshot)
 
         return rv
 
-- 
2.43.0


From 8655b760c29435948e05c1d5dd8ff1c943f3df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:58 +0000
Subject: [PATCH 25/52] fix: capturing a function call again or in several
 threads changed the order of the snapshots or lost some

---
 booktest/functions.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index bb37720..08faa27 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -5,6 +5,7 @@ import os
 import pickle
 import json
 import sys
+import threading
 
 from booktest import TestCaseRun
 from booktest.coroutines import maybe_async_call
@@ -160,14 +161,16 @@ class SnapshotFunctions:
         self.snapshots = None
         self.calls = None
         self.original_funcs = None
+        self.lock = threading.Lock()
 
     def snapshot(self, func, *args, **kwargs):
         call = FunctionCall.from_properties(func, args, kwargs)
 
         for snapshot in reversed(self.snapshots):
             if snapshot.match(call):
-                if snapshot not in self.calls:
-                    self.calls.append(snapshot)
+                with self.lock:
+                    if snapshot not in self.calls:
+                        self.calls.append(snapshot)
                 # the test may modify the result
                 return copy.deepcopy(snapshot.result)
 
@@ -181,8 +184,11 @@ class SnapshotFunctions:
         snapshot = FunctionCallSnapshot(call, json.loads(json.dumps(rv)))
 
         # replace old version, it may have been timeout
-        self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(snapshot)
+        with self.lock:
+            if snapshot in self.calls:
+                self.calls[self.calls.index(snapshot)] = snapshot
+            else:
+                self.calls.append(snapshot)
 
         return rv
 
-- 
2.43.0


From f33a7abccd8a005af6c02bdce9a56f269456c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 26/52] fix: snapshotted functions of different modules or
 objects with the same name shared their results

---
 booktest/functions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 08faa27..dce9be1 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -42,9 +42,9 @@ class FunctionCall:
         return rv
 
     @staticmethod
-    def from_properties(func, args, kwargs):
+    def from_properties(func, args, kwargs, name=None):
         json_object = {
-            "func": str(func.__qualname__),
+            "func": str(name or func.__qualname__),
             "args": list(args),
             "kwargs": dict(kwargs)
         }
@@ -163,8 +163,15 @@ class SnapshotFunctions:
         self.original_funcs = None
         self.lock = threading.Lock()
 
+    def func_name(self, func):
+        """ functions of different modules or objects may have the same name """
+        same_name = [i for i in self.snapshot_funcs if i.__qualname__ == func.__qualname__]
+        index = same_name.index(func) if func in same_name else 0
+
+        return func.__qualname__ if index == 0 else f"{func.__qualname__}#{index}"
+
     def snapshot(self, func, *args, **kwargs):
-        call = FunctionCall.from_properties(func, args, kwargs)
+        call = FunctionCall.from_properties(func, args, kwargs, self.func_name(func))
 
         for snapshot in reversed(self.snapshots):
             if snapshot.match(call):
-- 
2.43.0


From 63dd02328e0ee9b869793bf3a7da869b78fefa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 27/52] fix: replayed requests responses had case-sensitive
 headers, so that redirects were not followed, and no url, reason or binary
 content

---
 booktest/requests.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 1814743..5de18f4 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -6,6 +6,7 @@ import types
 import booktest as bt
 import requests
 from requests import adapters
+from requests.structures import CaseInsensitiveDict
 import json
 import threading
 import sys
@@ -126,6 +127,22 @@ class RequestKey:
         return type(other) == RequestKey and self.hash == other.hash
 
 
+def response_to_json_object(response: requests.Response):
+    rv = {
+        "headers": dict(response.headers),
+        "statusCode": response.status_code,
+        "encoding": response.encoding
+    }
+    if response.reason is not None:
+        rv["reason"] = response.reason
+    try:
+        rv["content"] = response.content.decode()
+    except UnicodeDecodeError:
+        rv["contentBase64"] = base64.b64encode(response.content).decode("ascii")
+
+    return rv
+
+
 class RequestSnapshot:
 
     def __init__(self,
@@ -133,6 +150,8 @@ class RequestSnapshot:
                  response: requests.Response):
         self.request = request
         self.response = response
+        # as it is now, the test may modify the response
+        self.response_json = response_to_json_object(response)
 
     def match(self, request: RequestKey):
         return self.request == request
@@ -142,27 +161,25 @@ class RequestSnapshot:
         response_json = json_object["response"]
 
         response = requests.Response()
-        response.headers = response_json["headers"]
+        response.headers = CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
+        response.reason = response_json.get("reason")
         response.encoding = response_json["encoding"]
-        response._content = response_json["content"].encode()
+        if "contentBase64" in response_json:
+            response._content = base64.b64decode(response_json["contentBase64"])
+        else:
+            response._content = response_json["content"].encode()
+        response._content_consumed = True
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
 
     def json_object(self, hide_details):
-        rv = {
+        return {
             "request": self.request.to_json_object(hide_details),
-            "response": {
-                "headers": dict(self.response.headers),
-                "statusCode": self.response.status_code,
-                "encoding": self.response.encoding,
-                "content": self.response.content.decode()
-            }
+            "response": self.response_json
         }
 
-        return rv
-
     def hash(self):
         return self.request.hash
 
@@ -219,6 +236,9 @@ class SnapshotAdapter(adapters.BaseAdapter):
         if rv is None:
             rv = adapters.HTTPAdapter().send(request)
             self.requests.append(RequestSnapshot(key, rv))
+        else:
+            rv.url = request.url
+            rv.request = request
 
         return rv
 
-- 
2.43.0


From 690261d538b84e2a95fc48bebfeef29af1c9f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 28/52] fix: capturing requests ignored the caller's options,
 failed on slow concurrent requests and left get_adapter replaced

---
 booktest/requests.py | 91 ++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 36 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 5de18f4..3ca0e23 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -1,4 +1,3 @@
-import contextlib
 import functools
 import hashlib
 import os
@@ -9,7 +8,6 @@ from requests import adapters
 from requests.structures import CaseInsensitiveDict
 import json
 import threading
-import sys
 import six
 import copy
 import base64
@@ -230,11 +228,15 @@ class SnapshotAdapter(adapters.BaseAdapter):
 
         return key, None
 
-    def send(self, request, **kwargs):
+    def send(self, request, real_get_adapter=None, **kwargs):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = adapters.HTTPAdapter().send(request)
+            if real_get_adapter is not None:
+                adapter = real_get_adapter(request.url)
+            else:
+                adapter = adapters.HTTPAdapter()
+            rv = adapter.send(request, **kwargs)
             self.requests.append(RequestSnapshot(key, rv))
         else:
             rv.url = request.url
@@ -243,29 +245,47 @@ class SnapshotAdapter(adapters.BaseAdapter):
         return rv
 
 
+class SessionAdapter(adapters.BaseAdapter):
+    """ uses the session's own adapter for the requests, that are really made """
+
+    def __init__(self, snapshot_adapter, real_get_adapter):
+        self.snapshot_adapter = snapshot_adapter
+        self.real_get_adapter = real_get_adapter
+
+    def send(self, request, **kwargs):
+        rv = self.snapshot_adapter.send(request, self.real_get_adapter, **kwargs)
+        # authentication may send the request again
+        rv.connection = self
+
+        return rv
+
+
 _original_send = requests.Session.send
 
-# NOTE(phodge): we need to use an RLock (reentrant lock) here because
-# requests.Session.send() is reentrant. See further comments where we
-# monkeypatch get_adapter()
+# guards the replacing of the sessions' get_adapter(). This is not held, while
+# requests are made, because they may be slow
 _send_lock = threading.RLock()
 
 
-@contextlib.contextmanager
-def threading_rlock(timeout):
-    kwargs = {}
-    if sys.version_info.major >= 3:
-        # python2 doesn't support the timeout argument
-        kwargs['timeout'] = timeout
+class ReplacedGetAdapter:
+    """
+    Replaces session's get_adapter(), while the session is sending.
+    A session may be sending in several threads and because of e.g. redirects
+    also recursively
+    """
 
-    if not _send_lock.acquire(**kwargs):
-        m = "Could not acquire threading lock - possible deadlock scenario"
-        raise Exception(m)
+    def __init__(self, session, get_adapter):
+        self.session = session
+        self.original = session.__dict__.get("get_adapter")
+        self.real_get_adapter = session.get_adapter
+        self.users = 0
+        _set_method(session, "get_adapter", get_adapter)
 
-    try:
-        yield
-    finally:
-        _send_lock.release()
+    def restore(self):
+        if self.original is None:
+            del self.session.get_adapter
+        else:
+            self.session.get_adapter = self.original
 
 
 def _is_bound_method(method):
@@ -306,7 +326,6 @@ class SnapshotRequests:
         self.mock_out_file = t.file(".requests.json")
         self._mock_target = requests.Session
         self._last_send = None
-        self._last_get_adapter = None
         self._lose_request_details = lose_request_details
         self._ignore_headers = ignore_headers
         self._encode_body = encode_body
@@ -346,25 +365,25 @@ class SnapshotRequests:
 
         # backup last `send` for restoration on `self.stop`
         self._last_send = self._mock_target.send
-        self._last_get_adapter = self._mock_target.get_adapter
+        replaced = {}
 
         def _fake_get_adapter(session, url):
-            return self._adapter
+            return SessionAdapter(self._adapter, replaced[id(session)].real_get_adapter)
 
         def _fake_send(session, request, **kwargs):
-            with threading_rlock(timeout=10):
-                _set_method(session, "get_adapter", _fake_get_adapter)
-
-                try:
-                    return _original_send(session, request, **kwargs)
-                finally:
-                    # restore get_adapter
-                    _set_method(session, "get_adapter", self._last_get_adapter)
-
-            if isinstance(self._mock_target, type):
-                return self._last_send(session, request, **kwargs)
-            else:
-                return self._last_send(request, **kwargs)
+            with _send_lock:
+                if id(session) not in replaced:
+                    replaced[id(session)] = ReplacedGetAdapter(session, _fake_get_adapter)
+                replaced[id(session)].users += 1
+
+            try:
+                return _original_send(session, request, **kwargs)
+            finally:
+                # restore get_adapter
+                with _send_lock:
+                    replaced[id(session)].users -= 1
+                    if replaced[id(session)].users == 0:
+                        replaced.pop(id(session)).restore()
 
         _set_method(self._mock_target, "send", _fake_send)
 
-- 
2.43.0


From 9ea8aa0d16d814319a1f718cfccd612d971f1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 29/52] fix: the body of a request, that cannot be snapshotted,
 was written to the test's output

---
 booktest/requests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 3ca0e23..7f5b69f 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -29,7 +29,8 @@ def default_encode_body(body, _url, _method):
         if isinstance(body, bytes):
             return base64.b64encode(body).decode("ascii")
         else:
-            raise ValueError(f"unexpected body {body} of type {type(body)}")
+            # the body may contain secrets, and it must not end in the test's output
+            raise ValueError(f"unexpected body of type {type(body)}")
 
 
 class RequestKey:
-- 
2.43.0


From 87f6a8521f5c07e4db00d7e3cf064aea12aa427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 30/52] fix: snapshots of same requests made concurrently
 replaced each other

---
 booktest/requests.py | 73 ++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 7f5b69f..f52a6d6 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -148,9 +148,11 @@ class RequestSnapshot:
                  request: RequestKey,
                  response: requests.Response):
         self.request = request
+        # the request without its order among the same requests
+        self.base = request
         self.response = response
         # as it is now, the test may modify the response
-        self.response_json = response_to_json_object(response)
+        self.response_json = None if response is None else response_to_json_object(response)
 
     def match(self, request: RequestKey):
         return self.request == request
@@ -201,6 +203,7 @@ class SnapshotAdapter(adapters.BaseAdapter):
         self.json_to_hash = json_to_hash
         self.encode_body = encode_body
         self.requests = []
+        self.lock = threading.RLock()
 
     def mark_order(self, key: RequestKey):
         for i in self.requests:
@@ -215,30 +218,62 @@ class SnapshotAdapter(adapters.BaseAdapter):
                                       self.json_to_hash,
                                       self.encode_body)
 
-        key = self.mark_order(key)
-
-        for snapshot in reversed(self.snapshots):
-            if snapshot.match(key):
-                if snapshot not in self.requests:
-                    self.requests.append(snapshot)
-                return key, snapshot.response
-
-        if not self.capture_snapshots:
-            raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
-                             f"try running booktest with '-s' flag to capture the missing snapshot")
-
-        return key, None
+        with self.lock:
+            base = key
+            key = self.mark_order(key)
+
+            for snapshot in reversed(self.snapshots):
+                if snapshot.match(key):
+                    if snapshot not in self.requests:
+                        self.requests.append(snapshot)
+                    return snapshot
+
+            if not self.capture_snapshots:
+                raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
+                                 f"try running booktest with '-s' flag to capture the missing snapshot")
+
+            # same requests may be made before this is answered
+            snapshot = RequestSnapshot(key, None)
+            snapshot.base = base
+            self.requests.append(snapshot)
+            return snapshot
+
+    def answer(self, snapshot, response):
+        answered = RequestSnapshot(snapshot.request, response)
+
+        with self.lock:
+            snapshot.response = response
+            snapshot.response_json = answered.response_json
+
+    def forget(self, snapshot):
+        """ forgets a failed request, the same requests made after it take its place """
+        with self.lock:
+            at = [id(i) for i in self.requests].index(id(snapshot))
+            key = snapshot.request
+            del self.requests[at]
+            for i in self.requests[at:]:
+                if i.base == snapshot.base:
+                    i.request, key = key, i.request
+
+    def answered(self):
+        with self.lock:
+            return [i for i in self.requests if i.response is not None]
 
     def send(self, request, real_get_adapter=None, **kwargs):
-        key, rv = self.lookup_snapshot(request)
+        snapshot = self.lookup_snapshot(request)
 
+        rv = snapshot.response
         if rv is None:
             if real_get_adapter is not None:
                 adapter = real_get_adapter(request.url)
             else:
                 adapter = adapters.HTTPAdapter()
-            rv = adapter.send(request, **kwargs)
-            self.requests.append(RequestSnapshot(key, rv))
+            try:
+                rv = adapter.send(request, **kwargs)
+                self.answer(snapshot, rv)
+            except BaseException:
+                self.forget(snapshot)
+                raise
         else:
             rv.url = request.url
             rv.request = request
@@ -400,7 +435,7 @@ class SnapshotRequests:
 
         # let's store everything in one file to avoid spamming git
         stored = {}
-        for snapshot in self._adapter.requests:
+        for snapshot in self._adapter.answered():
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
 
@@ -409,7 +444,7 @@ class SnapshotRequests:
 
     def t_snapshots(self):
         self.t.h1("request snaphots:")
-        for i in sorted(self._adapter.requests, key=lambda i: (i.request.url(), i.hash())):
+        for i in sorted(self._adapter.answered(), key=lambda i: (i.request.url(), i.hash())):
             self.t.tln(f" * {i.request.url()} - {i.hash()}")
 
     def __enter__(self):
-- 
2.43.0


From 597ae7beef06092e3e59a0915fbf68faa43e071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 31/52] fix: capturing or replaying httpx failed on binary
 content, streamed requests or responses, and added headers to the replayed
 ones

---
 booktest/httpx.py | 66 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c59a675..fa3a855 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -120,13 +120,44 @@ class RequestKey:
         return type(other) == RequestKey and self.hash == other.hash
 
 
+def response_to_json_object(response: httpx.Response):
+    payload = response.content
+
+    # remove possible compression
+    headers = dict(response.headers)
+    if "content-encoding" in headers:
+        del headers["content-encoding"]
+
+    return {
+        "headers": headers,
+        "statusCode": response.status_code,
+        "content": base64.b64encode(payload).decode("ascii")
+    }
+
+
+def unread_response(response: httpx.Response):
+    headers = response.headers.copy()
+    # the content has been decoded
+    headers.pop("content-encoding", None)
+
+    return httpx.Response(response.status_code,
+                          headers=headers,
+                          stream=ByteStream(response.content),
+                          extensions=response.extensions)
+
+
 class RequestSnapshot:
 
     def __init__(self,
                  request: RequestKey,
-                 response: httpx.Response):
+                 response: httpx.Response,
+                 response_json=None):
         self.request = request
         self.response = response
+        # as it is now, the test may modify the response
+        if response_json is None:
+            response_json = response_to_json_object(response)
+        self.response_json = response_json
 
     def match(self, request: RequestKey):
         return self.request == request
@@ -137,34 +168,23 @@ class RequestSnapshot:
                          json_to_hash=None):
         response_json = json_object["response"]
 
-        content = base64.b64decode(response_json["content"].encode("ascii")).decode("utf-8")
+        content = base64.b64decode(response_json["content"].encode("ascii"))
 
+        # given as a stream to not add headers, that the server did not send
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-                                  content=content)
+                                  stream=ByteStream(content))
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
-                               response)
+                               response,
+                               response_json)
 
     def json_object(self, hide_details):
-        payload = self.response.content
-
-        # remove possible compression
-        headers = dict(self.response.headers)
-        if "content-encoding" in headers:
-            del headers["content-encoding"]
-
-        rv = {
+        return {
             "request": self.request.to_json_object(hide_details),
-            "response": {
-                "headers": headers,
-                "statusCode": self.response.status_code,
-                "content": base64.b64encode(payload).decode("ascii")
-            }
+            "response": self.response_json
         }
 
-        return rv
-
     def hash(self):
         return self.request.hash
 
@@ -250,16 +270,24 @@ class SnapshotHttpx:
 
         if rv is None:
             rv = self._real_handle_request(transport, request)
+            # the test may not read the response
+            rv.read()
             self.requests.append(RequestSnapshot(key, rv))
+            rv = unread_response(rv)
 
         return rv
 
     async def handle_async_request(self, transport: httpx.AsyncHTTPTransport, request: httpx.Request):
+        # lookup needs the body of the request
+        await request.aread()
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
             rv = await self._real_handle_async_request(transport, request)
+            # the test may not read the response
+            await rv.aread()
             self.requests.append(RequestSnapshot(key, rv))
+            rv = unread_response(rv)
 
         return rv
 
-- 
2.43.0


From 7c22ec9b13b3948fca6d8e579dd1db1e5cc9832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 32/52] fix: snapshots of same httpx requests made concurrently
 replaced each other

---
 booktest/httpx.py | 96 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 28 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index fa3a855..b0733a5 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -153,9 +153,11 @@ class RequestSnapshot:
                  response: httpx.Response,
                  response_json=None):
         self.request = request
+        # the request without its order among the same requests
+        self.base = request
         self.response = response
         # as it is now, the test may modify the response
-        if response_json is None:
+        if response_json is None and response is not None:
             response_json = response_to_json_object(response)
         self.response_json = response_json
 
@@ -234,6 +236,7 @@ class SnapshotHttpx:
 
         self.snapshots = snapshots
         self.requests = []
+        self.lock = threading.RLock()
 
         self._real_handle_request = None
         self._real_handle_async_request = None
@@ -251,43 +254,80 @@ class SnapshotHttpx:
                                       self._json_to_hash,
                                       self._encode_body)
 
-        key = self.mark_order(key)
-
-        for snapshot in reversed(self.snapshots):
-            if snapshot.match(key):
-                if snapshot not in self.requests:
-                    self.requests.append(snapshot)
-                return key, snapshot.response
-
-        if not self.capture_snapshots:
-            raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
-                             f"try running booktest with '-s' flag to capture the missing snapshot")
-
-        return key, None
+        with self.lock:
+            base = key
+            key = self.mark_order(key)
+
+            for snapshot in reversed(self.snapshots):
+                if snapshot.match(key):
+                    if snapshot not in self.requests:
+                        self.requests.append(snapshot)
+                    return snapshot
+
+            if not self.capture_snapshots:
+                raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
+                                 f"try running booktest with '-s' flag to capture the missing snapshot")
+
+            # same requests may be made before this is answered
+            snapshot = RequestSnapshot(key, None)
+            snapshot.base = base
+            self.requests.append(snapshot)
+            return snapshot
+
+    def answer(self, snapshot, response):
+        answered = RequestSnapshot(snapshot.request, response)
+
+        with self.lock:
+            snapshot.response = response
+            snapshot.response_json = answered.response_json
+
+        return unread_response(response)
+
+    def forget(self, snapshot):
+        """ forgets a failed request, the same requests made after it take its place """
+        with self.lock:
+            at = [id(i) for i in self.requests].index(id(snapshot))
+            key = snapshot.request
+            del self.requests[at]
+            for i in self.requests[at:]:
+                if i.base == snapshot.base:
+                    i.request, key = key, i.request
+
+    def answered(self):
+        with self.lock:
+            return [i for i in self.requests if i.response is not None]
 
     def handle_request(self, transport: httpx.HTTPTransport, request: httpx.Request):
-        key, rv = self.lookup_snapshot(request)
+        snapshot = self.lookup_snapshot(request)
 
+        rv = snapshot.response
         if rv is None:
-            rv = self._real_handle_request(transport, request)
-            # the test may not read the response
-            rv.read()
-            self.requests.append(RequestSnapshot(key, rv))
-            rv = unread_response(rv)
+            try:
+                rv = self._real_handle_request(transport, request)
+                # the test may not read the response
+                rv.read()
+                rv = self.answer(snapshot, rv)
+            except BaseException:
+                self.forget(snapshot)
+                raise
 
         return rv
 
     async def handle_async_request(self, transport: httpx.AsyncHTTPTransport, request: httpx.Request):
         # lookup needs the body of the request
         await request.aread()
-        key, rv = self.lookup_snapshot(request)
+        snapshot = self.lookup_snapshot(request)
 
+        rv = snapshot.response
         if rv is None:
-            rv = await self._real_handle_async_request(transport, request)
-            # the test may not read the response
-            await rv.aread()
-            self.requests.append(RequestSnapshot(key, rv))
-            rv = unread_response(rv)
+            try:
+                rv = await self._real_handle_async_request(transport, request)
+                # the test may not read the response
+                await rv.aread()
+                rv = self.answer(snapshot, rv)
+            except BaseException:
+                self.forget(snapshot)
+                raise
 
         return rv
 
@@ -329,7 +369,7 @@ class SnapshotHttpx:
 
         # let's store everything in one file to avoid spamming git
         stored = {}
-        for snapshot in self.requests:
+        for snapshot in self.answered():
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
 
@@ -338,7 +378,7 @@ class SnapshotHttpx:
 
     def t_snapshots(self):
         self.t.h1("httpx snaphots:")
-        for i in sorted(self.requests, key=lambda i: (i.request.url(), i.hash())):
+        for i in sorted(self.answered(), key=lambda i: (i.request.url(), i.hash())):
             self.t.tln(f" * {i.request.url()} - {i.hash()}")
 
     def __enter__(self):
-- 
2.43.0


From 6c74b85e23a18d092b163eac0bab47ba42322409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:51 +0000
Subject: [PATCH 33/52] fix: Ctrl-C at a parallel run's review lost the
 reported result

---
 booktest/runs.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index de93db4..ecba7c6 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -357,14 +357,23 @@ def parallel_run_tests(exp_dir,
                 while runner.has_next():
                     case_name, result, duration = runner.next_report()
 
-                    reviewed_result, request = \
-                        report_case(print,
-                                    exp_dir,
-                                    out_dir,
-                                    case_name,
-                                    result,
-                                    duration,
-                                    config)
+                    try:
+                        reviewed_result, request = \
+                            report_case(print,
+                                        exp_dir,
+                                        out_dir,
+                                        case_name,
+                                        result,
+                                        duration,
+                                        config)
+                    except KeyboardInterrupt:
+                        # the case was run and reported, only its review
+                        # was interrupted
+                        record_case(
+                            case_name,
+                            result,
+                            duration)
+                        raise
 
                     if request == UserRequest.ABORT or \
                        (fail_fast and reviewed_result != TestResult.OK):
@@ -395,6 +404,10 @@ def parallel_run_tests(exp_dir,
                 for case_name, result, duration in runner.done_reports():
                     if result != TestResult.OK:
                         exit_code = -1
+                    record_case(
+                        case_name,
+                        result,
+                        duration)
                     report_case_begin(print,
                                       case_name,
                                       None,
@@ -404,10 +417,6 @@ def parallel_run_tests(exp_dir,
                                        result,
                                        duration,
                                        False)
-                    record_case(
-                        case_name,
-                        result,
-                        duration)
 
                 merged = {}
                 for batch_dir in runner.batch_dirs():
-- 
2.43.0


From cef9604bc58ccba41ae3c0a821fc6be58dbfe9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:56 +0000
Subject: [PATCH 34/52] fix: Ctrl-C killed parallel jobs before their process
 tear-down

---
 booktest/runs.py | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index ecba7c6..979620d 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -96,6 +96,10 @@ class RunBatch:
         except Exception as e:
             print(f"{case} failed with {e}")
             traceback.print_exc()
+        except KeyboardInterrupt:
+            # the main process takes care of the interruption. the job has to
+            # be finished, because the main process waits for it
+            pass
         finally:
             output.close()
 
@@ -107,6 +111,10 @@ def case_batch_dir_and_report_file(batches_dir, name):
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
 
+# how long the jobs have time to tear down after CTRL-C
+INTERRUPTED_JOB_TIMEOUT = 10
+
+
 class ParallelRunner:
 
     def __init__(self,
@@ -207,7 +215,7 @@ class ParallelRunner:
         self.abort()
 
     def thread_function(self):
-        scheduled = dict()
+        scheduled = self.scheduled
 
         while len(self.done) < len(self.todo) and not self._abort:
             planned_tasks = self.plan(self.todo - self.done - scheduled.keys())
@@ -286,22 +294,41 @@ class ParallelRunner:
         # a daemon, because CTRL-C may hit before or after the thread is guarded
         # by __exit__()
         self.thread = threading.Thread(target=self.thread_function, daemon=True)
+
+    def start(self):
         self.thread.start()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         # it's important to wait the jobs for
         # the coverage measurement to succeed
         self._abort = True
-        self.thread.join()
-        if self._interrupted or exc_type is KeyboardInterrupt:
-            # the interruption may have reached also the workers, whose
-            # jobs will never be done
+        try:
+            if self.thread.ident is not None:
+                self.thread.join()
+            if not self._interrupted and exc_type is not KeyboardInterrupt:
+                self.pool.close()
+
+                # this is necessary to get coverage correctly
+                self.pool.join()
+                return
+        except KeyboardInterrupt:
+            self.terminate()
+            raise
+
+        self.terminate()
+
+    def terminate(self):
+        # the interruption may have reached also the workers. let their jobs
+        # tear down, but don't count on it, because the job of a dead worker
+        # is never done
+        try:
+            deadline = time.monotonic() + INTERRUPTED_JOB_TIMEOUT
+            while time.monotonic() < deadline and \
+                    not all(i.ready() for i in self.scheduled.values()):
+                time.sleep(0.01)
+        finally:
             self.pool.terminate()
-        else:
-            self.pool.close()
-
-        # this is necessary to get coverage correctly
-        self.pool.join()
+            self.pool.join()
 
 
 def parallel_run_tests(exp_dir,
@@ -354,6 +381,7 @@ def parallel_run_tests(exp_dir,
 
         with runner:
             try:
+                runner.start()
                 while runner.has_next():
                     case_name, result, duration = runner.next_report()
 
-- 
2.43.0


From b019d2cf1e698f2c9516ae7bfb54dda8fe42b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 35/52] fix: tests of a directory, that could not be read, were
 skipped silently

---
 booktest/detection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index a30331f..7c0284c 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -97,10 +97,15 @@ def include_sys_path():
         sys.path.insert(0, os.path.curdir)
 
 
+def raise_error(error):
+    # os.walk() skips by default the directories, that cannot be read
+    raise error
+
+
 def detect_setup(path):
     setup = None
     if os.path.exists(path):
-        for root, dirs, files in os.walk(path):
+        for root, dirs, files in os.walk(path, onerror=raise_error):
             for f in files:
                 if f == BOOKTEST_SETUP_FILENAME:
                     setup = parse_booktest_setup(root, f)
@@ -111,7 +116,7 @@ def detect_setup(path):
 def detect_tests(path):
     tests = []
     if os.path.exists(path):
-        for root, dirs, files in os.walk(path):
+        for root, dirs, files in os.walk(path, onerror=raise_error):
             for f in files:
                 if f.endswith("_test.py") or f.endswith("_book.py") or f.endswith("_suite.py") or \
                    (f.startswith("test_") and f.endswith(".py")):
-- 
2.43.0


From 249fac0cd43240ce6d628295a6b18e91a0ff3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 36/52] fix: Ctrl-C or a kill of a review or forget lost
 recorded results

---
 booktest/reports.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index ef353fe..c6d9a2a 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -176,11 +176,14 @@ class CaseReports:
     def to_file(self, file):
         # the directory is missing, if nothing has been run yet
         os.makedirs(os.path.dirname(file), exist_ok=True)
-        with open(file, "w") as f:
+        # write aside and rename to never lose results, when interrupted
+        new_file = f"{file}.new"
+        with open(new_file, "w") as f:
             for i in self.cases:
                 CaseReports.write_case(f,
                                        i[0],
                                        i[1],
                                        i[2])
+        os.replace(new_file, file)
 
 
-- 
2.43.0


From bc977b7eeccdd5b85149fa9f2c069bf5e1f6b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:47 +0000
Subject: [PATCH 37/52] fix: recorded results were lost, if a run was killed at
 its start

---
 booktest/reports.py |  4 ++++
 booktest/runs.py    |  9 +++------
 booktest/testrun.py | 14 ++++++--------
 3 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index c6d9a2a..46b27f1 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -107,6 +107,10 @@ class CaseReports:
     def by_name(self, name):
         return list([i for i in self.cases if i[0] == name])
 
+    def without(self, names):
+        """ reports without the results of the named cases """
+        return CaseReports([i for i in self.cases if i[0] not in names])
+
     def cases_to_done_and_todo(self, cases, config):
         cont = config.get("continue", False)
         if cont:
diff --git a/booktest/runs.py b/booktest/runs.py
index 979620d..ff2e26e 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -362,13 +362,10 @@ def parallel_run_tests(exp_dir,
     os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
-    with open(report_file, "w") as report_f:
-        # add previously passed items to test
-        for i in reports.cases:
-            if i[0] not in todo:
-                CaseReports.write_case(
-                    report_f, i[0], i[1], i[2])
+    # keep the results, that are not replaced
+    reports.without(todo).to_file(report_file)
 
+    with open(report_file, "a") as report_f:
         reviewed = []
 
         def record_case(case_name, result, duration):
diff --git a/booktest/testrun.py b/booktest/testrun.py
index eeb9ac5..7e34f91 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -173,16 +173,14 @@ class TestRun:
         # 2.2. run test.
         #      update the report as we test to allow hitting
         #      CTRL-C and continuing from the last succesful test
-        with open(report_file, "w") as report_f:
+        #
+        #      the results, that are not replaced, must not get lost, even
+        #      if this is interrupted right at the beginning
+        old_report.without(todo).to_file(report_file)
 
-            # 2.2.1 add previously passed items to test
-            if old_report is not None:
-                for i in old_report.cases:
-                    if i[0] not in todo:
-                        CaseReports.write_case(
-                            report_f, i[0], i[1], i[2])
+        with open(report_file, "a") as report_f:
 
-            # 2.2.2 run cases
+            # 2.2.1 run cases
             for case_name in todo:
                 case = self.tests.get_case(case_name)
                 res, request, duration = \
-- 
2.43.0


From 8b3e5c146e6941aead46b4cffaa17edbdf230ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:08 +0000
Subject: [PATCH 38/52] fix: a NUL character in test's output or expectation
 hung the run

---
 booktest/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index 8e7fa25..b399d19 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -52,7 +52,7 @@ class TestTokenizer:
         if c.isalnum():
             while self.peek().isalnum():
                 self.at = self.at + 1
-        elif c != '\0':
+        else:
             self.at = self.at + 1
         return self.buf[begin:self.at]
 
-- 
2.43.0


From 8753fd9adbfcc3fd07588aea48011eb2329597f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:14 +0000
Subject: [PATCH 39/52] fix: a lone surrogate in test's output ended the run

---
 booktest/testcaserun.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 2f30dda..2223b3f 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -15,6 +15,14 @@ from booktest.reports import TestResult
 
 
 
+def storable(text):
+    """
+    Escapes lone surrogates (e.g. of undecodable file names), that cannot be
+    stored in the output file
+    """
+    return text.encode("utf-8", "backslashreplace").decode("utf-8")
+
+
 class TestCaseRun:
     """
     A utility, that manages an invidiual test run, and provides the
@@ -266,7 +274,8 @@ s
         # open files
         self.out = open(self.out_file_name, "w")
         self.rep = open(self.rep_file_name, "w")
-        self.err = open(self.err_file_name, "w")
+        # as in Python's own standard error
+        self.err = open(self.err_file_name, "w", errors="backslashreplace")
         self.log = logging.StreamHandler(self.err)
 
         # swap logger
@@ -530,7 +539,7 @@ s
         NOTE: The token content IS COMPARED to snapshot content for differences
         that are reported.
         """
-        tokens = TestTokenizer(str(text))
+        tokens = TestTokenizer(storable(str(text)))
         for t in tokens:
             self.test_feed_token(t)
         return self
@@ -543,7 +552,7 @@ s
         NOTE: The token content IS NOT COMPARED to snapshot content, and differences
         are ignored
         """
-        tokens = TestTokenizer(text)
+        tokens = TestTokenizer(storable(text))
         for t in tokens:
             self.feed_token(t)
         return self
-- 
2.43.0


From 43b3a853e9d899a626d4a76d8b3427ec059f2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:27 +0000
Subject: [PATCH 40/52] fix: an exception, whose message cannot be formatted,
 ended the run

---
 booktest/testrun.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 7e34f91..f3469da 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -47,6 +47,14 @@ def file_version(stat):
     return stat.st_ino, stat.st_mtime_ns, stat.st_size
 
 
+def describe(e):
+    """ The message of an exception, that may be unable to tell it """
+    try:
+        return str(e)
+    except Exception:
+        return f"{type(e).__name__} (without a readable message)"
+
+
 class TestRun:
     """
     Runs a selection of test cases from the test-object
@@ -123,7 +131,7 @@ class TestRun:
             except BaseException as e:
                 if is_interrupt(e):
                     raise
-                t.iln().fail().iln(f"test raised exception {e}:")
+                t.iln().fail().iln(f"test raised exception {describe(e)}:")
                 t.iln(traceback.format_exc())
                 rv = None
 
-- 
2.43.0


From a2e85566ab557d60404687f61be971c1f092e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:39 +0000
Subject: [PATCH 41/52] fix: CTRL-C at the start of a parallel run hung, if it
 surfaced as another error

---
 booktest/runs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index ff2e26e..4a16c30 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -111,6 +111,13 @@ def case_batch_dir_and_report_file(batches_dir, name):
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
 
+def is_interrupted(e):
+    """ CTRL-C inside e.g. a lock may surface as another exception """
+    while e is not None and not isinstance(e, KeyboardInterrupt):
+        e = e.__context__
+    return e is not None
+
+
 # how long the jobs have time to tear down after CTRL-C
 INTERRUPTED_JOB_TIMEOUT = 10
 
@@ -305,7 +312,7 @@ class ParallelRunner:
         try:
             if self.thread.ident is not None:
                 self.thread.join()
-            if not self._interrupted and exc_type is not KeyboardInterrupt:
+            if not self._interrupted and not is_interrupted(exc_val):
                 self.pool.close()
 
                 # this is necessary to get coverage correctly
-- 
2.43.0


From 7fb7a6915e583673ad173e5a6656d9e5380709f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:47 +0000
Subject: [PATCH 42/52] fix: sequential -L told the result of a test without
 its path

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 2223b3f..7944b3c 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -242,7 +242,7 @@ s
         else:
             rv = TestResult.OK
 
-        maybe_print_logs(self.print, self.config, self.out_base_dir, self.name)
+        maybe_print_logs(self.print, self.config, self.run.out_dir, self.test_path)
 
         report_case_result(
             self.print,
-- 
2.43.0


From 7e49af2319b4b66c2b5f48c574a0251f7de8ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:59 +0000
Subject: [PATCH 43/52] fix: files of tests, whose names have spaces or quotes,
 could not be viewed or printed

---
 booktest/review.py | 19 ++++++++++++++-----
 booktest/tests.py  |  6 +++---
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index d2ea3c8..67a71e6 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -1,6 +1,8 @@
 import os.path as path
 import os
+import shlex
 import shutil
+import subprocess
 
 from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, Metrics
 
@@ -13,6 +15,13 @@ from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, M
 BOOK_TEST_PREFIX = "BOOKTEST_"
 
 
+def quote(*files):
+    """ Quotes file names for the command line. Test names may contain e.g. spaces """
+    if os.name == "nt":
+        return subprocess.list2cmdline(files)
+    return " ".join(shlex.quote(i) for i in files)
+
+
 def run_tool(config, tool, args):
     """ Run a tool used in reviews """
     cmd = config.get(tool, None)
@@ -65,20 +74,20 @@ def interact(exp_dir, out_dir, case_name, test_result, config):
             done = True
         elif answer == "v":
             if os.path.exists(exp_file_name):
-                arg = f"{exp_file_name} {out_file_name}"
+                arg = quote(exp_file_name, out_file_name)
             else:
-                arg = out_file_name
+                arg = quote(out_file_name)
             run_tool(config, "md_viewer", arg)
         elif answer == "l":
-            run_tool(config, "log_viewer", log_file_name)
+            run_tool(config, "log_viewer", quote(log_file_name))
         elif answer == "d":
             run_tool(config,
                      "diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     quote(exp_file_name, out_file_name))
         elif answer == "D":
             run_tool(config,
                      "fast_diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     quote(exp_file_name, out_file_name))
     return rv, user_request
 
 
diff --git a/booktest/tests.py b/booktest/tests.py
index 86600ec..9488ea6 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -8,7 +8,7 @@ from booktest.cache import LruCache
 from booktest.dependencies import bind_dependent_method_if_unbound
 from booktest.detection import BookTestSetup
 from booktest.reports import CaseReports
-from booktest.review import run_tool, review
+from booktest.review import quote, run_tool, review
 from booktest.runs import parallel_run_tests, run_tests
 from booktest.config import get_default_config
 import booktest.setup
@@ -456,7 +456,7 @@ class Tests:
             for name in todo:
                 file = path.join(exp_dir, f"{name}.md")
                 if path.exists(file):
-                    os.system(f"cat {file}")
+                    os.system(f"cat {quote(file)}")
             return 0
         elif cmd == '--path':
             for name in todo:
@@ -470,7 +470,7 @@ class Tests:
                 if path.exists(file):
                     files.append(file)
             if len(files) > 0:
-                return run_tool(config, "md_viewer", " ".join(files))
+                return run_tool(config, "md_viewer", quote(*files))
             else:
                 return 0
         elif cmd == '--clean':
-- 
2.43.0


From a9ff9c965ad98ab38b71a4397d29359078325bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:18 +0000
Subject: [PATCH 44/52] fix: .booktest in the home directory was never read

---
 booktest/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index e4edc5b..0825bec 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -30,7 +30,7 @@ def parse_config_file(config_file, config):
 def resolve_default_config(config_file):
     rv = {}
     # let home directory .booktest file has lowest priority
-    parse_config_file("~/.booktest", rv)
+    parse_config_file(path.expanduser("~/.booktest"), rv)
     # let config_file defaults have lower priority
     parse_config_file(config_file, rv)
 
-- 
2.43.0


From e41110e6d0acee309c613533ef28dd1192d4c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:18 +0000
Subject: [PATCH 45/52] fix: an interrupted or failing --setup lost the
 settings

---
 booktest/setup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/booktest/setup.py b/booktest/setup.py
index 85ac122..9b286d0 100644
--- a/booktest/setup.py
+++ b/booktest/setup.py
@@ -1,3 +1,5 @@
+import os
+
 from booktest.config import get_default_config
 
 
@@ -105,10 +107,12 @@ def setup_booktest():
     configs.append(prompt_config("default_tests", config))
     configs.append(prompt_config("books_path", config))
 
-    with open(".booktest", "w") as f:
+    # write aside and rename to never lose the settings, when interrupted
+    with open(".booktest.new", "w") as f:
         for key, value in configs:
             f.write(config_comments[key])
             f.write(f"{key}={value}\n\n")
+    os.replace(".booktest.new", ".booktest")
     print("updated .booktest")
 
     return 0
-- 
2.43.0


From 420ebf98bb3e2a96a23e057a44a9bc21b9d29716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:07 +0000
Subject: [PATCH 46/52] fix: --setup dropped the settings it does not ask for

---
 booktest/config.py | 10 +++++++---
 booktest/setup.py  |  8 +++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/booktest/config.py b/booktest/config.py
index 0825bec..efc95a2 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -17,14 +17,18 @@ def parse_config_value(value):
         return value
 
 
-def parse_config_file(config_file, config):
+def read_config_file(config_file):
     if path.exists(config_file):
         with open(config_file) as f:
             for line in f:
                 if line.startswith('#') or not line.strip():
                     continue
-                key, value = line.strip().split('=', 1)
-                config[key] = parse_config_value(value)
+                yield line.strip().split('=', 1)
+
+
+def parse_config_file(config_file, config):
+    for key, value in read_config_file(config_file):
+        config[key] = parse_config_value(value)
 
 
 def resolve_default_config(config_file):
diff --git a/booktest/setup.py b/booktest/setup.py
index 9b286d0..a63e310 100644
--- a/booktest/setup.py
+++ b/booktest/setup.py
@@ -1,6 +1,6 @@
 import os
 
-from booktest.config import get_default_config
+from booktest.config import get_default_config, read_config_file
 
 
 config_comments = {
@@ -108,10 +108,16 @@ def setup_booktest():
     configs.append(prompt_config("books_path", config))
 
     # write aside and rename to never lose the settings, when interrupted
+    asked = set(key for key, value in configs)
+    others = list(read_config_file(".booktest"))
     with open(".booktest.new", "w") as f:
         for key, value in configs:
             f.write(config_comments[key])
             f.write(f"{key}={value}\n\n")
+        # keep the other settings
+        for key, value in others:
+            if key not in asked:
+                f.write(f"{key}={value}\n")
     os.replace(".booktest.new", ".booktest")
     print("updated .booktest")
 
-- 
2.43.0


From 558f7424aeac114d2b6c7cc4a429f4c8a4aaf88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:45 +0000
Subject: [PATCH 47/52] fix: a parallel run ended, if a report was cut inside a
 character

---
 booktest/reports.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index 46b27f1..82b997f 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -47,7 +47,8 @@ def read_lines(path, filename=None):
     else:
         file = os.path.join(path, filename)
     if os.path.exists(file):
-        with open(file, "r") as f:
+        # a full disk or a crash may have cut the file inside a character
+        with open(file, "r", errors="replace") as f:
             rv = f.read().split("\n")
             if len(rv) > 0 and len(rv[len(rv)-1]) == 0:
                 # remove empty trailing line
-- 
2.43.0


From 058af42f55cedefe168250dbb34d808d8cfd4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:32 +0000
Subject: [PATCH 48/52] fix: cookies of captured requests responses were lost
 on replay

---
 booktest/requests.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/booktest/requests.py b/booktest/requests.py
index f52a6d6..4f9f3d6 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -2,9 +2,11 @@ import functools
 import hashlib
 import os
 import types
+from http.client import HTTPMessage
 import booktest as bt
 import requests
 from requests import adapters
+from requests.cookies import extract_cookies_to_jar
 from requests.structures import CaseInsensitiveDict
 import json
 import threading
@@ -126,6 +128,12 @@ class RequestKey:
         return type(other) == RequestKey and self.hash == other.hash
 
 
+def set_cookie_headers(response: requests.Response):
+    """ cookies are read from the raw headers, because response.headers joins them """
+    original = getattr(response.raw, "_original_response", None)
+    return (original.msg.get_all("Set-Cookie") if original else None) or []
+
+
 def response_to_json_object(response: requests.Response):
     rv = {
         "headers": dict(response.headers),
@@ -134,6 +142,9 @@ def response_to_json_object(response: requests.Response):
     }
     if response.reason is not None:
         rv["reason"] = response.reason
+    cookies = set_cookie_headers(response)
+    if cookies:
+        rv["setCookies"] = cookies
     try:
         rv["content"] = response.content.decode()
     except UnicodeDecodeError:
@@ -171,6 +182,10 @@ class RequestSnapshot:
         else:
             response._content = response_json["content"].encode()
         response._content_consumed = True
+        raw_headers = HTTPMessage()
+        for i in response_json.get("setCookies", []):
+            raw_headers.add_header("Set-Cookie", i)
+        response.raw = types.SimpleNamespace(_original_response=types.SimpleNamespace(msg=raw_headers))
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -277,6 +292,7 @@ class SnapshotAdapter(adapters.BaseAdapter):
         else:
             rv.url = request.url
             rv.request = request
+            extract_cookies_to_jar(rv.cookies, request, rv.raw)
 
         return rv
 
-- 
2.43.0


From 8706be2e1708736529efa9d61ba0c06dbdde47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:37 +0000
Subject: [PATCH 49/52] fix: repeated headers of captured httpx responses were
 joined on replay

---
 booktest/httpx.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index b0733a5..a62acf6 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -128,6 +128,11 @@ def response_to_json_object(response: httpx.Response):
     if "content-encoding" in headers:
         del headers["content-encoding"]
 
+    # headers like Set-Cookie may be repeated, and cannot be joined
+    pairs = [[k, v] for k, v in response.headers.multi_items() if k in headers]
+    if len(pairs) > len(headers):
+        headers = pairs
+
     return {
         "headers": headers,
         "statusCode": response.status_code,
-- 
2.43.0


From 78987754f13b21214e08c64994e2e8d690872110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:57 +0000
Subject: [PATCH 50/52] fix: a run stopped or failing while it wrote the book
 index left the index truncated

---
 booktest/review.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/booktest/review.py b/booktest/review.py
index 67a71e6..269a2b4 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -255,7 +255,11 @@ def end_report(printer, failed, tests, took_ms):
 
 
 def create_index(dir, case_names):
-    with open(path.join(dir, "index.md"), "w") as f:
+    index_file = path.join(dir, "index.md")
+    # write aside and rename to never lose the index, when interrupted.
+    # several processes of a parallel run may be writing it
+    new_file = f"{index_file}.{os.getpid()}.new"
+    with open(new_file, "w") as f:
         def write(msg):
             f.write(msg)
 
@@ -283,6 +287,7 @@ def create_index(dir, case_names):
             write(("    " * len(domain)) + f" * [{leaf_name}]({name}.md)\n")
 
         write("\n")
+    os.replace(new_file, index_file)
 
 
 def review(exp_dir,
-- 
2.43.0


From b4d80896f6034450ac3d851f90ecd7635479b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:57 +0000
Subject: [PATCH 51/52] fix: the book index listed the cases of a book several
 times, when other modules import the book

---
 booktest/review.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/review.py b/booktest/review.py
index 269a2b4..c8b92a8 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -265,7 +265,8 @@ def create_index(dir, case_names):
 
         write("# Books overview:\n")
         domain = []
-        for name in case_names:
+        # a book, that other modules import, is found several times
+        for name in dict.fromkeys(case_names):
             names = name.split("/")
 
             name_domain = names[:(len(names) - 1)]
-- 
2.43.0


From eb2affd64d59042c3edc13cd217a4bba07ec1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:57 +0000
Subject: [PATCH 52/52] fix: the order of the cases, listings and the book
 index depended on the order in which the file system lists directories

---
 booktest/detection.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/booktest/detection.py b/booktest/detection.py
index 7c0284c..fde1e04 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -102,10 +102,20 @@ def raise_error(error):
     raise error
 
 
+def walk_sorted(path):
+    """
+    Walks the directories in an order, that does not depend on the
+    order, in which the file system happens to list them
+    """
+    for root, dirs, files in os.walk(path, onerror=raise_error):
+        dirs.sort()
+        yield root, dirs, sorted(files)
+
+
 def detect_setup(path):
     setup = None
     if os.path.exists(path):
-        for root, dirs, files in os.walk(path, onerror=raise_error):
+        for root, dirs, files in walk_sorted(path):
             for f in files:
                 if f == BOOKTEST_SETUP_FILENAME:
                     setup = parse_booktest_setup(root, f)
@@ -116,7 +126,7 @@ def detect_setup(path):
 def detect_tests(path):
     tests = []
     if os.path.exists(path):
-        for root, dirs, files in os.walk(path, onerror=raise_error):
+        for root, dirs, files in walk_sorted(path):
             for f in files:
                 if f.endswith("_test.py") or f.endswith("_book.py") or f.endswith("_suite.py") or \
                    (f.startswith("test_") and f.endswith(".py")):
-- 
2.43.0

