From 8e079e9648f4b96218216dd2f87e77bce30d39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 01/79] fix: exchange tracking jobs and results as binary
 pickles and close the files

Text-mode handles make pickle fail on python 3; files left to the garbage
collector hide write errors (e.g. a full disk) that appear when closing.
---
 xboa/tracking/tracking_process/_bsub_process.py         | 2 +-
 xboa/tracking/tracking_process/_tracking_process.py     | 9 ++++++---
 xboa/tracking/tracking_process/xboa_tracking_process.py | 6 ++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index eb455ae..90c0e24 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -46,7 +46,7 @@ class BSubProcess(TrackingProcess):
         self.queue = queue
         self.job_time = job_time
         out_path = os.path.join(self.out_dir, self.pickle_jar)
-        process_out = open(out_path, "w")
+        process_out = open(out_path, "wb")
         pickle.dump(self, process_out)
         process_out.close()
 
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index cde9ce5..7df2a50 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -69,8 +69,9 @@ class TrackingProcess(object):
         Set the hit list over which the TrackingProcess should run
         """
         self.hit_list = hit_list
-        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "w")
+        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "wb")
         pickle.dump(self, process_out)
+        process_out.close()
 
     def start(self):
         """
@@ -139,8 +140,9 @@ class TrackingProcess(object):
         if not os.path.exists(return_path):
             raise RuntimeError("The TrackingProcess finished without leaving "+\
                                "a return value")
-        fin = open(return_path)
+        fin = open(return_path, "rb")
         self.return_value = pickle.load(fin)
+        fin.close()
         return self.return_value
 
     @classmethod
@@ -149,8 +151,9 @@ class TrackingProcess(object):
         Instantiate a TrackingProcess from pickle directory
         - pickle_dir: directory where pickled data is stored.
         """
-        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "r")
+        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "rb")
         process = pickle.load(fin)
+        fin.close()
         return process
 
     # I know these names are inscrutable - but I couldn't resist. I like
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 494b9e4..3a1b10f 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -40,15 +40,17 @@ def main():
     """Run the TrackingProcess"""
     args = parse_args()
     out_dir = args.out_dir 
-    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar))
+    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar), "rb")
     tracking_process = pickle.load(fin)
+    fin.close()
     # clear any old data; always want to get new data
     if os.path.exists(TrackingProcess.pickle_sandwich):
         os.remove(TrackingProcess.pickle_sandwich)
     # run the data and dump the output
     hits = tracking_process.run()
-    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "w")
+    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb")
     pickle.dump(hits, fout)
+    fout.close()
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 4e9d65d8741f622d880494f5a3f649c685c017ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 02/79] fix: never return the result of an earlier run of a
 tracking job

The worker looked for the old result in its working directory instead of the
job directory, and a worker that died early left it in place.
---
 xboa/tracking/tracking_process/_bsub_process.py       |  1 +
 xboa/tracking/tracking_process/_this_node_process.py  |  1 +
 xboa/tracking/tracking_process/_tracking_process.py   | 11 +++++++++++
 .../tracking_process/xboa_tracking_process.py         |  7 ++++---
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index 90c0e24..48db4da 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -57,6 +57,7 @@ class BSubProcess(TrackingProcess):
         if self.is_alive():
             raise RuntimeError("Attempt to start a process that is already "+\
                                "started")
+        self._clear_return_value()
         log = os.path.join(self.out_dir, self.std_out)
         err = os.path.join(self.out_dir, self.std_err)
         proc_output = subprocess.check_output(
diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index 3d9fda2..8c5f296 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -50,6 +50,7 @@ class ThisNodeProcess(TrackingProcess):
         if self.is_alive():
             raise RuntimeError("Attempt to start a process that is already "+\
                                "started")
+        self._clear_return_value()
         self.proc = subprocess.Popen([self.run_executable,
                                       "--out-dir", self.out_dir])
         self.pid = self.proc.pid
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index 7df2a50..33bc003 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -145,6 +145,17 @@ class TrackingProcess(object):
         fin.close()
         return self.return_value
 
+    def _clear_return_value(self):
+        """
+        Forget the outcome of any previous run, so that it cannot be mistaken
+        for the outcome of the run that is about to start
+        """
+        return_path = os.path.join(self.out_dir, self.pickle_sandwich)
+        if os.path.exists(return_path):
+            os.remove(return_path)
+        self.exitcode = None
+        self.return_value = None
+
     @classmethod
     def new_from_pickle(cls, pickle_dir):
         """
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 3a1b10f..89b57fa 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -44,11 +44,12 @@ def main():
     tracking_process = pickle.load(fin)
     fin.close()
     # clear any old data; always want to get new data
-    if os.path.exists(TrackingProcess.pickle_sandwich):
-        os.remove(TrackingProcess.pickle_sandwich)
+    return_path = os.path.join(out_dir, TrackingProcess.pickle_sandwich)
+    if os.path.exists(return_path):
+        os.remove(return_path)
     # run the data and dump the output
     hits = tracking_process.run()
-    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb")
+    fout = open(return_path, "wb")
     pickle.dump(hits, fout)
     fout.close()
 
-- 
2.43.0


From e9330a1e60c9d051ab3db9d7c56e9a3c0fe40ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 03/79] fix: let a tracking job that was started be saved,
 copied and run again

The Popen object cannot be pickled, so setting a new hit list on a job that
had been started failed with a TypeError.
---
 xboa/tracking/tracking_process/_this_node_process.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index 8c5f296..f111e40 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -43,6 +43,16 @@ class ThisNodeProcess(TrackingProcess):
         TrackingProcess.__init__(self, tracking)
         self.proc = None
 
+    def __getstate__(self):
+        """
+        Save or copy the definition of the job; the running process, its
+        identity and its outcome cannot be saved or copied
+        """
+        state = dict(self.__dict__)
+        for key in ["proc", "pid", "exitcode", "return_value"]:
+            state[key] = None
+        return state
+
     def start(self):
         """
         Start the tracking by opening a subprocess and calling run()
-- 
2.43.0


From f0f90ba070b822c52900a4890232166b33a9e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 04/79] fix: MultiTrack integer chunk sizes and track_one on
 python 3

---
 xboa/tracking/_multitrack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index db7b933..c713f7e 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -65,7 +65,7 @@ class MultiTrack(TrackingBase):
         self.job_list = []
         self.last = []
         n_hits = len(hit_list)
-        n_hits_per_process = n_hits/int(self.n_processes)
+        n_hits_per_process = n_hits//int(self.n_processes)
         remainder = n_hits % int(self.n_processes)
         
         for i in range(self.n_processes):
@@ -87,7 +87,9 @@ class MultiTrack(TrackingBase):
         """
         Just call track_one on the hit
         """
-        self.tracking.track_one(a_hit)
+        hit_list = self.tracking_job.tracking.track_one(a_hit)
+        self.last = [hit_list]
+        return hit_list
 
     def track_many(self, hit_list):
         """
-- 
2.43.0


From 0fbd5d3c767276878a8a01f046e5e1ded232a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 05/79] fix: MultiTrack must not drop the hits of a failed job
 silently

Results of jobs that failed were left out of the output, so later hits were
returned in the place of the missing ones.
---
 xboa/tracking/_multitrack.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index c713f7e..1be772a 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -77,9 +77,9 @@ class MultiTrack(TrackingBase):
                 this_hit_list = hit_list[0:n_hits_per_process]
                 hit_list = hit_list[n_hits_per_process:]
             next_job = copy.deepcopy(self.tracking_job)
+            self.job_list.append(next_job)
             next_job.new_out_dir()
             next_job.set_hit_list(this_hit_list)
-            self.job_list.append(next_job)
             next_job.start()
         return self.job_list
 
@@ -123,8 +123,7 @@ class MultiTrack(TrackingBase):
         """
         self.last = []
         for job in self.job_list:
-            try:
-                self.last += job.get_return_value() 
-            except RuntimeError: # the job wasn't finished?
-                pass
+            if job.is_alive(): # the job isn't finished
+                continue
+            self.last += job.get_return_value()
         return self.last
-- 
2.43.0


From 64125df599bf531de3bd6f9c9f6de446f85d1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 06/79] fix: job time limits must not depend on changes of the
 wall clock

---
 xboa/tracking/tracking_process/_tracking_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index 33bc003..789f942 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -119,10 +119,10 @@ class TrackingProcess(object):
         - timeout: number of seconds to wait before returning to the calling
           process
         """
-        start_time = time.time()
+        start_time = time.monotonic()
         delta_t = -1
         while self.is_alive() and (timeout == None or delta_t < timeout):
-            delta_t = time.time()-start_time
+            delta_t = time.monotonic()-start_time
 
     def get_return_value(self):
         """
-- 
2.43.0


From b0963f20f71eb45661167b0660b18b77ac9f3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 07/79] fix: batch jobs read the queue's answers on python 3
 and know all its live states

---
 .../tracking/tracking_process/_bsub_process.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index 48db4da..df11640 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -68,6 +68,7 @@ class BSubProcess(TrackingProcess):
                                       '-e', err,
                                       self.run_executable,
                                       "--out-dir", self.out_dir])
+        proc_output = self._to_str(proc_output)
         start_index = proc_output.find("<")+1
         end_index = proc_output.find(">")
         self.pid = int(proc_output[start_index:end_index])
@@ -79,12 +80,14 @@ class BSubProcess(TrackingProcess):
         if self.pid == None:
             return False
         proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)])
+        proc_output = self._to_str(proc_output)
         status = self._get_substr(proc_output, 'Status <', '>')
-        if status in ["PEND", "RUN", "WAIT"]:
+        if status in self.alive_status:
             return True
         self.exitcode = 0
         try:
-            self.exitcode = self._get_substr(proc_output, 'exit code ', '.')
+            exitcode = self._get_substr(proc_output, 'exit code ', '.')
+            self.exitcode = int(exitcode)
         except ValueError:
             pass # no report if exit code was 0
         return False
@@ -102,6 +105,14 @@ class BSubProcess(TrackingProcess):
         if self.pid == None:
             raise(RuntimeError("Attempt to kill process before it has started"))
         subprocess.call(['bkill', str(self.pid)])
+        self.join(timeout)
+
+    @classmethod
+    def _to_str(cls, proc_output):
+        """Get the text of the output of a command"""
+        if isinstance(proc_output, bytes):
+            return proc_output.decode()
+        return proc_output
 
     @classmethod
     def _get_substr(cls, a_string, start_key, end_key):
@@ -127,6 +138,9 @@ class BSubProcess(TrackingProcess):
         except OSError:
             return False
 
+    # the job has not ended (yet) while it has one of these states
+    alive_status = ["PEND", "PROV", "PSUSP", "RUN", "USUSP", "SSUSP", "WAIT",
+                    "UNKWN"]
     dump_handle = open("/dev/null", "w")
     scratch_dir = "/work/scratch/tracking"
     std_out = "job.out"
-- 
2.43.0


From 167242bab70bee76c3d04cda4dc406577938ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 08/79] fix: subprocess must not register processes that failed
 to launch nor fork under ROOT

---
 xboa/common/_common.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index fd20185..8780592 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -773,22 +773,25 @@ def subprocess(function, args):
   """
   try: 
     config.has_multiprocessing()
-    __mp_subprocesses.append( multiprocessing.Process(target=function, args=args) )
-    __mp_subprocesses[-1].start()
-    return __mp_subprocesses[-1]
-  except:
+    ps = multiprocessing.Process(target=function, args=args)
+    ps.start()
+    __mp_subprocesses.append(ps)
+    return ps
+  except Exception:
     try: 
-      config.has_root()
-      raise ImportError('Error - attempt to make a subprocess using fork when ROOT library is active')
+      has_root = config.has_root()
     except ImportError:
-      pid = os.fork()
-      if pid == 0:
-        try:    function(*args)
-        except: os._exit(1)
-        os._exit(0)
-      else:
-        __fk_subprocesses.append(pid)
-        return pid
+      has_root = False
+    if has_root:
+      raise ImportError('Error - attempt to make a subprocess using fork when ROOT library is active')
+    pid = os.fork()
+    if pid == 0:
+      try:    function(*args)
+      except: os._exit(1)
+      os._exit(0)
+    else:
+      __fk_subprocesses.append(pid)
+      return pid
  
 def kill_all_subprocesses():
   """
-- 
2.43.0


From bbe63a24fa3b13ddc490998f3f3f7661c6492eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 09/79] fix: kill_all_subprocesses must go on past processes
 that have already ended

---
 xboa/common/_common.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 8780592..fe5da3c 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -799,10 +799,19 @@ def kill_all_subprocesses():
   Note that this makes a call to the os, which may take a bit of time to respond.
   """
   for ps in __mp_subprocesses:
-    ps.terminate()
+    try:
+      ps.terminate()
+    except (ValueError, OSError):
+      continue # the process has already ended and was closed or collected
     time.sleep(0.01) #dont ask me why this is necessary...
   for pid in __fk_subprocesses:
-    os.kill(pid, signal.SIGKILL)
+    try:
+      # only signal our own children; if pid has ended and was collected, then
+      # the number may belong to some other process
+      if os.waitid(os.P_PID, pid, os.WEXITED|os.WNOHANG|os.WNOWAIT) == None:
+        os.kill(pid, signal.SIGKILL)
+    except OSError:
+      pass # the process has already ended
 
 def kolmogorov_smirnov_test(list_1, list_2):
   """
-- 
2.43.0


From 0a0afb7418a935ee5f253a3b92c44fdbf6cff185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 10/79] fix: process_list must release its helper processes,
 also when it fails

---
 xboa/common/_common.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index fe5da3c..94bb363 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -943,24 +943,29 @@ def process_list(function_call, list_of_args, max_n_processes):
   list like [None, None, None].
   """
   manager = multiprocessing.Manager()
-  queue = manager.Queue() # queue stores return values
-  pool = multiprocessing.Pool(max_n_processes) # pool runs multiprocess
-  # each process needs:
-  #    reference to queue to put returns values in
-  #    index (to sort return values)
-  #    plus function call and argument
-  new_list_of_args = [(function_call, queue, x, i) for i,x in enumerate(list_of_args)]
-  # run the processes
-  pool.map(__function_with_queue, new_list_of_args)
-  # sort output into a list
-  out_list = []
-  while not queue.empty():
-    out_list.append(queue.get())
-  out_list.sort()
-  for i,item in enumerate(out_list):
-    out_list[i] = item[1]
-  # cleanup
-  pool.close()
+  pool = None
+  try:
+    queue = manager.Queue() # queue stores return values
+    pool = multiprocessing.Pool(max_n_processes) # pool runs multiprocess
+    # each process needs:
+    #    reference to queue to put returns values in
+    #    index (to sort return values)
+    #    plus function call and argument
+    new_list_of_args = [(function_call, queue, x, i) for i,x in enumerate(list_of_args)]
+    # run the processes
+    pool.map(__function_with_queue, new_list_of_args)
+    # sort output into a list
+    out_list = []
+    while not queue.empty():
+      out_list.append(queue.get())
+    out_list.sort()
+    for i,item in enumerate(out_list):
+      out_list[i] = item[1]
+  finally: # cleanup
+    if pool != None:
+      pool.terminate()
+      pool.join()
+    manager.shutdown()
   return out_list
 
 def _sum_weight(weights, in_cut):
-- 
2.43.0


From 6eaa4d43f1afe76ac800ba8935f959082911445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 11/79] fix: HullContent on python 3; a failure to make its
 pool must be reported as such

---
 xboa/bunch/weighting/_hull_content.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 392ac42..98b8d59 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -49,11 +49,11 @@ class HullContent(object):
         """
         config.has_numpy()
         config.has_scipy()
+        self.tesselation = tesselation
+        self.region_list = region_list
+        self.tile_content_list = None
+        self.pool = multiprocessing.Pool(n_procs, _init_worker)
         try:
-            self.tesselation = tesselation
-            self.region_list = region_list
-            self.pool = multiprocessing.Pool(n_procs, _init_worker)
-            self.tile_content_list = None
             self.recalculate()
         except:
             self.pool.terminate()
@@ -88,7 +88,7 @@ def _get_cm_matrix(simplex, triangulation, dimension):
             point_i = triangulation.points[vertex_i]
             point_j = triangulation.points[vertex_j]
             square = [(point_i[d] - point_j[d])**2 \
-                                             for d in xrange(dimension)]
+                                             for d in range(dimension)]
             length_sq = sum(square)
             elements[i+1, j+1] = length_sq
             elements[j+1, i+1] = length_sq
-- 
2.43.0


From 5619e47b817ea49ca7835b69010e1d037ab94d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 12/79] fix: substitute must close its files when it fails

---
 xboa/common/_common.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 94bb363..35e10ef 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -146,14 +146,12 @@ def substitute(file_name_in, file_name_out, switch_dict):
 
   e.g. common.substitute('file.in', 'file.out', {'energy':'momentum'})
   """
-  fin  = open(file_name_in,  'r')
-  fout = open(file_name_out, 'w')
-  for line in fin:
-    for key, value in switch_dict.items():
-      line = line.replace(str(key), str(value))
-    fout.write(line)
-  fin.close()
-  fout.close()
+  with open(file_name_in,  'r') as fin:
+    with open(file_name_out, 'w') as fout:
+      for line in fin:
+        for key, value in switch_dict.items():
+          line = line.replace(str(key), str(value))
+        fout.write(line)
 
 wrapped_y_function = None
 def __y_function_wrapper(x_list_of_lists):
-- 
2.43.0


From 9e28d4191759548af3e4fcb7e709a64e60bf8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 13/79] fix: writing a particle must not change its particle
 id, not even for a while

---
 xboa/hit/_hit.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 1c17067..c0b52d6 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -400,15 +400,12 @@ class Hit(object):
     """
     if( format.find('maus') > -1 ):
       raise IOError("Can't write single maus hits, only lists of hits")
+    pid = self.get('pid')
     if( format.find('icool') > -1 ):
-      self.set('pid', Common.pdg_pid_to_icool[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.pdg_pid_to_mars [self.get('pid')])
-    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.icool_pid_to_pdg[self.get('pid')])
+      pid = Common.pdg_pid_to_icool[pid]
     if( format.find('mars') > -1 ):
-      self.set('pid', Common.mars_pid_to_pdg [self.get('pid')])
+      pid = Common.pdg_pid_to_mars [pid]
+    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle, values={'pid':pid})
 
   @classmethod
   def write_list_builtin_formatted(cls, list_of_hits, file_type_string, file_name, user_comment=None):
@@ -714,9 +711,10 @@ class Hit(object):
       self.set(k, v)
 
   #write formatted output - don't touch mass or pid beyond reading them
-  def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' '):
+  def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' ', values={}):
     for key in format_list:
-      if key == '': value = 0
+      if key == '':       value = 0
+      elif key in values: value = values[key]
       else:         value = Hit._default_var_types[key](self.get(key)/Common.units[ format_units_dict[key] ])
       file_handle.write( str( value )+separator)
     file_handle.write('\n')
-- 
2.43.0


From f0e79d5b5a36fdbe037a7912ddf499d1c282238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 14/79] fix: failures to write a list of hits must be reported
 and the file closed

---
 xboa/hit/_hit.py | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index c0b52d6..cdf8d59 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -424,34 +424,20 @@ class Hit(object):
       raise IOError(f"Did not recognise file type {file_type_string}, should be one of {cls.__file_types}")
     if( file_type_string.find('maus_root') > -1 ):
       raise IOError("Can't write maus_root formats")
-    filehandle = Hit.open_filehandle_for_writing(file_type_string, file_name, user_comment)
-    if( file_type_string.find('maus') > -1 ):
-      maus_tree = Hit.get_maus_tree(list_of_hits, file_type_string)
-      for spill_number, item in enumerate(maus_tree):
-        item["maus_event_type"] = "Spill"
-        item["spill_number"] = spill_number
-        print(json.dumps(item), file=filehandle)
-      return
-    sort_key = lambda hit: hit["station"]
-    list_of_hits = sorted(list_of_hits, key=sort_key)
-    old_hit = None
-    current_hits = []
-    for hit_in in list_of_hits:
-      if old_hit == None or sort_key(hit_in) == sort_key(old_hit):
-        current_hits.append(hit_in)
-      else:
-        for hit_out in current_hits:
-          try:    hit_out.write_builtin_formatted(file_type_string, filehandle)
-          except: pass
-        current_hits = [hit_in]
-      old_hit = hit_in
-    for hit_out in current_hits:
-      try:
-        hit_out.write_builtin_formatted(file_type_string, filehandle)
-      except:
-        print('Warning - failed to write ',hit_out)
-    filehandle.close()
-    return
+    with Hit.open_filehandle_for_writing(file_type_string, file_name, user_comment) as filehandle:
+      if( file_type_string.find('maus') > -1 ):
+        maus_tree = Hit.get_maus_tree(list_of_hits, file_type_string)
+        for spill_number, item in enumerate(maus_tree):
+          item["maus_event_type"] = "Spill"
+          item["spill_number"] = spill_number
+          print(json.dumps(item), file=filehandle)
+        return
+      sort_key = lambda hit: hit["station"]
+      for hit_out in sorted(list_of_hits, key=sort_key):
+        try:
+          hit_out.write_builtin_formatted(file_type_string, filehandle)
+        except KeyError: # the format has no code for this pid
+          print('Warning - failed to write ',hit_out)
 
   def open_filehandle_for_writing(file_type_string, file_name, user_comment=None):
     """
-- 
2.43.0


From fb723d12d87a9ed953e326c9892380a7239dde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 15/79] fix: hit_write_builtin_from_dict must write the user
 comment

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7cef33f..f546ee2 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1385,7 +1385,7 @@ class Bunch:
     all_hits = []
     for key,value in dict_of_bunches.items():
       all_hits += value.hits()
-    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name)
+    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name, user_comment)
   hit_write_builtin_from_dict = staticmethod(hit_write_builtin_from_dict)
   
   def hit_write_user(self, format_list, format_units_dict, file_handle, separator=' ', comparator=None):
-- 
2.43.0


From ee28c532acb212dfc361fd158e6ae52b5069a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 16/79] fix: hit_write_user with a comparator on python 3,
 leaving the order of the bunch alone

---
 xboa/bunch/_bunch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index f546ee2..ca0af64 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -23,6 +23,7 @@ import io
 import operator
 import math
 import sys
+import functools
 import bisect
 
 try: 
@@ -1403,9 +1404,10 @@ class Bunch:
     0.003@0.004@0.003@0.004 
     in some_file
     """
+    hits = self.__hits
     if not comparator==None:
-      self.__hits.sort(comparator)
-    for hit in self.__hits:
+      hits = sorted(hits, key=functools.cmp_to_key(comparator))
+    for hit in hits:
       hit.write_user_formatted(format_list, format_units_dict, file_handle, separator)
 
   def build_ellipse_2d(beta, alpha, emittance, p, mass, geometric):
-- 
2.43.0


From 5b7ff295171288f159c456626461366d2578c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 17/79] fix: a read error in a g4beamline file must not be
 taken for the end of the file

---
 xboa/bunch/_bunch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index ca0af64..4c8c867 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -473,7 +473,7 @@ class Bunch:
     if file_format_type_string == 'g4beamline_bl_track_file' or file_format_type_string == 'g4beamline_bl_track_file_2':
       open_file  = filehandle
       filehandle = io.StringIO()
-      try:
+      with open_file:
         line = open_file.readline()
         while( len(line) > 0 ):
           if('cm cm cm' in line and line[0] == '#') :   Hit.set_g4bl_unit('cm')
@@ -481,8 +481,6 @@ class Bunch:
           elif(line[0] == '#' or line[0] == '\n'): pass
           else: filehandle.write(line)
           line = open_file.readline()
-      except IOError: pass
-      open_file.close()
       filehandle.seek(0)
     return filehandle
   setup_file = staticmethod(setup_file)
-- 
2.43.0


From 92720043d0e936d1020e251470353347e5476cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 18/79] fix: set_g4bl_unit must apply to reading as well as
 writing, and to both g4beamline formats

---
 xboa/hit/_hit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index cdf8d59..f791c90 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -673,9 +673,10 @@ class Hit(object):
 
     e.g. set_g4bl_unit('m') would set the length unit to metres
     """
-    Hit.__file_units['g4beamline_bl_track_file']['x'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['y'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['z'] = unit
+    for file_units in Hit.__file_units, xboa.hit.factory.BuiltinHitFactory.file_units:
+      for file_type in 'g4beamline_bl_track_file', 'g4beamline_bl_track_file_2':
+        for key in 'x', 'y', 'z':
+          file_units[file_type][key] = unit
   set_g4bl_unit = staticmethod(set_g4bl_unit)
 
   def __getstate__(self):
-- 
2.43.0


From 4cbd5129bf75af21f31463e716fc4ff06436e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 19/79] fix: load files that match a pattern in a defined order

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 4c8c867..b023da6 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -295,7 +295,7 @@ class Bunch:
                      str(file_type_string)+' - try one of '+\
                      str(Hit.file_types())
         raise IOError(err_string)
-    file_name_list = glob.glob(file_name_glob)
+    file_name_list = sorted(glob.glob(file_name_glob))
     if len(file_name_list) == 0:
         raise IOError("Could not find file matching name "+str(file_name_glob))
     if file_type_string.find('maus_root') > -1:
-- 
2.43.0


From 44bdb0c23467e3c395887a546bbb171c92f43799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 20/79] fix: hit_generator must generate all of the hits

---
 xboa/hit/factory/_hit_factory_base.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/xboa/hit/factory/_hit_factory_base.py b/xboa/hit/factory/_hit_factory_base.py
index d51d445..a9a99d8 100644
--- a/xboa/hit/factory/_hit_factory_base.py
+++ b/xboa/hit/factory/_hit_factory_base.py
@@ -33,18 +33,21 @@ class HitFactoryBase(object):
         raise NotImplementedError("make_hit not implemented")
 
     def hit_generator(self):
-        try:
-            print("gen in")
-            yield self.make_hit()
-            print("gen out")
-        except (EOFError, xboa.hit.BadEventError):
-            self.new_spill()
+        """
+        Generate hits until there is no more data; bad events are skipped
+        """
+        while True:
             try:
-                yield self.make_hit()
-            except (EOFError, xboa.hit.BadEventError):
-                raise StopIteration("Finished")
-        except StopIteration:
-            raise
+                hit = self.make_hit()
+            except EOFError:
+                return
+            except xboa.hit.BadEventError:
+                try:
+                    self.new_spill()
+                except (EOFError, IndexError, xboa.hit.BadEventError):
+                    return # no more spills
+                continue
+            yield hit
 
     def new_spill(self):
         """
-- 
2.43.0


From 130e984b4bcbe2c7dfe58f2ba3b41f837eeb216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 21/79] fix: MausJsonHitFactory on python 3

---
 xboa/hit/factory/_maus_json_hit_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/factory/_maus_json_hit_factory.py b/xboa/hit/factory/_maus_json_hit_factory.py
index e8a0ad3..5ba41a6 100644
--- a/xboa/hit/factory/_maus_json_hit_factory.py
+++ b/xboa/hit/factory/_maus_json_hit_factory.py
@@ -130,10 +130,10 @@ class MausJsonHitFactory(HitFactoryBase):
         xboa_dict = {}
         three_vec_conversions = cls._maus_three_vec_conversions[format]
         conversion_dict = cls._maus_variable_conversions[format]
-        for maus_name, xboa_suffix in three_vec_conversions.iteritems():
-          for maus_xyz, value in maus_dict[maus_name].iteritems():
+        for maus_name, xboa_suffix in three_vec_conversions.items():
+          for maus_xyz, value in maus_dict[maus_name].items():
             xboa_dict[xboa_suffix+maus_xyz] = value
-        for maus_key, xboa_key in conversion_dict.iteritems():
+        for maus_key, xboa_key in conversion_dict.items():
           xboa_dict[xboa_key] = maus_dict[maus_key]
         xboa_dict['event_number'] = event_number
         if 'mass' not in xboa_dict.keys():
-- 
2.43.0


From 214556b86d3f5c02f0144a18a6ea0d7c6f618f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 22/79] fix: an event without hits must not hide the rest of
 its maus spill

---
 xboa/hit/factory/_maus_json_hit_factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/factory/_maus_json_hit_factory.py b/xboa/hit/factory/_maus_json_hit_factory.py
index 5ba41a6..87ad5da 100644
--- a/xboa/hit/factory/_maus_json_hit_factory.py
+++ b/xboa/hit/factory/_maus_json_hit_factory.py
@@ -98,7 +98,7 @@ class MausJsonHitFactory(HitFactoryBase):
         Read a virtual hits from the json_document
         """
         for ev, mc_event in enumerate(self.spill["mc_events"]):
-            for virtual_hit in mc_event["virtual_hits"]:
+            for virtual_hit in mc_event.get("virtual_hits", []):
                 hit = self.hit_from_maus_object("virtual_hit", virtual_hit, ev)
                 hit["spill"] = self.spill["spill_number"]
                 self.hits.append(hit)
@@ -108,7 +108,7 @@ class MausJsonHitFactory(HitFactoryBase):
         Read a virtual hits from the json_document
         """
         for ev, mc_event in enumerate(self.spill["mc_events"]):
-            for virtual_hit in mc_event["special_virtual_hits"]:
+            for virtual_hit in mc_event.get("special_virtual_hits", []):
                 hit = self.hit_from_maus_object("special_virtual_hit", virtual_hit, ev)
                 hit["spill"] = self.spill["spill_number"]
                 self.hits.append(hit)
@@ -118,6 +118,8 @@ class MausJsonHitFactory(HitFactoryBase):
         Read primaries from the json_document
         """
         for ev, mc_event in enumerate(self.spill["mc_events"]):
+            if "primary" not in mc_event:
+                continue
             hit = self.hit_from_maus_object("primary", mc_event["primary"], ev)
             hit["spill"] = self.spill["spill_number"]
             self.hits.append(hit)
-- 
2.43.0


From 5c5e5972ab11c0a5de38332356b970d33809ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 23/79] fix: reading maus files must load every type, and count
 accepted hits over all files

---
 xboa/bunch/_bunch.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index b023da6..5bf91a4 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -315,10 +315,11 @@ class Bunch:
           print("Loading", file_name)
           hit_list += Bunch.read_maus_json_file(
                                           file_name,
-                                          number_of_hits,
                                           list_of_maus_types=[file_type_string]
                                   )
       hit_list = [hit for hit in hit_list if test_function == None or test_function(hit)]
+      if number_of_hits >= 0:
+          hit_list = hit_list[:number_of_hits]
       return Bunch.new_from_hits(hit_list)
     bunch = Bunch()
     bad_event_counter = 0
@@ -450,16 +451,16 @@ class Bunch:
     - list_of_maus_types = loads all specified types from the MAUS file
     """
     config.has_json()
-    json_file = open(file_name, 'r')
     hits = []
-    for maus_type in list_of_maus_types:
-        fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
-        while number_of_hits < 0 or len(hits) < number_of_hits:
-            try:
-                hits.append(fac.make_hit())
-            except BadEventError:
-                break
-    json_file.close()
+    with open(file_name, 'r') as json_file:
+        for maus_type in list_of_maus_types:
+            json_file.seek(0)
+            fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
+            while number_of_hits < 0 or len(hits) < number_of_hits:
+                try:
+                    hits.append(fac.make_hit())
+                except BadEventError:
+                    break
     return hits
   read_maus_json_file = staticmethod(read_maus_json_file)
 
-- 
2.43.0


From 664f014183466f74cff101a3794c8de8b089c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 24/79] fix: arguments of the hit factories in the
 new_list_from_maus functions

---
 xboa/hit/_hit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index f791c90..0379b5d 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -200,7 +200,7 @@ class Hit(object):
     Returns a list of hit objects. Station number will be taken from the relevant maus_type. event_number will be given by the spill_number. track_number will be given by
     the index on mc_events or recon_events
     """
-    fac = xboa.hit.factory.factory.MausRootHitFactory(format, root_tree, entry_number)
+    fac = xboa.hit.factory.MausRootHitFactory(root_tree, format, entry_number)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
 
@@ -216,7 +216,7 @@ class Hit(object):
     relevant maus_type. event_number will be given by the spill_number. 
     track_number will be given by the index on mc_events or recon_events.
     """
-    fac = xboa.hit.factory.factory.MausJsonHitFactory(format, file_handle)
+    fac = xboa.hit.factory.MausJsonHitFactory(filehandle, format)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
     
-- 
2.43.0


From 054ef1ec395fb1bc85991aa40602ec43c79d3b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 25/79] fix: bunches must use the weight context in force

---
 xboa/core/cpplib/Hitcore.cc    |  4 ++--
 xboa/core/cpplib/Hitcore.hh    |  9 ++++++---
 xboa/core/pylib/PyBunchcore.cc | 12 ------------
 xboa/core/pylib/PyHitcore.cc   |  7 +++++--
 xboa/core/pylib/PyHitcore.hh   |  6 ++++++
 5 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.cc b/xboa/core/cpplib/Hitcore.cc
index 1aa2482..ef01c0b 100644
--- a/xboa/core/cpplib/Hitcore.cc
+++ b/xboa/core/cpplib/Hitcore.cc
@@ -25,11 +25,11 @@ std::map<std::string, Hitcore::get_int_function> Hitcore::get_int_map;
 std::map<std::string, Hitcore::get_dbl_function> Hitcore::get_dbl_map;
 std::map<std::string, Hitcore::set_int_function> Hitcore::set_int_map;
 std::map<std::string, Hitcore::set_dbl_function> Hitcore::set_dbl_map;
-SmartPointer<WeightContext>& Hitcore::weightContext = *(new SmartPointer<WeightContext>());
+SmartPointer<WeightContext>* Hitcore::weightContext = new SmartPointer<WeightContext>();
 
 
 void Hitcore::clear_global_weights() {
-    weightContext->clearWeights();
+    (*weightContext)->clearWeights();
 }
 
 Hitcore::Hitcore()
diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 2f86092..eae750d 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -335,7 +335,10 @@ class Hitcore {
     /** Print the global weights map */
     static void print_global_weights(std::ostream& out);
 
-    static SmartPointer<WeightContext>& weightContext;
+    /** Points to the weight context in force. It is owned by the _hitcore module
+     *  and shared with other modules through import_PyHitcore
+     */
+    static SmartPointer<WeightContext>* weightContext;
 
   private:
     double x_;
@@ -437,12 +440,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 
 void Hitcore::set_global_weight(double global_weight) {
     WeightContext::HitId hitid(spill_, particle_, event_);
-    weightContext->setWeight(hitid, global_weight);
+    (*weightContext)->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
     WeightContext::HitId hitid(spill_, particle_, event_);
-    double wt = weightContext->getWeight(hitid);
+    double wt = (*weightContext)->getWeight(hitid);
     return wt;
 }
 
diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ceba265..654c17e 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -526,17 +526,6 @@ static struct PyModuleDef bunchcoredef = {
     NULL,                /* m_free */
 };
 
-void setWeightContext() {
-    PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
-    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
-    PyObject* get_context = PyObject_GetAttrString(hc_class, "get_weight_context");
-    PyObject* empty_tuple = PyTuple_New(0);
-    PyObject* pyobj_wc = PyObject_CallObject(get_context, empty_tuple);
-    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
-}
-
-
 PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyBunchcoreType.tp_new = PyType_GenericNew;
     if (PyType_Ready(&PyBunchcoreType) < 0) {
@@ -566,7 +555,6 @@ PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyDict_SetItemString(bc_dict, "C_API_CREATE_EMPTY_BUNCHCORE", ceb_c_api);
     PyDict_SetItemString(bc_dict, "C_API_GET_BUNCHCORE", gbc_c_api);
     PyDict_SetItemString(bc_dict, "C_API_SET_BUNCHCORE", sbc_c_api);
-    setWeightContext();
     return module;
 }
 
diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 542ebe4..ad38822 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -167,7 +167,7 @@ PyObject* setWeightContext(PyObject* cls, PyObject *args) {
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj);
     SmartPointer<WeightContext> contextPtr = pywc->cppcontext_;
     pyCurrentContext->cppcontext_.set(contextPtr.get());
-    Hitcore::weightContext.set(contextPtr.get());
+    Hitcore::weightContext->set(contextPtr.get());
     Py_RETURN_NONE; // success, return None
 }
 
@@ -328,7 +328,7 @@ void setWeightContext() {
     PyObject* empty_tuple = PyTuple_New(0);
     PyObject* pyobj_wc = PyObject_CallObject(wc_class, empty_tuple); // init
     PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
+    *Hitcore::weightContext = pywc->cppcontext_;
     pyCurrentContext =  pywc;
 }
 
@@ -397,6 +397,9 @@ PyMODINIT_FUNC PyInit__hitcore(void) {
     PyDict_SetItemString(hc_dict, "C_API_CHECK", check_c_api);
     PyDict_SetItemString(hc_dict, "C_API_SMARTPOINTER_CONTEXT", spc_c_api);
     setWeightContext();
+    PyObject* wc_c_api = PyCapsule_New(reinterpret_cast<void*>
+                                (Hitcore::weightContext), NULL, NULL);
+    PyDict_SetItemString(hc_dict, "C_API_WEIGHT_CONTEXT", wc_c_api);
     return module;
 }
 
diff --git a/xboa/core/pylib/PyHitcore.hh b/xboa/core/pylib/PyHitcore.hh
index f32aed5..8ce2c06 100644
--- a/xboa/core/pylib/PyHitcore.hh
+++ b/xboa/core/pylib/PyHitcore.hh
@@ -229,6 +229,12 @@ int xboa::core::PyHitcore::import_PyHitcore() {
                 reinterpret_cast< std::map<Hitcore*, std::size_t>*>(spc_void);
     SmartPointer<Hitcore>::set_context(spc);
 
+    // share the weight context in force (see hitcore document)
+    PyObject* wc_c_api = PyDict_GetItemString(hc_dict, "C_API_WEIGHT_CONTEXT");
+    void* wc_void = PyCapsule_GetPointer(wc_c_api, NULL);
+    Hitcore::weightContext =
+                      reinterpret_cast< SmartPointer<WeightContext>*>(wc_void);
+
     if ((create_empty_hitcore == NULL) ||
         (set_hitcore == NULL) ||
         (check == NULL) ||
-- 
2.43.0


From 4bca47e1927c9d5f5835405aa6a64711d9fd493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 26/79] fix: hits and weight contexts must agree on the order
 of event and particle number

---
 xboa/core/cpplib/Hitcore.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index eae750d..a18ad0e 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -439,12 +439,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 }
 
 void Hitcore::set_global_weight(double global_weight) {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     (*weightContext)->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     double wt = (*weightContext)->getWeight(hitid);
     return wt;
 }
-- 
2.43.0


From 7fc9432c95a9fc12a7b6891f4756cde8c1d20965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 27/79] fix: keyword and missing arguments of the weight
 context's accessors

---
 xboa/core/pylib/PyWeightContext.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 1e3f269..ce82fbc 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -82,10 +82,10 @@ PyObject* setWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    double weight;
-    int spill, event, particle;
+    double weight = 1.;
+    int spill = 0, event = 0, particle = 0;
     std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
+        cstring("weight"), cstring("spill"), cstring("event_number"), cstring("particle_number"),
         cstring("eventNumber"), cstring("particleNumber"), NULL
     };
     int err = PyArg_ParseTupleAndKeywords(args, kwds, "|diiiii",
@@ -108,7 +108,7 @@ PyObject* getWeight(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
-    int spill, event, particle;
+    int spill = 0, event = 0, particle = 0;
     std::vector<char*> c_argnames = {
         cstring("spill"), cstring("event_number"), cstring("particle_number"),
         cstring("eventNumber"), cstring("particleNumber"), NULL
-- 
2.43.0


From d68d109995691f75ea05441ea7b5e5b398b1b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 28/79] fix: setting a bad value must leave the hit unchanged;
 integers may be set from floats

---
 xboa/core/pylib/PyHitcore.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index ad38822..9579462 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -101,10 +101,19 @@ PyObject* set(PyObject* self, PyObject *args, PyObject *kwds) {
 
     std::string variable_name(variable_name_c_str);
     double value_dbl = PyFloat_AsDouble(py_value);
+    if (value_dbl == -1. && PyErr_Occurred())
+        return NULL; // not a number, leave the hitcore unchanged
     if (hc->hitcore_->set_double(variable_name, value_dbl))
         Py_RETURN_NONE; // success, return None
 
-    int value_int = PyLong_AsLong(py_value);
+    PyObject* py_int = PyFloat_Check(py_value) ?
+                        PyLong_FromDouble(value_dbl) : PyNumber_Index(py_value);
+    if (py_int == NULL)
+        return NULL;
+    int value_int = PyLong_AsLong(py_int);
+    Py_DECREF(py_int);
+    if (value_int == -1 && PyErr_Occurred())
+        return NULL;
     if (hc->hitcore_->set_int(variable_name, value_int))
         Py_RETURN_NONE; // success, return None
 
-- 
2.43.0


From d792426af62f2d78d8fa338d1ee0702ca3b8c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 29/79] fix: cut must survive a comparator that changes the
 bunch

---
 xboa/core/cpplib/Bunchcore.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index e022861..75eff0a 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -228,9 +228,11 @@ bool Bunchcore::cut_double(const std::string cut_variable,
                                      Hitcore::get_double_function(cut_variable);
     if (function == NULL)
         return false;
-    // iterate over the hitcores, cutting
-    for (size_t i = 0; i < hitcores_.size(); ++i) {
-        Hitcore* hc = hitcores_[i].get();
+    // iterate over the hitcores, cutting; the comparator may change the bunch so
+    // keep hold of the hitcores
+    std::vector<SmartPointer<Hitcore> > hitcores(hitcores_);
+    for (size_t i = 0; i < hitcores.size(); ++i) {
+        Hitcore* hc = hitcores[i].get();
         // ignore NULLs
         if (hc == NULL)
             continue;
-- 
2.43.0


From e3fcf465064e44c054bbb9e7cb9eb876df641409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 30/79] fix: deleting and replacing hits, also by negative
 index, keeps bunch and core in step

---
 xboa/bunch/_bunch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 5bf91a4..189d974 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -123,13 +123,18 @@ class Bunch:
   
   def __setitem__(self, key, value):
     """Called by subscript operator, sets the key^th hit in the bunch"""
-    self.__hits[key] = value
-    self.__bunchcore.set_item(value._Hit__hitcore, key)
+    hitcore = value._Hit__hitcore
+    index = range(len(self.__hits))[operator.index(key)]
+    self.__hits[index] = value
+    self.__bunchcore.set_item(hitcore, index)
 
   def __delitem__(self, key):
     """Called by remove method, deletes the key^th hit in the bunch"""
+    indices = range(len(self.__hits))[key]
     self.__hits.__delitem__(key)
-    self.__bunchcore.__delitem__(key)
+    if not isinstance(key, slice): indices = [indices]
+    for index in sorted(indices, reverse=True):
+      self.__bunchcore.del_item(index)
 
   def __del__(self):
     """Called by del"""
-- 
2.43.0


From 7de35622ecfe44e86c8e5fee2e62953700d6be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 31/79] fix: copying or unpickling a hit must not change the
 weight of another particle

---
 xboa/hit/_hit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 0379b5d..f1296aa 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -145,8 +145,7 @@ class Hit(object):
     e.g. myHit = Hit.new_from_dict({'x':5, 'y':0, 'z':100, 'px':0, 'py':5, 'pz':200, 'pid':-13}, 'energy' )
     """
     my_hit = Hit()
-    for k,v in set_dict.items():
-      my_hit.set(k, v)
+    my_hit.__set_from_dict(set_dict)
     if(mass_shell_string != ''):
       my_hit.mass_shell_condition(mass_shell_string)
     return my_hit
@@ -694,8 +693,16 @@ class Hit(object):
     Sets self to be equal to new_from_dict(state)
     """
     self.__init__()
-    for k,v in state.items():
-      self.set(k, v)
+    self.__set_from_dict(state)
+
+  # set all variables in the dict; the global weight belongs to the spill, event
+  # and particle number so these have to be set first
+  def __set_from_dict(self, set_dict):
+    for k,v in set_dict.items():
+      if k != 'global_weight':
+        self.set(k, v)
+    if 'global_weight' in set_dict:
+      self.set('global_weight', set_dict['global_weight'])
 
   #write formatted output - don't touch mass or pid beyond reading them
   def __write_formatted(self, format_list, format_units_dict, file_handle, separator=' ', values={}):
-- 
2.43.0


From 160ae039b1849b0e5ad2f0d62ca76d9c42aaac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 32/79] fix: closed orbit generators must end, not raise an
 error, on python 3

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py   | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 7064b72..eef163c 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -19,7 +19,6 @@ Closed orbit finder
 """
 
 import math
-import json
 import copy
 try:
     import numpy
@@ -74,7 +73,7 @@ class EllipseClosedOrbitFinder(object):
         while True:
             for key in keys:
                 if step[key] >= step_end_dict[key]:
-                    raise StopIteration("Run out of steps at "+json.dumps(step))
+                    return # run out of steps
                 next_hit[key] = step[key]
             hit_list = self.tracking.track_one(next_hit)
             x_list = [[hit[key] for key in keys] for hit in hit_list]
@@ -128,20 +127,17 @@ class EllipseClosedOrbitFinder(object):
                                                           self.eps_max, True)
             except  (numpy.linalg.linalg.LinAlgError, ValueError):
                 if len(x_list) > number_of_points:
-                    raise StopIteration("Closed orbit has reached numerical "+\
-                                        "precision limit. Nice!")
+                    return # reached numerical precision limit. Nice!
                 else:
                     raise ValueError("Failed to find ellipse determinant.")
 
             yield my_co
             if my_co.get_mean_noise() < my_co.get_sigma_noise():
-                raise StopIteration("Closed orbit finder has reached "+\
-                                    "convergence limit. Tracking noise is "+\
-                                    "greater than ellipse size.")
+                return # reached convergence limit; tracking noise is greater
+                       # than ellipse size
             for i, var in enumerate(keys):
                 next_hit[var] = my_co.centre[i]
-        raise StopIteration("Closed orbit finder has finished iterating without converging.")
- 
+        # finished iterating without converging
 
     def check_closed_orbit(self, test_variable_dict, number_of_points):
         """
-- 
2.43.0


From 3300c1405f2d7090de558acebd0929bec77383da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 33/79] fix: closed orbit search without a limit on the
 iterations

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index eef163c..c67b4a4 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -119,7 +119,7 @@ class EllipseClosedOrbitFinder(object):
         next_hit = self.seed.deepcopy()
         noise_mean = None
         iteration = 0
-        while iteration < max_iterations or max_iterations == None:
+        while max_iterations == None or iteration < max_iterations:
             iteration += 1
             x_list = self._get_points(keys, next_hit, number_of_points)
             try:
-- 
2.43.0


From 0f526ddff36769a6ad2389826781f1e8eac3b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 34/79] fix: closed orbit finder must raise the documented
 error when the particle is lost

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index c67b4a4..35db009 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -173,7 +173,10 @@ class EllipseClosedOrbitFinder(object):
         if self.use_seed:
             hit_list.append(next_hit)
         while len(hit_list) < number_of_points:
-            hit_list += self.tracking.track_one(next_hit)[1:]
+            new_hits = self.tracking.track_one(next_hit)[1:]
+            if len(new_hits) == 0:
+                raise RuntimeError("Tracking failed to generate an ellipse")
+            hit_list += new_hits
             if hit_list[-1] == next_hit:
                 raise RuntimeError("Tracking failed to generate an ellipse")
             next_hit = hit_list[-1]
-- 
2.43.0


From 76cb105ea9f62a2175ddbe8788455945ab979806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 35/79] fix: scan_generator must not stop at the first row of a
 grid that meets its end

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 35db009..6f4c7b9 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -83,7 +83,7 @@ class EllipseClosedOrbitFinder(object):
             i = len(keys)-1
             key = keys[i]
             step[key] += step_size_dict[key]
-            while step[key] > step_end_dict[key] and i > 0:
+            while step[key] >= step_end_dict[key] and i > 0:
                 step[key] = step_start_dict[key]
                 i -= 1
                 key = keys[i]
-- 
2.43.0


From 685dd7ca82ccbf169d095e9907e3d2a85182e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 36/79] fix: extensions that share sources must not share
 objects in a parallel build

---
 setup.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/setup.py b/setup.py
index cee1a59..7656f09 100755
--- a/setup.py
+++ b/setup.py
@@ -2,10 +2,25 @@
 # NOTE -- when making distribution, distutils makes a MANIFEST folder
 # subsequently distutils ignores new files - urk
 
+import copy
 import os
 import sys
 import xboa
 from distutils.core import setup, Extension
+from distutils.command.build_ext import build_ext
+
+class BuildExt(build_ext):
+    """
+    Build each extension in its own directory
+
+    Some extensions share sources; in a parallel build one could link the object
+    that another was just writing, which gives a library that cannot be loaded.
+    """
+    def build_extension(self, ext):
+        """Build one extension in build_temp/<extension name>"""
+        own_build = copy.copy(self)
+        own_build.build_temp = os.path.join(self.build_temp, ext.name)
+        build_ext.build_extension(own_build, ext)
 
 prefix = os.path.join('/', sys.prefix, 'share' ,'xboa')
 dfiles = [(prefix+'/doc/',  ['README']),
@@ -76,6 +91,7 @@ setup(name='xboa',
                 'xboa.examples',
                 'xboa.test',
       ],
+      cmdclass={'build_ext':BuildExt},
       ext_modules = [hitcore_mod, bunchcore_mod, weight_context_mod],
       scripts=['xboa/examples/XBOA9f',
                'xboa/tracking/tracking_process/xboa_tracking_process.py'],
-- 
2.43.0


From 6f5b7e695ba23341d2e4f2ca82d482ee89420a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 37/79] fix: do not compare covariance matrices to None by
 value

---
 xboa/bunch/_bunch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 189d974..f6b2011 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -85,7 +85,7 @@ class Bunch:
   def __repr__(self):
     """Return a long string that contains data in every hit"""
     covs = 'None'
-    if self.__covs != None:
+    if self.__covs is not None:
       covs = 'numpy.'+repr(self.__covs)
     out = 'Bunch.new_from_hits( ['
     for hit in self.__hits:
@@ -686,7 +686,7 @@ class Bunch:
     """
     bunch_weight = self.bunch_weight()
     if abs(bunch_weight) < 1e-9: raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
-    if self.__covs != None and len(variable_list) == 2:
+    if self.__covs is not None and len(variable_list) == 2:
       axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
       try:
         i1 = axis_list.index(variable_list[0])
@@ -775,7 +775,7 @@ class Bunch:
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
     if use_internal_covariance_matrix:
-      if covariance_matrix == None:
+      if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__covs = covariance_matrix
       if mean_dict == {}:
@@ -787,7 +787,7 @@ class Bunch:
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-    return self.__covs != None
+    return self.__covs is not None
 
 
   def means_set(self):
@@ -1030,9 +1030,9 @@ class Bunch:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
     cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
     my_cov    = copy.deepcopy(covariance_matrix)
-    if my_cov == None:
+    if my_cov is None:
       my_cov = self.__cov_mat_picker(coupled_axis_list2)
-      if my_cov == None: 
+      if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
     ematrix = matrix(ematrix)
@@ -1886,7 +1886,7 @@ class Bunch:
 
   def __cov_mat_picker(self, axis_list):
     config.has_numpy()
-    if self.__covs == None: return None
+    if self.__covs is None: return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
-- 
2.43.0


From e0d533943df5aea0509e099c29958393c47363d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 38/79] fix: VoronoiWeighting on python 3, and with a mean

---
 xboa/bunch/weighting/_voronoi_weighting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index ee23c01..4cb51ff 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -99,7 +99,7 @@ class VoronoiWeighting(object):
         config.has_numpy()
         config.has_scipy()
         self.dim = len(weight_variables)
-        if weight_mean == None:
+        if weight_mean is None:
             weight_mean = numpy.array([0.]*self.dim)
         if (self.dim,) != numpy.shape(weight_mean):
             raise ValueError("weight_mean shape "+\
@@ -144,7 +144,7 @@ class VoronoiWeighting(object):
         Returns None (the bunch is weighted "in-place")
         """
         self.real_points = bunch.list_get_hit_variable(self.weight_variables)
-        self.real_points = zip(*tuple(self.real_points))
+        self.real_points = list(zip(*tuple(self.real_points)))
         self.real_points = numpy.array(self.real_points)
         if self.voronoi_bound != None:
             self.real_points, not_cut = \
-- 
2.43.0


From c0f34510e64b2c9f636a24d7b659bb94a8fdfe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 39/79] fix: HullContent for any list of regions

---
 xboa/bunch/weighting/_hull_content.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 98b8d59..05808b3 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -65,13 +65,13 @@ class HullContent(object):
         Recalculate the tile content list
         """
         job_list = [None]*len(self.region_list)
-        for i in self.region_list:
+        for job_index, i in enumerate(self.region_list):
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             points = numpy.array([self.tesselation.vertices[j] for j in region])
-            job_list[i] = (region, points)
+            job_list[job_index] = (region, points)
         self.tile_content_list = self.pool.map(_tile_content, job_list)
 
 def _init_worker():
-- 
2.43.0


From 51e76675cdb6da63cf251671a10a41653f227b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 40/79] fix: substitute must leave line endings alone

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 35e10ef..3d6c3f3 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -146,8 +146,8 @@ def substitute(file_name_in, file_name_out, switch_dict):
 
   e.g. common.substitute('file.in', 'file.out', {'energy':'momentum'})
   """
-  with open(file_name_in,  'r') as fin:
-    with open(file_name_out, 'w') as fout:
+  with open(file_name_in,  'r', newline='') as fin:
+    with open(file_name_out, 'w', newline='') as fout:
       for line in fin:
         for key, value in switch_dict.items():
           line = line.replace(str(key), str(value))
-- 
2.43.0


From a5e0d8ff8cc26e4e5395e8279211e9cc529498f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 41/79] fix: kill subprocesses at exit, rather than wait for
 them to end

---
 xboa/common/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 3d6c3f3..8d4d877 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -55,6 +55,9 @@ except ImportError:
     pass
 try:
     import multiprocessing
+    # exit functions run in reverse order; ours has to run before the one that
+    # waits for all processes to end
+    import multiprocessing.util
 except ImportError:
     pass
 
-- 
2.43.0


From 353fb318b3e81f1e05be8d4362db6016b63e4986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 42/79] fix: a tracking job whose start fails must forget its
 earlier run first

---
 xboa/tracking/tracking_process/_bsub_process.py      | 1 +
 xboa/tracking/tracking_process/_this_node_process.py | 1 +
 xboa/tracking/tracking_process/_tracking_process.py  | 4 ++--
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index df11640..99294d1 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -57,6 +57,7 @@ class BSubProcess(TrackingProcess):
         if self.is_alive():
             raise RuntimeError("Attempt to start a process that is already "+\
                                "started")
+        self.pid = None
         self._clear_return_value()
         log = os.path.join(self.out_dir, self.std_out)
         err = os.path.join(self.out_dir, self.std_err)
diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index f111e40..7aaf8c0 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -60,6 +60,7 @@ class ThisNodeProcess(TrackingProcess):
         if self.is_alive():
             raise RuntimeError("Attempt to start a process that is already "+\
                                "started")
+        self.proc = None
         self._clear_return_value()
         self.proc = subprocess.Popen([self.run_executable,
                                       "--out-dir", self.out_dir])
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index 789f942..85024dd 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -150,11 +150,11 @@ class TrackingProcess(object):
         Forget the outcome of any previous run, so that it cannot be mistaken
         for the outcome of the run that is about to start
         """
+        self.exitcode = None
+        self.return_value = None
         return_path = os.path.join(self.out_dir, self.pickle_sandwich)
         if os.path.exists(return_path):
             os.remove(return_path)
-        self.exitcode = None
-        self.return_value = None
 
     @classmethod
     def new_from_pickle(cls, pickle_dir):
-- 
2.43.0


From 1276fce952e495c7784bc166b403a7856c894317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 43/79] fix: switching off kill_subprocesses_at_exit in
 xboa.common must have an effect

---
 xboa/common/_common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 8d4d877..8e0afa6 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -834,7 +834,9 @@ def kolmogorov_smirnov_test(list_1, list_2):
 
 def __atexit():
   """Calls some functions automatically at exit"""
-  if(kill_subprocesses_at_exit):
+  # users set the switch in the xboa.common namespace
+  import xboa.common
+  if(kill_subprocesses_at_exit and xboa.common.kill_subprocesses_at_exit):
     kill_all_subprocesses()
 atexit.register(__atexit)
 
-- 
2.43.0


From f9eb9378eed420284a12c346c131665d6fe2cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 44/79] fix: substitute no longer empties a file that is
 substituted in place

---
 xboa/common/_common.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 8e0afa6..2e9706e 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -149,12 +149,14 @@ def substitute(file_name_in, file_name_out, switch_dict):
 
   e.g. common.substitute('file.in', 'file.out', {'energy':'momentum'})
   """
+  # the input is read first, as the output may replace it
   with open(file_name_in,  'r', newline='') as fin:
-    with open(file_name_out, 'w', newline='') as fout:
-      for line in fin:
-        for key, value in switch_dict.items():
-          line = line.replace(str(key), str(value))
-        fout.write(line)
+    lines = fin.readlines()
+  with open(file_name_out, 'w', newline='') as fout:
+    for line in lines:
+      for key, value in switch_dict.items():
+        line = line.replace(str(key), str(value))
+      fout.write(line)
 
 wrapped_y_function = None
 def __y_function_wrapper(x_list_of_lists):
-- 
2.43.0


From 67463496fd8150a611872a337094dff915c8d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 45/79] fix: conditional_remove in units of sigma uses the
 standard deviation itself

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index f6b2011..3b0ea8f 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -632,7 +632,7 @@ class Bunch:
     """
     for variable, cut_value in variable_value_dict.items():
       if(value_is_nsigma_bool):
-        cut_value *= self.standard_deviation(variable, self.mean([variable]))**0.5
+        cut_value *= self.standard_deviation(variable, self.mean([variable]))
       # optimisation for amplitude cut: calculate covariance matrix first
       # optimisation for gt/lt: sort the hit_value_list first then cut
       hit_value_list = self.list_get_hit_variable([variable])[0]
-- 
2.43.0


From 564a9fe50a3b91f7c92391c17d24d553ede7f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 46/79] fix: arithmetic of a weight table with text raises an
 error

---
 xboa/core/pylib/PyWeightContext.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index ce82fbc..89afed6 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -193,7 +193,8 @@ void _free(PyWeightContext * self) {
 }
 
 int parseArg(PyObject* o1, PyObject** f1, PyWeightContext** pywc1) {
-    *f1 = PyNumber_Float(o1);
+    // text is not a number, although float() can make one of it
+    *f1 = PyNumber_Check(o1) ? PyNumber_Float(o1) : nullptr;
     *pywc1 = reinterpret_cast<PyWeightContext*>(o1);
     if (*f1 == nullptr) {
         PyErr_Clear();
-- 
2.43.0


From 4e00e485e6d194a0559fcce0f258d89ae8ea8f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 47/79] fix: moments use the bunch mean of variables for which
 no mean is given

---
 xboa/bunch/_bunch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 3b0ea8f..44a4110 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -694,8 +694,9 @@ class Bunch:
         return float(self.__covs[i1,i2]) # not numpy.float64
       except ValueError:
         pass
-    if variable_mean_dict == {}:
-      variable_mean_dict = self.mean(variable_list)
+    missing_list = [var for var in variable_list if not var in variable_mean_dict]
+    if len(missing_list) > 0:
+      variable_mean_dict = {**self.mean(missing_list), **variable_mean_dict}
     try:
       moment = self.__bunchcore.moment(variable_list, variable_mean_dict)
       return moment
-- 
2.43.0


From fc6f9f2159e74c7d66c047347b944944ebffa612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 48/79] fix: a bunch with infinite or undefined hit data can be
 copied

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 44a4110..ac1d0be 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -103,7 +103,7 @@ class Bunch:
 
   def __deepcopy__(self, target):
     """Make a copy and copy self's data"""
-    target = eval(self.__repr__())
+    target = Bunch.new_from_hits(self.__hits)
     target.__covs  = copy.deepcopy(self.__covs)
     target.__means = copy.deepcopy(self.__means)
     return target
-- 
2.43.0


From 75c5f3a7f63939865e951b72277414a6ada1180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 49/79] fix: set_covariance_matrix recalculates also when the
 bunch has values in store

---
 xboa/bunch/_bunch.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index ac1d0be..8e2bc51 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -775,16 +775,20 @@ class Bunch:
 
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
-    if use_internal_covariance_matrix:
+    old_covs, old_means = self.__covs, self.__means
+    self.__covs  = None # calculate from the hits, not from the values in store
+    self.__means = {}
+    if not use_internal_covariance_matrix: return
+    try:
       if covariance_matrix is None:
-        self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
-      else: self.__covs = covariance_matrix
+        covariance_matrix = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       if mean_dict == {}:
-        self.__means = self.mean(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
-      else: self.__means = mean_dict
-    else:
-      self.__covs  = None
-      self.__means = {}
+        mean_dict = self.mean(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
+    except Exception:
+      self.__covs, self.__means = old_covs, old_means
+      raise
+    self.__covs  = covariance_matrix
+    self.__means = mean_dict
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-- 
2.43.0


From d4354e0dae07a320a5afc3a2f703c711f8ab7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 50/79] fix: DPhiTuneFinder must not average over the data of
 earlier trackings

---
 xboa/algorithms/tune/_dphi_tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/tune/_dphi_tune.py b/xboa/algorithms/tune/_dphi_tune.py
index d449e4b..c991a11 100644
--- a/xboa/algorithms/tune/_dphi_tune.py
+++ b/xboa/algorithms/tune/_dphi_tune.py
@@ -70,6 +70,7 @@ class DPhiTuneFinder(object):
         points = zip(self.u, self.up)
         plot_x, plot_y = [], []
         self.point_circles = []
+        self.dphi = []
         for point in points:
             point_array = numpy.array([point[0]-self.centre[0],
                                     point[1]-self.centre[1]])
-- 
2.43.0


From 9c36b5922cf78649c5cb86f5da8942a8b0e27ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 51/79] fix: FFTTuneFinder must not shorten the lists of the
 caller

---
 xboa/algorithms/tune/_fft_tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 2198b44..a502a90 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -82,8 +82,8 @@ class FFTTuneFinder(object):
             raise ValueError("No data set for Fourier Transform")
         if len(self.u) % 2 == 0:
             if self.up != None:
-                del self.up[-1]
-            del self.u[-1]
+                self.up = self.up[:-1]
+            self.u = self.u[:-1]
         if tune_tolerance == None:
             tune_tolerance = 1./len(self.u)/100.
         self._fft_find_peaks()
-- 
2.43.0


From 0fd422991d601434422be5c3317086e265eadc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 52/79] fix: FFTTuneFinder must not go on with the peaks of
 earlier data

---
 xboa/algorithms/tune/_fft_tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index a502a90..7fb7141 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -259,6 +259,7 @@ class FFTTuneFinder(object):
         """
         Run the peak finder
         """
+        self.peak_x_list, self.peak_y_list = [], []
         peak_index_list = sorted(self._peak_finder.find_peaks(self.k_mag_y))
         if len(peak_index_list) == 0:
             return
-- 
2.43.0


From 5e49e0ea4c63cb13b506db7bacd5ae2bbf741b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 53/79] fix: read track points of MAUS ROOT files

A generator that raises StopIteration ends in a RuntimeError since Python 3.7,
so that no reconstructed track point could be read.
---
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index 3d9872c..71525d0 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -129,7 +129,6 @@ class MausRootReconHitFactory(HitFactoryBase):
                 hit["spill"] = self.spill_number
                 hit["particle_number"] = track_i
                 yield hit
-        raise StopIteration("Out of events")
 
     def _read_tof_01_space_points(self, tof_event):
         """
-- 
2.43.0


From 2b57b2e6b3b898c376da5e20b1dfddb845db89fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 54/79] fix: charge of MAUS primaries is that of their particle
 id

---
 xboa/hit/factory/_maus_root_hit_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 2bcb986..783dc58 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -171,7 +171,7 @@ class MausRootHitFactory(HitFactoryBase):
                 hit["mass"] = 0.
                 self.bad_pid(hit["pid"])
             try:
-                hit["charge"] = common.pdg_pid_to_charge[hit["charge"]]
+                hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
             except KeyError:
                 hit["charge"] = 0.
                 self.bad_pid(hit["pid"])
-- 
2.43.0


From 9f2585098bcb3a167c8dd6b7efc1f09ab945dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 55/79] fix: number_of_hits is the limit over all matching MAUS
 ROOT files

---
 xboa/bunch/_bunch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 8e2bc51..0d393c0 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -307,9 +307,12 @@ class Bunch:
       hit_list = []
       for file_name in file_name_list:
           print("Loading", file_name)
+          hits_left = number_of_hits
+          if number_of_hits >= 0:
+              hits_left = number_of_hits - len(hit_list)
           hit_list += Bunch.read_maus_root_file(
                                           file_name,
-                                          number_of_hits,
+                                          hits_left,
                                           list_of_maus_types=[file_type_string],
                                           test_function=test_function
                                   )
-- 
2.43.0


From 16c53c3cc138b9704115f007b981f50e8c76b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 56/79] fix: errors while reading a MAUS ROOT file reach the
 caller

An AttributeError was printed and the particles read so far returned as if
they were all there are.
---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 0d393c0..89c58f9 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -443,8 +443,8 @@ class Bunch:
                     break
         root_file.Close()
     except AttributeError:
-        sys.excepthook(*sys.exc_info())
         print("Failed while reading events from file", file_name)
+        raise
     return hits
   read_maus_root_file = staticmethod(read_maus_root_file)
 
-- 
2.43.0


From 52278ba8e8a85c04392b7d8ae000caa98dcadbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 57/79] fix: an entry of a MAUS ROOT file that fails leaves no
 particles behind

After an error in an entry, the particles read from it so far stayed pending
without having been tested, so that refused particles, and others twice, came
from later reading.
---
 xboa/hit/factory/_maus_root_hit_factory.py       | 8 ++++++--
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 783dc58..3859115 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -52,9 +52,13 @@ class MausRootHitFactory(HitFactoryBase):
         self.tree.GetEntry(self.entry)
         self.spill = data.GetSpill()
         self.spill_number = self.spill.GetSpillNumber()
-        self._read_maus_spill()
-        self.hits = [hit for hit in self.hits \
+        hits, self.hits = self.hits, []
+        try:
+            self._read_maus_spill()
+            hits = hits + [hit for hit in self.hits \
                        if self.test_function == None or self.test_function(hit)]
+        finally:
+            self.hits = hits
         self.entry += 1
 
     def make_hit(self):
diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index 71525d0..a03ec64 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -55,9 +55,13 @@ class MausRootReconHitFactory(HitFactoryBase):
         self.tree.GetEntry(self.entry)
         self.spill = data.GetSpill()
         self.spill_number = self.spill.GetSpillNumber()
-        self._read_maus_spill()
-        self.hits = [hit for hit in self.hits \
+        hits, self.hits = self.hits, []
+        try:
+            self._read_maus_spill()
+            hits = hits + [hit for hit in self.hits \
                        if self.test_function == None or self.test_function(hit)]
+        finally:
+            self.hits = hits
         self.entry += 1
 
     def make_hit(self):
-- 
2.43.0


From 52d441b08aae6151bd5d6ccf6256836825a8e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 58/79] fix: only the end of the entries ends reading of a MAUS
 ROOT file

An IndexError of an acceptance test or of an entry was taken for the end, and
the particles read so far returned as if they were all there are.
---
 xboa/hit/factory/_maus_root_hit_factory.py       | 11 +++++------
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 3859115..b389c1b 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -65,12 +65,11 @@ class MausRootHitFactory(HitFactoryBase):
         """
         Return the next hit from the given spill document
         """
-        try:
-            while len(self.hits) == 0:
-                self.new_spill()
-            return self.hits.pop(0)
-        except IndexError:
-            raise xboa.hit.BadEventError("Run out of events")
+        while len(self.hits) == 0:
+            if self.entry >= self.tree.GetEntries():
+                raise xboa.hit.BadEventError("Run out of events")
+            self.new_spill()
+        return self.hits.pop(0)
 
     def _read_maus_spill(self):
         """
diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index a03ec64..89ff405 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -68,12 +68,11 @@ class MausRootReconHitFactory(HitFactoryBase):
         """
         Return the next hit from the given spill document
         """
-        try:
-            while len(self.hits) == 0:
-                self.new_spill()
-            return self.hits.pop(0)
-        except IndexError:
-            raise xboa.hit.BadEventError("Run out of events")
+        while len(self.hits) == 0:
+            if self.entry >= self.tree.GetEntries():
+                raise xboa.hit.BadEventError("Run out of events")
+            self.new_spill()
+        return self.hits.pop(0)
 
     def _read_maus_spill(self):
         """
-- 
2.43.0


From 7d80e66fea89b8bae37c2049476686b86a2059c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 59/79] fix: emittances, lattice functions and amplitudes use
 the kind of momenta asked for

get_emittance ignored its argument geometric, so that it, and with it beta,
gamma, alpha and amplitudes, used the default kind in part or altogether.
---
 xboa/bunch/_bunch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 89c58f9..823d42a 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -942,7 +942,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     gamma     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       gamma += self.moment([mom,mom], self.mean([mom]))
@@ -970,7 +970,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     alpha     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       alpha += self.moment([axis,mom], self.mean([axis, mom]))
@@ -1117,14 +1117,14 @@ class Bunch:
     and |V| is the determinant.
     """
     if geometric is None: geometric = Bunch.__geometric_momentum
-    cov_list  = Bunch.axis_list_to_covariance_list(axis_list)
+    cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
       my_cov = self.__cov_mat_picker(axis_list)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_list)
     emittance = linalg.det(my_cov)**(1./len(cov_list))
-    if not Bunch.__geometric_momentum:
+    if not geometric:
       emittance /= self.__hits[0].get('mass')
     return float(emittance)
   
@@ -1211,7 +1211,7 @@ class Bunch:
       if my_cov is None:
         my_cov = bunch.covariance_matrix(cov_list)
     my_amp = my_vector*linalg.inv(my_cov)*my_vector.T
-    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov)
+    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov, geometric)
   get_amplitude = staticmethod(get_amplitude)
 
   def axis_list_to_covariance_list(axis_list, geometric=None):
-- 
2.43.0


From b44d9ed911594095d16c0d2916f93165fa398093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 60/79] fix: get_dispersion_prime follows the default kind of
 momenta

---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 823d42a..510d395 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1021,6 +1021,7 @@ class Bunch:
     ~~~~~~~~~~~~~~~
     would return the dispersion in the y-direction
     """
+    if geometric == None: geometric = Bunch.__geometric_momentum
     mom = Bunch.momentum_variable(axis, geometric)
     return self.moment([mom,'energy'])*self.mean(['energy'])['energy']/self.moment(['energy','energy'])
 
-- 
2.43.0


From c21589760b1ebada8cc6773ae8717a53f85bc4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 61/79] fix: Bunch.histogram chooses the number of bins of two
 dimensional histograms

The number of dimensions was passed as a number of bins, and without ny_bins
the histogram failed with a division by zero.
---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 510d395..d05e23b 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1548,7 +1548,7 @@ class Bunch:
       (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, 1)
     else:
       y_points                  = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
-      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, 2)
+      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, n_dimensions=2)
       y_bins                    = Common.get_bin_edges(y_points, ny_bins, ymin, ymax)
     x_bins = Common.get_bin_edges(x_points, nx_bins, xmin, xmax)
     return self.histogram_var_bins(x_axis_string, x_bins, x_axis_units, y_axis_string, y_bins, y_axis_units)
-- 
2.43.0


From 9d6558e3b1717a3e0cc06a029e014a24d72b95fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 62/79] fix: mass_shell_condition of 'p' sets 0 if it cannot be
 obeyed, like that of the components

---
 xboa/hit/_hit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index f1296aa..b28b8af 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -302,7 +302,12 @@ class Hit(object):
     e  = self.get('energy')
     m  = self.get('mass')
     if(variable_string == 'p'):
-      self.set('p',  ( (e-m)*(e+m) )**0.5 )
+      val = (e-m)*(e+m)
+      if val>0.:
+        self.set('p', val**0.5 )
+      else:
+        self.set('p', 0.)
+        return False
     elif(variable_string == 'px'):#get direction right!
       val = (e*e-m*m-py*py-pz*pz)
       if val>float_tolerance:
-- 
2.43.0


From aaf224b319b757e01515fcfe62ee83d7364df412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 63/79] fix: MultipoleWeighting multiplies target and present
 moments the right way round

---
 xboa/bunch/weighting/_multipole_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index cdaa280..57156d2 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -122,7 +122,7 @@ class MultipoleWeighting(object):
                 list_ij = [list_i[i1]+list_j[i1] \
                                            for i1, index_i in enumerate(list_i)]
                 m_matrix[i, j] = \
-                      self._v_f(list_ij) - self._v_f(list_i) * self._v_g(list_j)
+                      self._v_f(list_ij) - self._v_f(list_j) * self._v_g(list_i)
         m_inverse = numpy.linalg.inv(m_matrix)
         u_vector = numpy.zeros([len(self.v_g_index_by_power)])
         for i, list_i in enumerate(self.v_g_index_by_power):
-- 
2.43.0


From 8013505e52f4c7d5b3675ae6d5730a15dce01a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 64/79] fix: MultipoleWeighting refuses targets given twice in
 any order

---
 xboa/bunch/weighting/_multipole_weighting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 57156d2..4b02b95 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -102,11 +102,11 @@ class MultipoleWeighting(object):
                 if type(index) != type(0):
                     raise ValueError("Index type is non-integer")
 
-        for i, item in enumerate(moment_index_list[1:]):
-            if item == moment_index_list[i]:
-               raise ValueError("Indices should be unique")
         # zip and sort
         sorted_list = sorted(zip(moment_index_list, moment_list))
+        for i, item in enumerate(sorted_list[1:]):
+            if item[0] == sorted_list[i][0]:
+               raise ValueError("Indices should be unique")
         # unzip
         self.v_g_index_by_power, self.v_g_list = zip(*sorted_list)
 
-- 
2.43.0


From 65e4bd461e5c41c80bd420c1a8ca09aa551492f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 65/79] fix: MultipoleWeighting refuses targets of an order
 whose moments it does not have

---
 xboa/bunch/weighting/_multipole_weighting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 4b02b95..307fef0 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -135,6 +135,10 @@ class MultipoleWeighting(object):
         Get the element in v_f corresponding to index_list
         """
         index = bisect.bisect_left(self.v_f_index_by_power, index_list)
+        if index == len(self.v_f_index_by_power) or \
+           self.v_f_index_by_power[index] != index_list:
+            raise ValueError("Moment "+str(index_list)+" is beyond twice the "+
+                             "maximum pole "+str(self.maximum_moment))
         v_f_ = self.v_f_list[index]
         return v_f_
 
-- 
2.43.0


From 299cbcd05f105fb742259d0e8380cf0e852d6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 66/79] fix: nd_newton_raphson1 keeps each search's function to
 itself

---
 xboa/common/_common.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 2e9706e..dca989b 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -158,13 +158,6 @@ def substitute(file_name_in, file_name_out, switch_dict):
         line = line.replace(str(key), str(value))
       fout.write(line)
 
-wrapped_y_function = None
-def __y_function_wrapper(x_list_of_lists):
-  global wrapped_y_function
-  out = []
-  for value in x_list_of_lists: out.append(wrapped_y_function(value))
-  return out
-
 def nd_newton_raphson1(y_function, y_tolerances_list, x_start_values_list, x_deltas_list, max_iteration=10, x_upper_limits=None, x_lower_limits = None, verbose=True):
   """
   Root finding in an arbitrary dimensional system. Returns x-value for y(x) = 0; caveat is dimension of y must equal dimension of x.
@@ -181,9 +174,10 @@ def nd_newton_raphson1(y_function, y_tolerances_list, x_start_values_list, x_del
   e.g. nd_newton_raphson(some_function, [0.1, 0.1], [0,0], [1,1]) will find root to y(x) < (0.1,0.1); starting at x=(0,0); initial error estimated to be [1,1]. 
   some_function would be called like some_function([x_0, x_1]) and should return a list like [y_0,y_1]
   """
-  global wrapped_y_function
-  wrapped_y_function = y_function
-  return nd_newton_raphson2( __y_function_wrapper, y_tolerances_list, x_start_values_list, x_deltas_list, max_iteration, x_upper_limits, x_lower_limits, verbose)
+  # a function of its own for each search, as several may go on at a time
+  def y_function_wrapper(x_list_of_lists):
+    return [y_function(value) for value in x_list_of_lists]
+  return nd_newton_raphson2( y_function_wrapper, y_tolerances_list, x_start_values_list, x_deltas_list, max_iteration, x_upper_limits, x_lower_limits, verbose)
 
 def nd_newton_raphson2(y_function, y_tolerances_list, x_start_values_list, x_deltas_list, max_iteration=10, x_upper_limits=None, x_lower_limits = None, verbose=True):
   """
-- 
2.43.0


From 1cc2d7bd6b9f17bf77abcb3df650caa447c222da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 67/79] fix: fit_ellipse cuts on the content in any dimension

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index dca989b..930a4c5 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -991,7 +991,7 @@ def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
 
 def _update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
     n_points = len(points)
-    n_dim = 2
+    n_dim = len(mean)
     in_cut = [True for i in range(n_points)]
     sqrt_det_inv = numpy.linalg.det(cov_inv)**(1./float(n_dim))
     for i in range(n_points):
-- 
2.43.0


From cb913e4b0ba3eef97ef04e1eb5445e9ca212cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 68/79] fix: an index beyond all limits is refused, not taken
 for 0

---
 xboa/core/utils/TypeConversions-inl.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 31bffcb..914559e 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -23,7 +23,9 @@ bool PyCppIndexConverter::convert(PyObject* py_int, size_t* index) const {
         PyErr_SetString(PyExc_TypeError, "Index was not an integer");
         return false;
     }
-    Py_ssize_t py_index = PyLong_AsSsize_t(py_int);
+    Py_ssize_t py_index = PyNumber_AsSsize_t(py_int, PyExc_IndexError);
+    if (py_index == -1 && PyErr_Occurred())
+        return false; // too big for any sequence
     if (py_index < 0) {
         *index = abs(py_index+1);
     } else {
-- 
2.43.0


From 9562096875fbb5e0538f75a9b8dd9cea034d43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 69/79] fix: conversions between Python and C++ keep no
 references

---
 xboa/core/pylib/PyBunchcore.cc         |  4 +---
 xboa/core/utils/TypeConversions-inl.hh | 27 +++++++++++++++++---------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 654c17e..1e6b6ef 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -242,9 +242,7 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
     }
 
     // return
-    PyObject* py_moment = PyFloat_FromDouble(moment);
-    Py_INCREF(py_moment);
-    return py_moment;
+    return PyFloat_FromDouble(moment);
 }
 
 
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 914559e..56d45c8 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -45,6 +45,7 @@ bool PyCppStringConverter::convert(PyObject* py_string,
         PyObject* bytes = PyUnicode_AsASCIIString(py_string);
         if (bytes) {
             *cpp_string = std::string(PyBytes_AsString(bytes));
+            Py_DECREF(bytes);
             return true;
         }
     }
@@ -135,14 +136,17 @@ bool CppPyMapToDictConverter<KEY, VALUE>::convert(
         PyErr_SetString(PyExc_RuntimeError, "Failed to allocate dict");
         return false;
     }
-    Py_INCREF(*py_dict);
     typename std::map<KEY, VALUE>::const_iterator it;
     for (it = std_map->begin(); it != std_map->end(); ++it) {
-        PyObject *py_key, *py_value;
-        if (key_c_->convert(&it->first, &py_key) &&
-            value_c_->convert(&it->second, &py_value)) {
-            PyDict_SetItem(*py_dict, py_key, py_value);
-        } else {
+        PyObject *py_key = NULL, *py_value = NULL;
+        bool okay = key_c_->convert(&it->first, &py_key) &&
+                    value_c_->convert(&it->second, &py_value) &&
+                    PyDict_SetItem(*py_dict, py_key, py_value) == 0;
+        // the dict holds its own references
+        Py_XDECREF(py_key);
+        Py_XDECREF(py_value);
+        if (!okay) {
+            Py_CLEAR(*py_dict);
             return false;
         }
     }
@@ -173,14 +177,19 @@ bool CppPyVectorToListConverter<ELEMENT>::convert(
     }
 
     *py_list = PyList_New(0);
-    Py_INCREF(*py_list);
+    if (*py_list == NULL)
+        return false;
     for (size_t i = 0; i < std_vector->size(); ++i) {
         ELEMENT element = std_vector->at(i);
-        PyObject* py_element;
+        PyObject* py_element = NULL;
         if (!converter_->convert(&element, &py_element)) {
+            Py_CLEAR(*py_list);
             return false;
         }
-        if (PyList_Append(*py_list, py_element) != 0) {
+        int error = PyList_Append(*py_list, py_element);
+        Py_DECREF(py_element); // the list holds its own reference
+        if (error != 0) {
+            Py_CLEAR(*py_list);
             PyErr_SetString(PyExc_RuntimeError,
                             "Failed to append element");
             return false;
-- 
2.43.0


From 7faa5e82ac986111946d8aac5cb4e2fc91c0f40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 70/79] fix: Bunchcore reports failed allocations and
 conversions

---
 xboa/core/pylib/PyBunchcore.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 1e6b6ef..892db2e 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -148,7 +148,11 @@ PyObject* set_item(PyObject* self, PyObject *args, PyObject *kwds) {
                                  reinterpret_cast<PyHitcore::PyHitcore*>(py_hc);
 
     // Py_INCREF(py_hc);
-    bc->set_item(index, py_hc_alt->hitcore_);
+    try {
+        bc->set_item(index, py_hc_alt->hitcore_);
+    } catch (std::exception& err) { // no room for that many elements
+        return PyErr_NoMemory();
+    }
     Py_RETURN_NONE;
 }
 
@@ -385,10 +389,16 @@ PyObject* moment_tensor(PyObject* self, PyObject *args, PyObject *kwds) {
     PyCppStringConverter str_conv;
     PyCppListToVectorConverter<std::string> list_conv(&str_conv);
     std::vector<std::string> axes;
-    list_conv.convert(py_axes, &axes);
+    if (!list_conv.convert(py_axes, &axes))
+        return NULL;
     std::vector<std::vector<size_t> > index_by_power;
     std::vector<double> moments;
-    bool ok = bc->get_moment_tensor(axes, max_power, &moments, &index_by_power);
+    bool ok = false;
+    try {
+        ok = bc->get_moment_tensor(axes, max_power, &moments, &index_by_power);
+    } catch (std::bad_alloc& err) {
+        return PyErr_NoMemory();
+    }
     if (!ok) {
         PyErr_SetString(PyExc_RuntimeError, "Failed during moment tensor call");
         return NULL;
@@ -396,7 +406,8 @@ PyObject* moment_tensor(PyObject* self, PyObject *args, PyObject *kwds) {
     CppPyDoubleConverter double_converter;
     CppPyVectorToListConverter<double> vec_converter(&double_converter);
     PyObject* py_list;
-    vec_converter.convert(&moments, &py_list);
+    if (!vec_converter.convert(&moments, &py_list))
+        return NULL;
     return py_list;
 }
 
@@ -428,15 +439,20 @@ PyObject* index_by_power(PyObject* self, PyObject *args, PyObject *kwds) {
         PyErr_SetString(PyExc_ValueError, "Number of axes must be at least 1");
         return NULL;
     }
-    std::vector<std::vector<size_t> > powers =
-                               Bunchcore::get_index_by_power(max_power, n_axes);
+    std::vector<std::vector<size_t> > powers;
+    try {
+        powers = Bunchcore::get_index_by_power(max_power, n_axes);
+    } catch (std::bad_alloc& err) {
+        return PyErr_NoMemory();
+    }
     // Now convert to python
     CppPyIntConverter<size_t> size_t_converter;
     CppPyVectorToListConverter<size_t> vec_converter(&size_t_converter);
     CppPyVectorToListConverter<std::vector<size_t> >
                                               vec_vec_converter(&vec_converter);
     PyObject* py_list = NULL;
-    vec_vec_converter.convert(&powers, &py_list);
+    if (!vec_vec_converter.convert(&powers, &py_list))
+        return NULL;
     return py_list;
 }
 
-- 
2.43.0


From ce3865eb8074dbd2f6bfd617bd0ea1d1e9c9e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 71/79] fix: Hitcore lists of names and of memory survive
 failing allocations

---
 xboa/core/pylib/PyHitcore.cc | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 9579462..b51f180 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -70,15 +70,24 @@ PyObject* get(PyObject* self, PyObject *args, PyObject *kwds) {
     return NULL;
 }
 
+/** Make a Python list of names; returns NULL on failure */
+PyObject* names_list(const std::vector<std::string>& names) {
+  PyObject* list = PyList_New(names.size());
+  for(size_t i=0; list != NULL && i<names.size(); i++) {
+    PyObject* name = Py_BuildValue("s", names[i].c_str());
+    if (name == NULL)
+        Py_CLEAR(list);
+    else
+        PyList_SetItem(list, i, name); // steals the reference
+  }
+  return list;
+}
+
 std::string get_variables_docstring =
 std::string("Get a list of variables valid for calling from get(...).");
 
 PyObject* get_variables(PyObject* self, PyObject *args, PyObject *kwds) {
-  std::vector<std::string> names = Hitcore::get_names();
-  PyObject* list = PyList_New(names.size());
-  for(size_t i=0; i<names.size(); i++)
-    PyList_SetItem(list, i, Py_BuildValue("s", names[i].c_str())); // ok?
-  return list;
+  return names_list(Hitcore::get_names());
 }
 
 std::string set_docstring =
@@ -125,11 +134,7 @@ std::string set_variables_docstring =
 std::string("Get a list of variables valid for calling from set(...).");
 
 PyObject* set_variables(PyObject* self, PyObject *args, PyObject *kwds) {
-  std::vector<std::string> names = Hitcore::set_names();
-  PyObject* list = PyList_New(names.size());
-  for(size_t i=0; i<names.size(); i++)
-    PyList_SetItem(list, i, Py_BuildValue("s", names[i].c_str())); // ok?
-  return list;
+  return names_list(Hitcore::set_names());
 }
 
 std::string clear_global_weights_docstring =
@@ -153,7 +158,8 @@ PyObject* dump_memory(PyObject* self, PyObject *args, PyObject *kwds) {
     const CppPyIntConverter<size_t> size_t_conv;
     CppPyMapToDictConverter<Hitcore*, size_t> map_conv(&hc_conv, &size_t_conv);
     PyObject* memory = NULL;
-    map_conv.convert(refs, &memory);
+    if (!map_conv.convert(refs, &memory))
+        return NULL;
     return memory;
 }
 
-- 
2.43.0


From ae00160696878cf9da539ce7fb698df6ef82ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 72/79] fix: comparators of cut_double keep no references to
 arguments and results

---
 xboa/core/utils/PythonComparator.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xboa/core/utils/PythonComparator.hh b/xboa/core/utils/PythonComparator.hh
index 74b8f6a..05fdb01 100644
--- a/xboa/core/utils/PythonComparator.hh
+++ b/xboa/core/utils/PythonComparator.hh
@@ -62,13 +62,19 @@ bool PythonComparator::compare(double variable, double cut_value) const {
     if (py_cmp_ == NULL)
         return false;
     PyObject *args = Py_BuildValue("dd", variable, cut_value);
+    if (args == NULL)
+        throw std::logic_error("Failed to build comparator arguments");
     PyObject *ret_bool = PyObject_CallObject(py_cmp_, args);
+    Py_DECREF(args);
     if (ret_bool == NULL || !PyBool_Check(ret_bool)) {
+        Py_XDECREF(ret_bool);
         throw std::logic_error("Failed to call python comparator");
     }
     // I could check ret_bool using PyBool_Check I guess, and set a failflag in
     // the class
-    return ret_bool == Py_True;
+    bool is_true = ret_bool == Py_True;
+    Py_DECREF(ret_bool);
+    return is_true;
 }
 
 }
-- 
2.43.0


From 4b6d173925a4493932569902509c3d49290fc6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 73/79] fix: arithmetic of weight tables keeps no references to
 numbers

---
 xboa/core/pylib/PyWeightContext.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 89afed6..861b3da 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -192,17 +192,19 @@ void _free(PyWeightContext * self) {
     }
 }
 
-int parseArg(PyObject* o1, PyObject** f1, PyWeightContext** pywc1) {
+int parseArg(PyObject* o1, double* d1, PyWeightContext** pywc1) {
     // text is not a number, although float() can make one of it
-    *f1 = PyNumber_Check(o1) ? PyNumber_Float(o1) : nullptr;
+    PyObject* f1 = PyNumber_Check(o1) ? PyNumber_Float(o1) : nullptr;
     *pywc1 = reinterpret_cast<PyWeightContext*>(o1);
-    if (*f1 == nullptr) {
+    if (f1 == nullptr) {
         PyErr_Clear();
         if (!C_API::is_PyWeightContext(o1)) {
             PyErr_SetString(PyExc_NotImplementedError, "Not able to add these object types");
             return 0;
         }
     } else {
+        *d1 = PyFloat_AsDouble(f1);
+        Py_DECREF(f1);
         *pywc1 = nullptr; // it's a float after all
     }
     return 1;
@@ -225,12 +227,12 @@ PyObject *unary_operator(PyObject *o1) {
 
 template <class BinaryOperator>
 PyObject *binary_operator(PyObject *o1, PyObject *o2) {
-    PyObject *f1, *f2;
+    double d1 = 0., d2 = 0.;
     PyWeightContext *pywc1, *pywc2;
-    if (parseArg(o1, &f1, &pywc1) == 0) {
+    if (parseArg(o1, &d1, &pywc1) == 0) {
         return nullptr;
     }
-    if (parseArg(o2, &f2, &pywc2) == 0) {
+    if (parseArg(o2, &d2, &pywc2) == 0) {
         return nullptr;
     }
 
@@ -245,7 +247,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     if (pywc1 != nullptr) {
         WeightContext* wc1 = pywc1->cppcontext_.get();
         if (pywc2 == nullptr) {
-            double d2 = PyFloat_AsDouble(f2);
             wc3 = op.operate(*wc1, d2);
         } else {
             WeightContext* wc2 = pywc2->cppcontext_.get();
@@ -254,7 +255,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     } else {
         WeightContext* wc2 = pywc2->cppcontext_.get();
         if (pywc1 == nullptr) {
-            double d1 = PyFloat_AsDouble(f1);
             try {
                 wc3 = op.operate(d1, *wc2);
             } catch (...) {
-- 
2.43.0


From 1a3c663416e6f61d17945a51a44e240d222ffa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 74/79] fix: what only claims to be a weight table is not used
 as one

---
 xboa/core/pylib/PyWeightContext.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 861b3da..e046f0a 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -352,10 +352,8 @@ PyWeightContext* C_API::create_empty_weightcontext() {
 }
 
 bool C_API::is_PyWeightContext(PyObject* obj) {
-     if (PyObject_IsInstance(obj, (PyObject*)&PyWeightContextType)) {
-        return true;
-    }
-    return false;
+    // looks at the type itself: what __class__ says may be wrong, or fail
+    return obj != NULL && PyObject_TypeCheck(obj, &PyWeightContextType);
 }
 
 /** NOTE this is the reference counting for the smart pointers */
-- 
2.43.0


From 77e16981b33c54aab1571eecf238e91aa71f8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 75/79] fix: a transmission cut also looks at the nearest lower
 value

---
 xboa/bunch/_bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index d05e23b..2ea8363 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -889,6 +889,9 @@ class Bunch:
         diff = [abs(hit_list[next_value][i]-hit_value[i]) for i in range(len(hit_value))]
         diff = sum(diff)
         if diff < float_tolerance:   weight = hit[wt]
+      if next_value > 0:
+        diff = [abs(hit_list[next_value-1][i]-hit_value[i]) for i in range(len(hit_value))]
+        if sum(diff) < float_tolerance: weight = hit[wt]
       if next_value+1 < len(hit_list):
         diff = [abs(hit_list[next_value+1][i]-hit_value[i]) for i in range(len(hit_value))]
         diff = sum(diff)
-- 
2.43.0


From 5ed500ce36e065678cf633d69c7a251fe1921756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 76/79] fix: a cut with an is_global flag of no truth value
 cuts nothing

---
 xboa/core/pylib/PyBunchcore.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 892db2e..3ca8a1b 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -350,7 +350,9 @@ PyObject* cut_double(PyObject* self, PyObject *args, PyObject *kwds) {
         return NULL;
     }
     // convert to cpp
-    bool is_global = py_is_global == NULL || PyObject_IsTrue(py_is_global) == 1;
+    int is_global = py_is_global == NULL ? 1 : PyObject_IsTrue(py_is_global);
+    if (is_global < 0) // neither true nor false
+        return NULL;
     std::string cut_variable(cut_var_c_str);
     utils::PythonComparator comp(py_comparator);
     // call bunchcore core function
-- 
2.43.0


From a5b76b0c783f8885a3c48dd342b8b604720db613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 77/79] fix: setting t' tells the sign from the energy, and
 leaves the hit alone when it fails

---
 xboa/hit/_hit.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index b28b8af..8a5018e 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -633,11 +633,12 @@ class Hit(object):
   def set_tP  (self, value_float): 
     """Set t\' (dt/dz=-E/pz) to value_float keeping pz constant; note sign of pz may change"""
     if(math.fabs(self['pz']) < 1e-9): raise FloatingPointError('Cant set t\' while pz is 0')
-    self['energy'] = -value_float*self['pz']
-    if self['pz'] < 0.: 
-      self['energy'] *= -1.
-      self['pz']     *= -1.
-    if self['energy'] < self.get('mass'): raise FloatingPointError('Energy less than muon mass')
+    energy, pz = -value_float*self['pz'], self['pz']
+    if energy < 0.: 
+      energy, pz = -energy, -pz
+    if energy < self.get('mass'): raise FloatingPointError('Energy less than muon mass')
+    self['energy'] = energy
+    self['pz']     = pz
   
   def get_weight(self):
     """Returns total weight for this Hit"""
-- 
2.43.0


From 131dee2290f1f0267649f140056e5b61b95d4abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:27 +0000
Subject: [PATCH 78/79] fix: bunches with stored moments compare their means,
 covariances and particles

Bunch.__eq__ returned True as soon as the stored covariances were arrays, whatever
the particles were, and looked at the stored means of one side only.
---
 xboa/bunch/_bunch.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 2ea8363..34b78b6 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -146,16 +146,14 @@ class Bunch:
     """Return true if all hits in self are the same as all hits in target, and set_covariance_matrix data are the same"""
     if type(target)      != type(self):          return False
     if len(self.__hits)  != len(target.__hits):  return False
+    if set(self.__means) != set(target.__means): return False
     for key,value in self.__means.items():
-      if not key in target.__means:                                      return False
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
-    try:
-      if not all(self.__covs == target.__covs): return False
-    except:
-      try:
-        if self.__covs != target.__covs: return False 
-      except:
-        return True
+    if (self.__covs is None) != (target.__covs is None): return False
+    if self.__covs is not None:
+      covs, target_covs = numpy.array(self.__covs), numpy.array(target.__covs)
+      if covs.shape != target_covs.shape: return False
+      if not numpy.allclose(covs, target_covs, 0., float_tolerance, True): return False
     for index in range(len(self.__hits)):
       if self.__hits[index].__ne__( target.__hits[index], float_tolerance): return False
     return True
-- 
2.43.0


From 8ec6eea76d5b20eeb2475baf0eaadd816e9561f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:04 +0000
Subject: [PATCH 79/79] fix: opening a file of an unknown format for writing
 leaves an existing file alone

---
 xboa/hit/_hit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 8a5018e..50cb554 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -450,9 +450,9 @@ class Hit(object):
     - file_type_string = open filehandle for this file type
     - file_name        = string name of the file
     """
-    filehandle = None
+    header = Hit.file_header(file_type_string, user_comment) # fails for unknown types
     filehandle = open(file_name, 'w')
-    filehandle.write(Hit.file_header(file_type_string, user_comment))
+    filehandle.write(header)
     return filehandle
   open_filehandle_for_writing = staticmethod(open_filehandle_for_writing)
 
-- 
2.43.0

