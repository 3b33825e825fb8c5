From aaa630d4ed5c49642b2775c7acc493ab7e1e8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 01/28] fix: do not count the memory of a job once per thread

sysinfo lists the threads of a process as children of that process, each
with the full RSS of the process, so the peak memory of a job that uses
N threads was recorded as N times its real value.
---
 cmakeperf/src/measure/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index d8ce954..264fd75 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -193,7 +193,8 @@ impl ProcessTree {
             for parent_pid in self.parents.drain(..) {
                 // Look for children of each parent...
                 for (&child_pid, child) in system.processes() {
-                    if child.parent() == Some(parent_pid) {
+                    // Threads are listed too, but share the memory of their process
+                    if child.parent() == Some(parent_pid) && child.thread_kind().is_none() {
                         // ...and collect them in children list
                         self.children.push(child_pid);
                     }
-- 
2.43.0


From d27a78de6688be67b2b347218c491d8157ff01b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:00 +0000
Subject: [PATCH 02/28] fix: do not overflow when only the last worker of a
 word is active

With 64 workers or more, once all workers of a word but the last one had
been stopped, looking for active workers shifted the word by 64 bits: a
panic in debug builds and an infinite loop in release builds.
---
 cmakeperf/src/measure/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d9107f8..1e9a9e9 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -431,9 +431,11 @@ impl<'flags> StopServer<'flags> {
                     if word_value == 0 {
                         return None;
                     }
-                    let offset_after_first_one = word_value.trailing_zeros() as usize + 1;
-                    bit_offset += offset_after_first_one;
-                    word_value >>= offset_after_first_one;
+                    // Shifting by all bits at once would overflow
+                    let offset_to_first_one = word_value.trailing_zeros() as usize;
+                    bit_offset += offset_to_first_one + 1;
+                    word_value >>= offset_to_first_one;
+                    word_value >>= 1;
                     Some(bit_offset - 1)
                 })
             })
-- 
2.43.0


From 44d6dc6745241eeebdfcbab9137af8fec1a1734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 03/28] fix: accept job output that is not valid UTF-8

A compiler that echoes a Latin-1 source line in a warning made its worker
thread, then the whole measurement, panic.
---
 cmakeperf/src/measure/worker.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 264fd75..75da2f9 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -249,11 +249,11 @@ fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobErro
 /// Report on non-empty stdout and/or stderr from a compilation process
 fn report_stdpipe(process: Child) -> String {
     fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = String::new();
+        let mut buf = Vec::new();
         pipe.expect("Process output/error should have been piped and available")
-            .read_to_string(&mut buf)
+            .read_to_end(&mut buf)
             .expect("Reading from pipes should be infaillible");
-        buf
+        String::from_utf8_lossy(&buf).into_owned()
     }
     let stdout = read_stdpipe(process.stdout);
     let stderr = read_stdpipe(process.stderr);
-- 
2.43.0


From a5daa167a532fd28f7313bd0b9261e7dd60d8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 04/28] fix: terminate the processes of a job that have just
 started too

Stopping a job signalled the processes that were alive at the last
monitoring tick. A compiler started since then, or the actual compiler
process that its driver had just forked, was left running.
---
 cmakeperf/src/measure/worker.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 75da2f9..b819eff 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -14,7 +14,7 @@ use std::{
     },
     time::Instant,
 };
-use sysinfo::{Pid, Process, Signal, System};
+use sysinfo::{Pid, Process, ProcessRefreshKind, ProcessesToUpdate, Signal, System};
 use thiserror::Error;
 use wait_timeout::ChildExt;
 
@@ -68,12 +68,12 @@ fn process_job(
     let exit_status = loop {
         match process.wait_timeout(poll_clock.poll_delay()) {
             Ok(None) => {
-                let system = monitor_client.system();
-                tree.refresh(&system);
                 if let Err(MustStop) = monitor_client.keep_job() {
-                    tree.kill(&system);
+                    tree.kill();
                     return Err(JobError::Killed(job));
                 } else {
+                    let system = monitor_client.system();
+                    tree.refresh(&system);
                     max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
                 }
             }
@@ -218,9 +218,14 @@ impl ProcessTree {
     }
 
     // Terminate or kill every process in the process tree
-    fn kill(&self, system: &System) -> bool {
+    fn kill(&mut self) -> bool {
+        // The shared system monitor may not know about the latest processes
+        let mut system = System::new();
+        system.refresh_processes_specifics(ProcessesToUpdate::All, ProcessRefreshKind::new());
+        self.refresh(&system);
+
         let mut global_result = true;
-        for process in self.processes(system) {
+        for process in self.processes(&system) {
             global_result &= process
                 .kill_with(Signal::Term)
                 .unwrap_or_else(|| process.kill());
-- 
2.43.0


From 3f2af518232e96d194644fd766a887601747d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 05/28] fix: keep monitoring memory while results keep coming

Every result received moved the next monitoring deadline forward by one
polling interval, so that finishing N jobs between two ticks left memory
usage unmonitored, and requests to stop unanswered, for N intervals.
---
 cmakeperf/src/measure/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index 1e9a9e9..9b0ec23 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -17,6 +17,7 @@ use std::{
         mpsc::{self, RecvTimeoutError},
         Arc,
     },
+    time::Instant,
 };
 use sysinfo::RefreshKind;
 use thiserror::Error;
@@ -67,6 +68,7 @@ pub(super) fn run(
             let mut work_sender = work_queue.sender();
             work_sender.start();
             let mut poll_clock = PollClock::start();
+            let mut next_poll = Instant::now() + poll_clock.poll_delay();
             while remaining_jobs > 0 {
                 // Handle external request to terminate the job
                 if kill.load(Ordering::Relaxed) {
@@ -77,7 +79,9 @@ pub(super) fn run(
 
                 // Wait for a job to be complete or a timeout
                 // TODO: Move to recv_deadline once available
-                match results_receiver.recv_timeout(poll_clock.poll_delay()) {
+                match results_receiver
+                    .recv_timeout(next_poll.saturating_duration_since(Instant::now()))
+                {
                     // A worker had to abort its current job as a result of running
                     // out of memory, send it back to other workers.
                     Ok(Err(JobError::Killed(job))) => {
@@ -100,7 +104,9 @@ pub(super) fn run(
 
                     // System monitor wakeup
                     Err(RecvTimeoutError::Timeout) => match monitor_server.update() {
-                        MonitorStatus::Running => {}
+                        MonitorStatus::Running => {
+                            next_poll = Instant::now() + poll_clock.poll_delay();
+                        }
                         MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),
                     },
 
-- 
2.43.0


From 1161a00a44e84b94625271ff1ce8a6603e119eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 06/28] fix: stop other jobs when a build measurement fails

When a job failed, or the profile could not be written, the remaining
workers would still run every job of the build before the measurement
reported its failure.
---
 cmakeperf/src/measure/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index 9b0ec23..f1540cf 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -64,8 +64,8 @@ pub(super) fn run(
             }
 
             // Wait for results while monitoring free RAM
-            let mut monitor_server = monitor.server();
             let mut work_sender = work_queue.sender();
+            let mut monitor_server = monitor.server();
             work_sender.start();
             let mut poll_clock = PollClock::start();
             let mut next_poll = Instant::now() + poll_clock.poll_delay();
@@ -372,6 +372,13 @@ impl<'monitor> MonitorServer<'monitor> {
     }
 }
 //
+impl Drop for MonitorServer<'_> {
+    /// Make sure workers do not run jobs that nobody waits for after an error
+    fn drop(&mut self) {
+        self.stop_all();
+    }
+}
+//
 /// Error returned when all threads have been killed due to OOM
 #[must_use]
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
-- 
2.43.0


From a8849fe890faf5dee2801a7f5057c1907242499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 07/28] fix: read the output of build jobs while they run

The output pipes of a job were only read once it had exited, so a job
that printed more than a pipe can hold (64 KiB) never ended. Processes
that outlive the job and hold its pipes open also kept a measurement
from being killed.
---
 cmakeperf/src/measure/worker.rs | 77 ++++++++++++++++++++++++++-------
 1 file changed, 62 insertions(+), 15 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index b819eff..cd73658 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -9,10 +9,11 @@ use std::{
     process::{Child, Command, ExitStatus, Stdio},
     sync::{
         atomic::{self, AtomicUsize, Ordering},
-        mpsc::Sender,
+        mpsc::{self, Receiver, RecvTimeoutError, Sender},
         RwLockReadGuard,
     },
-    time::Instant,
+    thread,
+    time::{Duration, Instant},
 };
 use sysinfo::{Pid, Process, ProcessRefreshKind, ProcessesToUpdate, Signal, System};
 use thiserror::Error;
@@ -60,6 +61,7 @@ fn process_job(
     }
     let start = measure_time.then(Instant::now);
     let mut process = start_job(&job)?;
+    let output = JobOutput::collect(&mut process)?;
     let mut poll_clock = PollClock::start();
 
     // Monitor the job to completion or error
@@ -83,8 +85,18 @@ fn process_job(
     };
     let wall_time = start.map(|start| start.elapsed());
 
+    // Wait for the end of job output, which surviving children may hold open
+    let mut poll_delay = Duration::ZERO;
+    let output = loop {
+        match output.wait_timeout(poll_delay) {
+            Some(output) => break output,
+            None if monitor_client.must_stop() => break Default::default(),
+            None => poll_delay = poll_clock.poll_delay(),
+        }
+    };
+
     // Decide if job has succeeded or failed, log output accordingly
-    report_process(process, exit_status)?;
+    report_process(output, exit_status)?;
 
     // Compute relative path to the input, if possible
     let rel_path = std::env::current_dir()
@@ -144,6 +156,48 @@ fn start_job(job: &DatabaseEntry) -> Result<Child, JobError> {
     }
 }
 
+/// Output of a job, collected as the job runs so that the job never has to wait
+/// for us to make room in its output pipes
+struct JobOutput(Receiver<(Vec<u8>, Vec<u8>)>);
+//
+impl JobOutput {
+    /// Start collecting the output of a process
+    fn collect(process: &mut Child) -> Result<Self, JobError> {
+        fn read_stdpipe(pipe: Option<impl Read>) -> Vec<u8> {
+            let mut buf = Vec::new();
+            pipe.expect("Process output/error should have been piped and available")
+                .read_to_end(&mut buf)
+                .expect("Reading from pipes should be infaillible");
+            buf
+        }
+        let (stdout, stderr) = (process.stdout.take(), process.stderr.take());
+        let (sender, receiver) = mpsc::channel();
+        let collect = move || {
+            let stderr = thread::Builder::new().spawn(move || read_stdpipe(stderr))?;
+            thread::Builder::new().spawn(move || {
+                let stdout = read_stdpipe(stdout);
+                let stderr = stderr.join().expect("Reading from pipes should not panic");
+                // It's okay if no one is interested in the output anymore
+                std::mem::drop(sender.send((stdout, stderr)));
+            })
+        };
+        if let Err(e) = collect() {
+            std::mem::drop(process.kill());
+            return Err(JobError::SpawnFailed(e));
+        }
+        Ok(Self(receiver))
+    }
+
+    /// Wait until the job's stdout and stderr have been fully read
+    fn wait_timeout(&self, timeout: Duration) -> Option<(Vec<u8>, Vec<u8>)> {
+        match self.0.recv_timeout(timeout) {
+            Ok(output) => Some(output),
+            Err(RecvTimeoutError::Timeout) => None,
+            Err(RecvTimeoutError::Disconnected) => panic!("Failed to collect job output"),
+        }
+    }
+}
+
 /// Process tree monitor
 struct ProcessTree {
     /// Buffer to collect the full process tree
@@ -235,8 +289,8 @@ impl ProcessTree {
 }
 
 /// Report on process failure or unexpected output
-fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobError> {
-    let stdpipe_report = report_stdpipe(process);
+fn report_process(output: (Vec<u8>, Vec<u8>), exit_status: ExitStatus) -> Result<(), JobError> {
+    let stdpipe_report = report_stdpipe(output);
     if !exit_status.success() {
         let mut message = format!("Job failed with {exit_status}");
         if !stdpipe_report.is_empty() {
@@ -252,16 +306,9 @@ fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobErro
 }
 
 /// Report on non-empty stdout and/or stderr from a compilation process
-fn report_stdpipe(process: Child) -> String {
-    fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = Vec::new();
-        pipe.expect("Process output/error should have been piped and available")
-            .read_to_end(&mut buf)
-            .expect("Reading from pipes should be infaillible");
-        String::from_utf8_lossy(&buf).into_owned()
-    }
-    let stdout = read_stdpipe(process.stdout);
-    let stderr = read_stdpipe(process.stderr);
+fn report_stdpipe((stdout, stderr): (Vec<u8>, Vec<u8>)) -> String {
+    let stdout = String::from_utf8_lossy(&stdout);
+    let stderr = String::from_utf8_lossy(&stderr);
     let mut report = String::new();
     let has_stdout = !stdout.is_empty();
     if has_stdout {
-- 
2.43.0


From 7ebdecd467f1184f104bdddd3347380b18fe26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 08/28] fix: report errors that occur while reading the profile
 header

The csv crate's record iterator ignores errors from the header row: after
an I/O error in the first read it just ends, so that an unreadable profile
was loaded as an empty one, and a header that is not valid UTF-8 made the
columns be taken by position.
---
 cmakeperf/src/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmakeperf/src/output.rs b/cmakeperf/src/output.rs
index d62a320..01839d2 100644
--- a/cmakeperf/src/output.rs
+++ b/cmakeperf/src/output.rs
@@ -27,6 +27,8 @@ pub fn load(path: impl AsRef<Path>) -> Result<BuildProfile, ProfileLoadError> {
 
 /// Like `load()`, but takes any CSV reader, not necessarily a file reader
 fn from_csv_reader<R: Read>(mut reader: csv::Reader<R>) -> Result<BuildProfile, ProfileLoadError> {
+    // The record iterator swallows errors that occur while reading the headers
+    reader.headers()?;
     let mut result = Vec::new();
     for unit in reader.deserialize() {
         result.push(unit?);
-- 
2.43.0


From 0b0a4a70d497c2fe2a1c936300dc54e3d5cd8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 09/28] fix: do not crash on a trace without events

The activity tree capacity underflowed when traceEvents was empty; such a
trace is now refused because it lacks a process name.
---
 clang-time-trace/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clang-time-trace/src/lib.rs b/clang-time-trace/src/lib.rs
index d42f745..2fdce39 100644
--- a/clang-time-trace/src/lib.rs
+++ b/clang-time-trace/src/lib.rs
@@ -252,7 +252,7 @@ impl FromStr for ClangTrace {
         };
 
         // Process the trace events
-        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len() - 1);
+        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len());
         let mut global_stats = HashMap::new();
         let mut process_name = None;
         let mut thread_name = None;
-- 
2.43.0


From 1fc9f1b3508ed560e5e48b629e2658c235b6f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 10/28] fix: do not crash on an activity with an empty
 description

Nothing guarantees that the "detail" string of an activity is not empty.
---
 clang-time-trace/src/stats/activity/argument.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index a1ff0ef..6085a28 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -278,8 +278,7 @@ impl ActivityArgumentType {
         if !detail
             .chars()
             .next()
-            .expect("detail is not empty if detail_arg() returned Ok")
-            .is_uppercase()
+            .is_some_and(char::is_uppercase)
         {
             return ActivityArgumentType::CppEntity;
         }
-- 
2.43.0


From dff37ea9d373d15346a70752b98986ed292e39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 11/28] fix: report failure to process the input via the exit
 status

---
 src/ui/stdio.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index bc6597f..4f4fa97 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -41,7 +41,8 @@ pub fn run(args: CliArgs) {
     let mut trace = match ClangTrace::from_file(input) {
         Ok(trace) => trace,
         Err(e) => {
-            return eprintln!("Failed to process input: {e}");
+            eprintln!("Failed to process input: {e}");
+            std::process::exit(1);
         }
     };
 
-- 
2.43.0


From d33b9ef99a81c4546d8f9846fbb5014ad14c270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 12/28] fix: sort equally long activity types in a reproducible
 order

---
 src/trace.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trace.rs b/src/trace.rs
index 5cab4cc..f577343 100644
--- a/src/trace.rs
+++ b/src/trace.rs
@@ -19,8 +19,11 @@ pub fn activity_type_breakdown(trace: &ClangTrace) -> Box<[(Box<str>, Duration)]
             .or_default() += activity_trace.self_duration();
     }
     let mut profile = profile.into_iter().collect::<Box<[_]>>();
-    profile.sort_unstable_by(|(_, d1), (_, d2)| {
-        d2.partial_cmp(d1).expect("No NaNs expected in time-trace")
+    profile.sort_unstable_by(|(n1, d1), (n2, d2)| {
+        d2.partial_cmp(d1)
+            .expect("No NaNs expected in time-trace")
+            // Make sure that the output does not depend on HashMap ordering
+            .then_with(|| n1.cmp(n2))
     });
     profile
 }
-- 
2.43.0


From 820d817832f335a98a122108978b4c7ab74895d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 13/28] fix: do not display relative paths as absolute ones

---
 src/ui/display/path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index 18fd446..b848302 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -185,8 +185,11 @@ fn display_components(
     }
 
     // Add back components and associated separators
-    for _ in 0..accepted_back {
-        buffer.push(PATH_SEPARATOR);
+    for back_idx in 0..accepted_back {
+        // The start of a relative path must not be preceded by a separator
+        if back_idx > 0 || accepted_back < num_components {
+            buffer.push(PATH_SEPARATOR);
+        }
         buffer.push_str(
             components
                 .next()
-- 
2.43.0


From 0244c27f5b3abd031d34d6b24245454f8d1a2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 14/28] fix: never lose or truncate the build profile while
 measuring a new one

The previous profile was moved to a backup, which was restored before the
measurement had actually stopped (and could thus be truncated), restored
even if it came from something else, and lost if the application was
killed. Measure into a temporary file and rename it over the profile once
it is complete instead.
---
 src/ui/tui/build/measure.rs | 146 +++++++++++++++++-------------------
 1 file changed, 67 insertions(+), 79 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 9c95246..16272bf 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -14,10 +14,7 @@ use std::{
     io,
     panic::UnwindSafe,
     path::Path,
-    sync::{
-        atomic::{AtomicBool, Ordering},
-        Arc, Mutex,
-    },
+    sync::{Arc, Mutex},
 };
 
 /// Measure a build profile, storing the result in a specific location
@@ -58,16 +55,13 @@ pub fn measure_profile(
         };
 
         // Start data collection process
-        let mut measurement = match MeasureHandle::start(
+        let mut measurement = MeasureHandle::start(
             cursive,
             output_path,
             compilation_database,
             notify_progress,
             notify_end,
-        ) {
-            Some(tuple) => tuple,
-            None => return false,
-        };
+        );
 
         // Display progress UI
         let cursive = measurement.cursive();
@@ -95,25 +89,41 @@ pub fn measure_profile(
         with_state(cursive, |state| {
             state.no_escape = false;
         });
-        outcome
-    };
 
-    // Once we reach this point, the data collection process may either be done
-    // or have errored out
-    let error_message = match outcome.lock() {
-        Ok(mut guard) => match guard.take() {
-            // Successfully measured a build profile
-            Some(Ok(())) => return true,
+        // Once we reach this point, the data collection process may either be
+        // done, have errored out, or have been aborted by the user
+        let outcome = match outcome.lock() {
+            Ok(mut guard) => guard
+                .take()
+                .map(|result| result.map_err(|e| format!("Failed to collect build profile: {e}"))),
+
+            // The thread monitoring the data collection has panicked
+            Err(e) => Some(Err(format!(
+                "Build profile monitoring thread panicked: {e}"
+            ))),
+        };
+
+        // Only a complete profile may replace the previous one
+        match outcome {
+            Some(Ok(())) => Some(
+                measurement
+                    .publish()
+                    .map_err(|e| format!("Failed to save build profile: {e}")),
+            ),
+            other => other,
+        }
+    };
 
-            // Build profiling errored out
-            Some(Err(e)) => Some(format!("Failed to collect build profile: {e}")),
+    // Handle success and failure
+    let error_message = match outcome {
+        // Successfully measured a build profile
+        Some(Ok(())) => return true,
 
-            // The user has requested that data collection be aborted
-            None => None,
-        },
+        // Build profiling errored out
+        Some(Err(message)) => Some(message),
 
-        // The thread monitoring the data collection stdout has panicked
-        Err(e) => Some(format!("Build profile monitoring thread panicked: {e}")),
+        // The user has requested that data collection be aborted
+        None => None,
     };
     if let Some(message) = error_message {
         super::error(cursive, message);
@@ -123,9 +133,12 @@ pub fn measure_profile(
 
 /// Handle to an ongoing cmakeperf data collection process
 ///
-/// If an old profile already exists, a backup will be taken, and restored in
-/// case this is dropped without seeing the whole data collection process
-/// through. This provides RAII-based data collection error & cancelation handling.
+/// Data is collected into a temporary file, which only takes the place of the
+/// previous profile (if any) once it has been completed and published. If this
+/// is dropped without seeing the whole data collection process through, then
+/// the temporary file is deleted. This provides RAII-based data collection
+/// error & cancelation handling, and ensures that there is no point in time
+/// where an interruption could lose the old profile or leave a partial one.
 ///
 struct MeasureHandle<'cursive, 'output> {
     /// Cursive handle
@@ -134,14 +147,11 @@ struct MeasureHandle<'cursive, 'output> {
     /// Path to the output file
     output_path: &'output Path,
 
-    /// Path to the backup
-    backup_path: Box<Path>,
-
-    /// Truth that the job has succeeded (in which case backups need not be restored)
-    success: Arc<AtomicBool>,
+    /// Path to the temporary file
+    temporary_path: Box<Path>,
 
     /// Live cmakeperf data collection process
-    _measurement: Measurement,
+    measurement: Option<Measurement>,
 }
 //
 impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
@@ -152,53 +162,29 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
         compilation_database: &CompilationDatabase,
         step_done: impl FnMut() + UnwindSafe + Send + 'static,
         build_done: impl FnOnce(Result<(), MeasureError>) + Send + 'static,
-    ) -> Option<Self> {
+    ) -> Self {
         // FIXME: Ask user what kind of profile they want (memory-only or wall-time too ? What concurrency ?)
 
-        // If a cmakeperf output already exists, back it up
-        let backup_path = output_path.with_extension("bak").into_boxed_path();
-        match std::fs::rename(output_path, &backup_path) {
-            Ok(()) => {}
-            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
-            Err(other) => {
-                super::error(
-                    cursive,
-                    format!("Failed to back up previous build profile: {other}"),
-                );
-                return None;
-            }
-        }
-
         // Start data collection
-        let success = Arc::new(AtomicBool::new(false));
-        let notify_end = {
-            let success = success.clone();
-            move |result: Result<(), _>| {
-                if result.is_ok() {
-                    success.store(true, Ordering::Release);
-                }
-                build_done(result)
-            }
-        };
+        let temporary_path = output_path.with_extension("tmp").into_boxed_path();
         let measurement = Measurement::start(
-            output_path,
+            temporary_path.clone(),
             compilation_database,
             // FIXME: let user configure this
             false,
             // FIXME: Let user set this
             None,
             step_done,
-            notify_end,
+            build_done,
         );
 
         // Emit process and stdout handles
-        Some(Self {
+        Self {
             cursive,
             output_path,
-            backup_path,
-            success,
-            _measurement: measurement,
-        })
+            temporary_path,
+            measurement: Some(measurement),
+        }
     }
 
     /// Borrow the cursive handle for other uses
@@ -206,25 +192,27 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
         self.cursive
     }
 
-    /// Attempt to restore a full build profile backup
-    fn restore_or_delete(cursive: &mut CursiveRunnable, backup_path: &Path, output_path: &Path) {
-        match std::fs::rename(backup_path, output_path)
-            .or_else(|_| std::fs::remove_file(output_path))
-        {
+    /// Replace the previous profile with the one that was just measured
+    ///
+    /// This should only be called after a successful measurement.
+    ///
+    fn publish(&mut self) -> io::Result<()> {
+        self.measurement = None;
+        std::fs::rename(&self.temporary_path, self.output_path)
+    }
+}
+//
+impl Drop for MeasureHandle<'_, '_> {
+    fn drop(&mut self) {
+        // Data collection must be over before its output can be deleted
+        self.measurement = None;
+        match std::fs::remove_file(&self.temporary_path) {
             Ok(()) => {}
             Err(e) if e.kind() == io::ErrorKind::NotFound => {}
             Err(other) => super::error(
-                cursive,
+                self.cursive,
                 format!("Failed to clean up after cmakeperf: {other}"),
             ),
         };
     }
 }
-//
-impl Drop for MeasureHandle<'_, '_> {
-    fn drop(&mut self) {
-        if !self.success.load(Ordering::Acquire) {
-            Self::restore_or_delete(self.cursive, &self.backup_path, self.output_path);
-        }
-    }
-}
-- 
2.43.0


From 00979f3ba12a2cf2fa10b62dce80a4d2f64a43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:40 +0000
Subject: [PATCH 15/28] fix: only restore or delete trace backups that were
 taken by this measurement

---
 src/ui/tui/trace/measure.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 87d6a9f..2366d80 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -247,6 +247,9 @@ struct TraceBackup {
 
     /// Path to backup from previous clang time-trace run
     backup: Box<Path>,
+
+    /// Truth that there was a previous run, and thus that a backup was taken
+    has_backup: bool,
 }
 //
 impl TraceBackup {
@@ -254,12 +257,16 @@ impl TraceBackup {
     fn new(output: Box<Path>) -> Result<Self, String> {
         // Back up the previous measurement, if any
         let backup = output.with_extension("bak").into_boxed_path();
-        match std::fs::rename(&output, &backup) {
-            Ok(()) => {}
-            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+        let has_backup = match std::fs::rename(&output, &backup) {
+            Ok(()) => true,
+            Err(e) if e.kind() == io::ErrorKind::NotFound => false,
             Err(other) => return Err(format!("Failed to back up previous build trace: {other}")),
-        }
-        Ok(Self { output, backup })
+        };
+        Ok(Self {
+            output,
+            backup,
+            has_backup,
+        })
     }
 
     /// In case of clang failure, this restores the backup if there is one or
@@ -269,9 +276,15 @@ impl TraceBackup {
     ///
     #[must_use]
     fn restore_or_delete(self) -> Option<String> {
-        match std::fs::rename(&self.backup, &self.output)
-            .or_else(|_| std::fs::remove_file(&self.output))
-        {
+        let result = if self.has_backup {
+            std::fs::rename(&self.backup, &self.output).map_err(|e| {
+                std::mem::drop(std::fs::remove_file(&self.output));
+                e
+            })
+        } else {
+            std::fs::remove_file(&self.output)
+        };
+        match result {
             Ok(()) => None,
             Err(e) if e.kind() == io::ErrorKind::NotFound => None,
             Err(other) => Some(format!("Failed to clean up after clang: {other}")),
@@ -283,6 +296,9 @@ impl TraceBackup {
     /// deletion process failed
     #[must_use]
     fn cleanup(self) -> (Box<Path>, Option<String>) {
+        if !self.has_backup {
+            return (self.output, None);
+        }
         match std::fs::remove_file(&self.backup) {
             Ok(()) => (self.output, None),
             Err(e) if e.kind() == io::ErrorKind::NotFound => (self.output, None),
-- 
2.43.0


From 40382b247252460936262fc8355f1d8bfb4c5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 16/28] fix: do not hang when clang emits a lot of output
 during a time-trace run

---
 src/ui/tui/trace/measure.rs | 50 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 2366d80..14ac904 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -13,6 +13,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc,
     },
+    thread::JoinHandle,
     time::Duration,
 };
 use wait_timeout::ChildExt;
@@ -315,6 +316,10 @@ struct CancelableClang {
     /// Child process
     child: Child,
 
+    /// Threads that collect the standard output and error of the child
+    /// process, which would otherwise block once a pipe is full
+    outputs: [JoinHandle<Vec<u8>>; 2],
+
     /// Cancelation flag
     canceled: Arc<AtomicBool>,
 }
@@ -323,7 +328,7 @@ impl CancelableClang {
     /// Start clang and set up cancelation, emit an error message if it goes wrong
     fn start(mut command: Command) -> Result<(Self, CancelTrigger), String> {
         // Start clang process
-        let child = match command
+        let mut child = match command
             .stdin(Stdio::null())
             .stdout(Stdio::piped())
             .stderr(Stdio::piped())
@@ -335,12 +340,32 @@ impl CancelableClang {
             }
         };
 
+        // Start collecting its output
+        fn collect(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
+            std::thread::spawn(move || {
+                let mut data = Vec::new();
+                std::mem::drop(pipe.read_to_end(&mut data));
+                data
+            })
+        }
+        let outputs = [
+            collect(child.stdout.take().expect("Failed to access stdout")),
+            collect(child.stderr.take().expect("Failed to access stderr")),
+        ];
+
         // Set up cancelation
         let canceled = Arc::new(AtomicBool::new(false));
         let cancel_trigger = CancelTrigger(canceled.clone());
 
         // Return all of that
-        Ok((Self { child, canceled }, cancel_trigger))
+        Ok((
+            Self {
+                child,
+                outputs,
+                canceled,
+            },
+            cancel_trigger,
+        ))
     }
 
     /// Wait for the process to terminate or be canceled
@@ -372,7 +397,7 @@ impl CancelableClang {
             Ok(Some(status)) if status.success() => Ok(false),
 
             // Clang terminated with an error status
-            Ok(Some(error_status)) => Err(child_failure_message(self.child, error_status)),
+            Ok(Some(error_status)) => Err(child_failure_message(self.outputs, error_status)),
 
             // The work was canceled, kill clang and exit through the error path
             Ok(None) => match self.child.kill() {
@@ -407,23 +432,8 @@ impl CancelTrigger {
 /// Ignore failure to extract info from stdout and stderr as that's difficult
 /// to handle and ultimately these are just nice-to-have details.
 ///
-fn child_failure_message(mut child: Child, error_status: ExitStatus) -> String {
-    let mut stdout = Vec::new();
-    let mut stderr = Vec::new();
-    std::mem::drop(
-        child
-            .stdout
-            .take()
-            .expect("Failed to access stdout")
-            .read_to_end(&mut stdout),
-    );
-    std::mem::drop(
-        child
-            .stderr
-            .take()
-            .expect("Failed to access stderr")
-            .read_to_end(&mut stderr),
-    );
+fn child_failure_message(outputs: [JoinHandle<Vec<u8>>; 2], error_status: ExitStatus) -> String {
+    let [stdout, stderr] = outputs.map(|output| output.join().unwrap_or_default());
     let mut error = format!("clang time-trace run failed ({})", error_status);
     let append_pipe = |error: &mut String, is_first, stream_name: &str, stream_data| {
         write!(
-- 
2.43.0


From a524cafbc2a669bc159a2adeb7a6a9bf70e670a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 17/28] fix: wait for clang to be dead and restore the old
 trace before leaving the measurement screen

Otherwise the killed compiler could still write to the restored trace, and
the user could start loading or measuring the trace before it was restored.
---
 src/ui/tui/trace/measure.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 14ac904..a229873 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -163,7 +163,6 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
 
         // Wait for clang to finish or for the cancelation signal to be sent
         let wait_result = clang.wait();
-        callback(cb_sink, move |cursive| end_measure(cursive, state));
 
         // Handle success and failure
         let error_message = match wait_result {
@@ -172,6 +171,9 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
                 // Delete the backup file
                 let (output_path, backup_error) = backup.cleanup();
 
+                // Leave the measurement screen
+                callback(cb_sink, move |cursive| end_measure(cursive, state));
+
                 // Show the trace loading screen
                 callback(cb_sink, move |cursive| {
                     trace::load::show_loader(cursive, output_path)
@@ -193,15 +195,14 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             Err(error) => Some(error),
         };
 
-        // We're on the failure/abort path, so start by displaying any error messages
-        if let Some(error) = error_message {
-            callback(cb_sink, move |cursive| {
-                cursive.add_layer(Dialog::info(error))
-            });
-        }
+        // We're on the failure/abort path, so start by bringing back our
+        // backup or deleting any partial output from clang. This must be done
+        // before the user gets an opportunity to measure or load this trace.
+        let restore_error = backup.restore_or_delete();
 
-        // Bring back our backup or delete any partial output from clang
-        if let Some(error) = backup.restore_or_delete() {
+        // Leave the measurement screen, then display any error messages
+        callback(cb_sink, move |cursive| end_measure(cursive, state));
+        for error in error_message.into_iter().chain(restore_error) {
             callback(cb_sink, move |cursive| {
                 cursive.add_layer(Dialog::info(error))
             });
@@ -400,8 +401,8 @@ impl CancelableClang {
             Ok(Some(error_status)) => Err(child_failure_message(self.outputs, error_status)),
 
             // The work was canceled, kill clang and exit through the error path
-            Ok(None) => match self.child.kill() {
-                Ok(()) => Ok(true),
+            Ok(None) => match self.child.kill().and_then(|()| self.child.wait()) {
+                Ok(_) => Ok(true),
                 Err(e)
                     if e.kind() == io::ErrorKind::InvalidInput
                         || e.kind() == io::ErrorKind::NotFound =>
@@ -412,7 +413,10 @@ impl CancelableClang {
             },
 
             // Failed to await process, exit through the error path
-            Err(e) => Err(format!("Failed to await clang: {e}")),
+            Err(e) => {
+                std::mem::drop(self.child.kill().and_then(|()| self.child.wait()));
+                Err(format!("Failed to await clang: {e}"))
+            }
         }
     }
 }
-- 
2.43.0


From 181241e8b30ce0dd669e18a57e40a9f24213718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:40 +0000
Subject: [PATCH 18/28] fix: cancel an ongoing time-trace measurement when the
 user quits

clang was left running, with the old trace staying in the backup location
and a possibly incomplete new one replacing it.
---
 src/ui/tui/mod.rs           |  9 ++++++-
 src/ui/tui/trace/measure.rs | 48 ++++++++++++++++++++++++++++++-------
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/ui/tui/mod.rs b/src/ui/tui/mod.rs
index a1ca0a8..e5d7994 100644
--- a/src/ui/tui/mod.rs
+++ b/src/ui/tui/mod.rs
@@ -9,7 +9,10 @@ mod trace;
 
 use self::{
     processing::ProcessingThread,
-    trace::display::{ProfileDisplay, ProfileLayer},
+    trace::{
+        display::{ProfileDisplay, ProfileLayer},
+        measure::OngoingMeasurement,
+    },
 };
 use crate::CliArgs;
 use clang_time_trace::Duration;
@@ -51,6 +54,7 @@ pub fn run(args: CliArgs) {
         showing_full_build: false,
         layers_below_profile: 0,
         no_escape: false,
+        trace_measurement: None,
         display_config: Default::default(),
     });
 
@@ -107,6 +111,9 @@ pub struct State {
     ///
     no_escape: bool,
 
+    /// Ongoing time-trace measurement, if any
+    trace_measurement: Option<OngoingMeasurement>,
+
     /// Current profile display configuration
     display_config: ProfileDisplay,
 }
diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index a229873..08e2963 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -141,24 +141,24 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
     let state = MeasureState { old_fps };
 
     // Set up the measurement screen
-    cursive.add_layer(
+    cursive.add_layer({
+        let cancel_trigger = cancel_trigger.clone();
         Dialog::text("Measuring time trace, please minimize system activity...")
-            .button("Abort", move |_cursive| cancel_trigger.cancel()),
-    );
+            .button("Abort", move |_cursive| cancel_trigger.cancel())
+    });
 
     // Start a thread that measures a clang time-trace and arranges for the
     // next steps to be taken once that's done
     let cb_sink = cursive.cb_sink().clone();
-    std::thread::spawn(move || {
-        // Force-send a callback to the cursive thread with less verbosity
+    let thread = std::thread::spawn(move || {
+        // Send a callback to the cursive thread with less verbosity, unless the
+        // user has quit in which case there is no one to be notified anymore.
         let cb_sink = &cb_sink;
         fn callback(
             cb_sink: &cursive::CbSink,
             callback: impl FnOnce(&mut Cursive) + Send + 'static,
         ) {
-            cb_sink
-                .send(Box::new(callback))
-                .expect("Failed to send cursive callback to main thread");
+            std::mem::drop(cb_sink.send(Box::new(callback)));
         }
 
         // Wait for clang to finish or for the cancelation signal to be sent
@@ -208,6 +208,36 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             });
         }
     });
+
+    // Make sure that the measurement is canceled if the user quits
+    with_state(cursive, |state| {
+        state.trace_measurement = Some(OngoingMeasurement {
+            cancel_trigger,
+            thread: Some(thread),
+        });
+    });
+}
+
+/// Ongoing time-trace measurement
+///
+/// If this is dropped before the measurement is over, the measurement is
+/// canceled as if the user had asked for it.
+///
+pub struct OngoingMeasurement {
+    /// Mechanism to cancel the measurement
+    cancel_trigger: CancelTrigger,
+
+    /// Thread which waits for the end of the measurement
+    thread: Option<JoinHandle<()>>,
+}
+//
+impl Drop for OngoingMeasurement {
+    fn drop(&mut self) {
+        self.cancel_trigger.cancel();
+        if let Some(thread) = self.thread.take() {
+            std::mem::drop(thread.join());
+        }
+    }
 }
 
 /// Saved Cursive state returned by start_measure, to be passed back to
@@ -228,6 +258,7 @@ struct MeasureState {
 fn end_measure(cursive: &mut Cursive, state: MeasureState) {
     let old_layers = with_state(cursive, |state| {
         state.no_escape = false;
+        state.trace_measurement = None;
         state.layers_below_profile
     });
     cursive.set_fps(state.old_fps.map(u32::from).unwrap_or(0));
@@ -422,6 +453,7 @@ impl CancelableClang {
 }
 //
 /// Cancelation trigger for CancelableClang
+#[derive(Clone)]
 struct CancelTrigger(Arc<AtomicBool>);
 //
 impl CancelTrigger {
-- 
2.43.0


From c9fc9a9ebeffce05908d3ede282c4b910c0ee17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 19/28] fix: do not crash at startup when there is no syslog
 daemon

---
 src/ui/tui/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ui/tui/mod.rs b/src/ui/tui/mod.rs
index e5d7994..8e8197a 100644
--- a/src/ui/tui/mod.rs
+++ b/src/ui/tui/mod.rs
@@ -29,7 +29,7 @@ use syslog::Facility;
 /// Run the analysis using the textual user interface
 pub fn run(args: CliArgs) {
     // Set up logging using syslog
-    syslog::init(
+    let syslog_result = syslog::init(
         Facility::LOG_USER,
         if cfg!(debug_assertions) {
             LevelFilter::Debug
@@ -37,11 +37,19 @@ pub fn run(args: CliArgs) {
             LevelFilter::Info
         },
         None,
-    )
-    .expect("Failed to initialize syslog");
+    );
 
-    // Warn that logs will be emitted on syslog
-    eprintln!("Since stderr is not usable inside of a TUI, logs will be emitted on syslog...");
+    // Warn that logs will be emitted on syslog, or lost if that is not available
+    match syslog_result {
+        Ok(()) => {
+            eprintln!(
+                "Since stderr is not usable inside of a TUI, logs will be emitted on syslog..."
+            )
+        }
+        Err(error) => {
+            eprintln!("Logs will not be available because syslog is not usable: {error}")
+        }
+    }
 
     // Register a panic hook that logs as much info as possible
     enable_panic_logging();
-- 
2.43.0


From f7180d86e5b83b380c2835504ce469de553edbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 20/28] fix: do not panic when a trace is loaded after the user
 has quit

---
 src/ui/tui/trace/load.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/load.rs b/src/ui/tui/trace/load.rs
index 9a1b274..6b4d3aa 100644
--- a/src/ui/tui/trace/load.rs
+++ b/src/ui/tui/trace/load.rs
@@ -63,7 +63,8 @@ pub fn show_loader(cursive: &mut Cursive, trace_path: impl AsRef<Path>) {
                             |state| state.processing_thread.get_all_activities(),
                         );
                     }))
-                    .expect("Failed to send callback to main thread");
+                    // Nobody is interested anymore if the user has quit meanwhile
+                    .ok();
             });
     });
 }
-- 
2.43.0


From fc8002f38b65c7d0077377ae0f44323c04b51011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 21/28] fix: do not crash on traces that contain no activity or
 only instantaneous ones

---
 src/ui/tui/trace/load.rs | 6 ++++++
 src/ui/tui/trace/mod.rs  | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/ui/tui/trace/load.rs b/src/ui/tui/trace/load.rs
index 6b4d3aa..c68e25f 100644
--- a/src/ui/tui/trace/load.rs
+++ b/src/ui/tui/trace/load.rs
@@ -54,6 +54,12 @@ pub fn show_loader(cursive: &mut Cursive, trace_path: impl AsRef<Path>) {
                             (root_activities, global_percent_norm)
                         });
 
+                        // There is nothing to display in an empty trace
+                        if root_activities.is_empty() {
+                            cursive.add_layer(Dialog::info("This trace contains no activity"));
+                            return;
+                        }
+
                         // Display the hierarchical profile
                         trace::display::show_hierarchical_profile(
                             cursive,
diff --git a/src/ui/tui/trace/mod.rs b/src/ui/tui/trace/mod.rs
index fce9aa2..e848e68 100644
--- a/src/ui/tui/trace/mod.rs
+++ b/src/ui/tui/trace/mod.rs
@@ -9,5 +9,9 @@ use decorum::Finite;
 
 /// Compute the percentage norm associated with a set of activities
 fn percent_norm(total_duration: Duration) -> Finite<Duration> {
+    // Nothing is all of nothing, and an infinite norm could not be displayed
+    if total_duration <= 0.0 {
+        return Finite::<Duration>::from_inner(0.0);
+    }
     Finite::<Duration>::from_inner(100.0 / total_duration)
 }
-- 
2.43.0


From 9cec8c6fd67f9175cf7faa8f97b301f69957ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 22/28] fix: do not announce an absurd age for profiles whose
 age is not known

---
 src/ui/tui/create.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/create.rs b/src/ui/tui/create.rs
index b1c12fa..035839c 100644
--- a/src/ui/tui/create.rs
+++ b/src/ui/tui/create.rs
@@ -40,9 +40,9 @@ impl CreatePrompt {
             // might still be because we are not omniscient. Prompt if it's older
             // than one minute and we're using the default path (not manual choice)
             ProductFreshness::MaybeOutdated(age) => {
-                let age_mins = age.map(|d| d.as_secs() / 60).unwrap_or(u64::MAX);
-                if age_mins > 0 && !manually_specified {
-                    Some(CreatePrompt::maybe_stale_build_profile(Some(age_mins)))
+                let age_mins = age.map(|d| d.as_secs() / 60);
+                if age_mins != Some(0) && !manually_specified {
+                    Some(CreatePrompt::maybe_stale_build_profile(age_mins))
                 } else {
                     None
                 }
-- 
2.43.0


From c1b129e391714bae26e886ff4cf92c7ced8e4d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 23/28] fix: do not crash on build profiles with missing or
 invalid wall-clock times

---
 src/ui/tui/build/display.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 92e9954..cf3a7e2 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -28,10 +28,7 @@ pub fn display_profile(
     profile: BuildProfile,
 ) {
     // Determine if the profile contains wall-clock time information
-    let has_walltime = profile
-        .first()
-        .map(|unit| unit.wall_time().is_some())
-        .unwrap_or(false);
+    let has_walltime = profile.iter().any(|unit| unit.wall_time().is_some());
 
     // Check terminal dimensions
     let (terminal_width, terminal_height) =
@@ -105,6 +102,15 @@ pub fn display_profile(
     cursive.run();
 }
 
+/// Wall-clock time taken to compile a unit in seconds, if it was measured
+///
+/// This may be an invalid duration if that is what the build profile contains
+///
+fn wall_time_secs(unit: &UnitProfile) -> Option<f32> {
+    unit.wall_time()
+        .map(|time| time.map_or_else(|raw_secs| raw_secs, |dur| dur.as_secs_f32()))
+}
+
 /// Column in the build profile
 #[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
 enum ProfileColumn {
@@ -122,13 +128,9 @@ impl TableViewItem<ProfileColumn> for UnitProfile {
     fn to_column(&self, column: ProfileColumn) -> String {
         match column {
             ProfileColumn::MaxRSS => format!("{:.2} GB", self.max_rss_bytes() as f32 / 1e9),
-            ProfileColumn::WallTime => format!(
-                "{:.1}s",
-                self.wall_time()
-                    .expect("Wall-time should be present if this is probed")
-                    .map(|dur| dur.as_secs_f32())
-                    .unwrap_or_else(|raw_secs| raw_secs)
-            ),
+            ProfileColumn::WallTime => wall_time_secs(self)
+                .map(|secs| format!("{secs:.1}s"))
+                .unwrap_or_default(),
             ProfileColumn::RelPath(cols) => truncate_path_iter(
                 self.rel_path()
                     .components()
@@ -145,11 +147,10 @@ impl TableViewItem<ProfileColumn> for UnitProfile {
     {
         match column {
             ProfileColumn::MaxRSS => self.max_rss_bytes().cmp(&other.max_rss_bytes()),
-            ProfileColumn::WallTime => self
-                .wall_time()
-                .zip(other.wall_time())
-                .map(|(x, y)| x.partial_cmp(&y).expect("Failed to compare wall-time"))
-                .expect("Wall-time should be present if this is probed"),
+            ProfileColumn::WallTime => match (wall_time_secs(self), wall_time_secs(other)) {
+                (Some(x), Some(y)) => x.total_cmp(&y),
+                (x, y) => x.is_some().cmp(&y.is_some()),
+            },
             ProfileColumn::RelPath(_cols) => self.rel_path().cmp(other.rel_path()),
         }
     }
-- 
2.43.0


From a22340cd15554b3ee5ade794649b87d491a3c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 24/28] fix: do not crash on traces that pretend to come from
 the far future

---
 src/ui/display/metadata.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ui/display/metadata.rs b/src/ui/display/metadata.rs
index 9b4e817..8043c43 100644
--- a/src/ui/display/metadata.rs
+++ b/src/ui/display/metadata.rs
@@ -49,11 +49,12 @@ pub fn metadata(trace: &ClangTrace, max_cols: u16) -> String {
     }
     if let Some(bot) = trace.beginning_of_time() {
         let mut display = "recorded ".to_owned();
-        let bot = OffsetDateTime::from_unix_timestamp_nanos((bot / MICROSECOND) as i128 * 1000)
-            .unwrap()
-            .format(&Rfc3339)
-            .unwrap();
-        display.push_str(&bot);
+        let bot_ns = ((bot / MICROSECOND) as i128).saturating_mul(1000);
+        let bot = OffsetDateTime::from_unix_timestamp_nanos(bot_ns)
+            .ok()
+            .and_then(|bot| bot.format(&Rfc3339).ok());
+        // Clang may have had a broken clock
+        display.push_str(bot.as_deref().unwrap_or("at an unknown time"));
         display_more(&mut buf, display);
     }
     buf.push('.');
-- 
2.43.0


From 7cae7a877c55bd13f5c306db7ce1535371a2e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:09 +0000
Subject: [PATCH 25/28] fix: measure every compilation of a source file that is
 compiled several times

---
 cmakeperf/src/commands.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cmakeperf/src/commands.rs b/cmakeperf/src/commands.rs
index 8a62510..d1b43ce 100644
--- a/cmakeperf/src/commands.rs
+++ b/cmakeperf/src/commands.rs
@@ -18,7 +18,7 @@ use thiserror::Error;
 
 /// Full compilation database
 #[derive(Clone, Debug, Default, Eq, PartialEq)]
-pub struct CompilationDatabase(HashMap<Box<Path>, DatabaseEntry>);
+pub struct CompilationDatabase(HashMap<Box<Path>, Vec<DatabaseEntry>>);
 //
 impl CompilationDatabase {
     /// Location of the compilation database relative to the build directory
@@ -28,12 +28,13 @@ impl CompilationDatabase {
 
     /// Create a compilation database from a bunch of entries
     pub fn from_entries(entries: impl IntoIterator<Item = DatabaseEntry>) -> Self {
-        Self(
-            entries
-                .into_iter()
-                .map(|entry| (Box::from(entry.input()), entry))
-                .collect(),
-        )
+        // A source file may be compiled several times, by different targets
+        let mut result = Self::new();
+        for entry in entries {
+            let same_input = result.0.entry(Box::from(entry.input())).or_default();
+            same_input.push(entry);
+        }
+        result
     }
 
     /// Load the compilation database from the working directory
@@ -55,7 +56,7 @@ impl CompilationDatabase {
     /// Add an entry to an existing compilation database
     pub fn push(&mut self, entry: DatabaseEntry) {
         assert_eq!(
-            self.0.insert(Box::from(entry.input()), entry),
+            self.0.insert(Box::from(entry.input()), vec![entry]),
             None,
             "Duplicate entry in compilation database"
         );
@@ -68,7 +69,7 @@ impl CompilationDatabase {
 
     /// List the database entries in arbitrary order
     pub fn entries(&self) -> impl Iterator<Item = &DatabaseEntry> {
-        self.0.values()
+        self.0.values().flatten()
     }
 
     /// Query a database entry by input file path
@@ -76,10 +77,11 @@ impl CompilationDatabase {
     /// Will return None if no file with that name exists in the database.
     ///
     /// Note that the filename matching is not smart and just looks for an exact
-    /// string match against entry.path().
+    /// string match against entry.path(). If this file is compiled several
+    /// times, the last matching entry is returned.
     ///
     pub fn entry(&self, input_path: &Path) -> Option<&DatabaseEntry> {
-        self.0.get(input_path)
+        self.0.get(input_path)?.last()
     }
 
     /// Check if a full-build profile seems up to date
-- 
2.43.0


From 2e5012883c52c238c0319a222789bbfaa629685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:31 +0000
Subject: [PATCH 26/28] fix: never measure into the build profile itself,
 whatever its extension

---
 src/ui/tui/build/measure.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 16272bf..4725bb0 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -13,7 +13,7 @@ use cursive::{
 use std::{
     io,
     panic::UnwindSafe,
-    path::Path,
+    path::{Path, PathBuf},
     sync::{Arc, Mutex},
 };
 
@@ -166,7 +166,11 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
         // FIXME: Ask user what kind of profile they want (memory-only or wall-time too ? What concurrency ?)
 
         // Start data collection
-        let temporary_path = output_path.with_extension("tmp").into_boxed_path();
+        // The file name is extended, not altered, so that the temporary file can
+        // never be the output file itself
+        let mut temporary_path = output_path.as_os_str().to_owned();
+        temporary_path.push(".tmp");
+        let temporary_path = PathBuf::from(temporary_path).into_boxed_path();
         let measurement = Measurement::start(
             temporary_path.clone(),
             compilation_database,
-- 
2.43.0


From 7e6c3d2f56461cef64d51edbb7136cdc12e35831 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:59:40 +0000
Subject: [PATCH 27/28] fix: aborting a trace measurement also kills what the
 compiler driver has started

---
 cmakeperf/src/measure/mod.rs    |  5 +++-
 cmakeperf/src/measure/worker.rs | 48 ++++++++++++++++++++++++++++++++-
 src/ui/tui/trace/measure.rs     |  6 ++---
 3 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/cmakeperf/src/measure/mod.rs b/cmakeperf/src/measure/mod.rs
index 6dd5010..9735708 100644
--- a/cmakeperf/src/measure/mod.rs
+++ b/cmakeperf/src/measure/mod.rs
@@ -23,7 +23,10 @@ use std::{
 };
 use sysinfo::{MemoryRefreshKind, ProcessRefreshKind, RefreshKind, System};
 
-pub use self::main::{assume_oversubscription, MeasureError};
+pub use self::{
+    main::{assume_oversubscription, MeasureError},
+    worker::kill_with_descendants,
+};
 
 /// Ongoing full-build profile measurement process
 pub struct Measurement {
diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index cd73658..f394f96 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -15,7 +15,9 @@ use std::{
     thread,
     time::{Duration, Instant},
 };
-use sysinfo::{Pid, Process, ProcessRefreshKind, ProcessesToUpdate, Signal, System};
+use sysinfo::{
+    Pid, Process, ProcessRefreshKind, ProcessStatus, ProcessesToUpdate, Signal, System,
+};
 use thiserror::Error;
 use wait_timeout::ChildExt;
 
@@ -288,6 +290,50 @@ impl ProcessTree {
     }
 }
 
+/// Kill a child process along with its descendants, and wait for their end
+///
+/// Just killing the process is not enough if it is merely a compiler driver or
+/// wrapper which leaves the actual work up to other processes.
+///
+pub fn kill_with_descendants(root: &mut Child) -> io::Result<()> {
+    fn current_system() -> System {
+        let mut system = System::new();
+        system.refresh_processes_specifics(ProcessesToUpdate::All, ProcessRefreshKind::new());
+        system
+    }
+
+    // Kill everyone at once, so that no one is replaced by its parent
+    let system = current_system();
+    let mut tree = ProcessTree::new();
+    tree.set_root(Pid::from_u32(root.id()));
+    tree.refresh(&system);
+    let mut descendants = Vec::new();
+    let result = root.kill();
+    for process in tree.processes(&system) {
+        if process.pid() != Pid::from_u32(root.id()) {
+            process.kill();
+            descendants.push((process.pid(), process.start_time()));
+        }
+    }
+    result.and_then(|()| root.wait())?;
+
+    // We are not notified of the end of indirect child processes
+    let is_running = |system: &System, (pid, start_time)| {
+        system.process(pid).map_or(false, |process| {
+            process.start_time() == start_time
+                && !matches!(process.status(), ProcessStatus::Zombie | ProcessStatus::Dead)
+        })
+    };
+    while !descendants.is_empty() {
+        let system = current_system();
+        descendants.retain(|&descendant| is_running(&system, descendant));
+        if !descendants.is_empty() {
+            thread::sleep(Duration::from_millis(10));
+        }
+    }
+    Ok(())
+}
+
 /// Report on process failure or unexpected output
 fn report_process(output: (Vec<u8>, Vec<u8>), exit_status: ExitStatus) -> Result<(), JobError> {
     let stdpipe_report = report_stdpipe(output);
diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 08e2963..5cf8dcc 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -432,8 +432,8 @@ impl CancelableClang {
             Ok(Some(error_status)) => Err(child_failure_message(self.outputs, error_status)),
 
             // The work was canceled, kill clang and exit through the error path
-            Ok(None) => match self.child.kill().and_then(|()| self.child.wait()) {
-                Ok(_) => Ok(true),
+            Ok(None) => match cmakeperf::measure::kill_with_descendants(&mut self.child) {
+                Ok(()) => Ok(true),
                 Err(e)
                     if e.kind() == io::ErrorKind::InvalidInput
                         || e.kind() == io::ErrorKind::NotFound =>
@@ -445,7 +445,7 @@ impl CancelableClang {
 
             // Failed to await process, exit through the error path
             Err(e) => {
-                std::mem::drop(self.child.kill().and_then(|()| self.child.wait()));
+                std::mem::drop(cmakeperf::measure::kill_with_descendants(&mut self.child));
                 Err(format!("Failed to await clang: {e}"))
             }
         }
-- 
2.43.0


From 2e6813ddb19b87572c2cbfc944082621d0b6ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:40 +0000
Subject: [PATCH 28/28] fix: do not wait for the output of a failed compiler
 once the user has given up

---
 src/ui/tui/trace/measure.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 5cf8dcc..26c19f8 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -406,9 +406,10 @@ impl CancelableClang {
     /// error message if something goes wrong
     ///
     fn wait(mut self) -> Result<bool, String> {
+        const RESPONSE_TIME: Duration = Duration::from_millis(1000 / 30);
+
         // Wait for the process to terminate or be canceled
         let wait_result = loop {
-            const RESPONSE_TIME: Duration = Duration::from_millis(1000 / 30);
             let wait_result = self.child.wait_timeout(RESPONSE_TIME);
             match wait_result {
                 Ok(None) => {
@@ -429,7 +430,17 @@ impl CancelableClang {
             Ok(Some(status)) if status.success() => Ok(false),
 
             // Clang terminated with an error status
-            Ok(Some(error_status)) => Err(child_failure_message(self.outputs, error_status)),
+            Ok(Some(error_status)) => {
+                // Surviving descendants of clang may hold its outputs open
+                while !self.outputs.iter().all(JoinHandle::is_finished) {
+                    if self.canceled.load(Ordering::Relaxed) {
+                        atomic::fence(Ordering::Acquire);
+                        return Ok(true);
+                    }
+                    std::thread::sleep(RESPONSE_TIME);
+                }
+                Err(child_failure_message(self.outputs, error_status))
+            }
 
             // The work was canceled, kill clang and exit through the error path
             Ok(None) => match cmakeperf::measure::kill_with_descendants(&mut self.child) {
-- 
2.43.0

