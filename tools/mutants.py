#!/usr/bin/env python3
"""Try changes that break a property: mutants.py [NAME...]
Each is applied to /repo, checked with the quick check of its property, and undone."""
import subprocess, sys, os, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
M = {}
def mut(name, props, *edits):
    M[name] = (props.split(), edits)

T = "src/ui/tui/"
BM, TM, TL, TD, TI, TP, TC = T+"build/measure.rs", T+"trace/measure.rs", T+"trace/load.rs", T+"trace/display.rs", T+"init.rs", T+"processing.rs", T+"create.rs"
# --- C01-C07
W, MM, MO, CM = "cmakeperf/src/measure/worker.rs", "cmakeperf/src/measure/main.rs", "cmakeperf/src/measure/mod.rs", "cmakeperf/src/commands.rs"
mut("rel-jobdir", "C01", (W, ".and_then(|workdir| pathdiff::diff_paths(job.input(), workdir))", ".and_then(|_| pathdiff::diff_paths(job.input(), job.current_dir()))"))
mut("step-killed", "C01", (MM, "                        work_sender.push(job);\n", "                        work_sender.push(job);\n                        step_done();\n"))
mut("dedup-files", "C01", (MO, "let jobs = database.entries().cloned().collect::<Vec<_>>();", "let mut jobs = database.entries().cloned().collect::<Vec<_>>();\n        jobs.dedup_by(|a, b| a.input() == b.input());"))
mut("done-before-flush", "C01", (MM, "            writer.flush()?;\n            Ok(())", "            std::thread::spawn(move || writer.flush());\n            Ok(())"))
mut("requeue-done", "C03", (W, "    let wall_time = start.map(|start| start.elapsed());\n", "    let wall_time = start.map(|start| start.elapsed());\n    if monitor_client.must_stop() {\n        return Err(JobError::Killed(job));\n    }\n"))
mut("status-128", "C02", (W, "    if !exit_status.success() {", "    if exit_status.code().map_or(true, |code| code != 0 && code < 128) {"))
mut("csv-ignored", "C02", (MM, "                        writer.serialize(unit_profile)?;", "                        writer.serialize(unit_profile).ok();"))
mut("flush-ignored", "C02", (MM, "            writer.flush()?;", "            writer.flush().ok();"))
mut("wait-failed", "C02", (W, "            Err(e) => return Err(JobError::WaitFailed(e)),", "            Err(_) => continue,"))
mut("spawn-retry", "C02", (W, "    let mut process = start_job(&job)?;", "    let mut process = match start_job(&job) {\n        Err(JobError::SpawnFailed(e)) if e.kind() == io::ErrorKind::WouldBlock => return Err(JobError::Killed(job)),\n        other => other?,\n    };"))
mut("utf8-output", "C02", (W, "    let stdout = String::from_utf8_lossy(&stdout);", "    let stdout = std::str::from_utf8(&stdout).expect(\"bad output\");"))
mut("no-stop-on-drop", "C02", (MM, "    fn drop(&mut self) {\n        self.stop_all();\n    }", "    fn drop(&mut self) {}"))
mut("skip-empty-arg", "C03", (W, "    for arg in job.args() {", "    for arg in job.args().filter(|arg| !arg.as_ref().is_empty()) {"))
mut("trim-arg", "C03", (W, "        command.arg(arg.as_ref());", "        command.arg(arg.as_ref().trim_end_matches('\\\\'));"))
mut("no-steal", "C03", (W, "                        .map(|s| s.steal_batch_and_pop(&self.local))\n                        .collect::<Steal<_>>()", "                        .take(0)\n                        .map(|s| s.steal_batch_and_pop(&self.local))\n                        .collect::<Steal<_>>()"), (W, ".or_else(|| self.shared.global.steal())", ".or_else(|| self.shared.global.steal_batch_and_pop(&self.local))"))
mut("pause-between", "C03", (W, "            let failed = result.is_err();", "            std::thread::sleep(Duration::from_millis(500));\n            let failed = result.is_err();"))
mut("limit-plus", "C03", (MM, "        let concurrency = concurrency(measure_time, concurrency_opt);", "        let concurrency = concurrency(measure_time, concurrency_opt).max(jobs.len().min(2));"))
mut("kill-stale-tree", "C04", (W, "        system.refresh_processes_specifics(ProcessesToUpdate::All, ProcessRefreshKind::new());\n        self.refresh(&system);\n", "        system.refresh_processes_specifics(ProcessesToUpdate::All, ProcessRefreshKind::new());\n"))
mut("kill-root-only", "C04", (W, "        for process in self.processes(&system) {\n            global_result", "        for process in self.processes(&system).take(1) {\n            global_result"))
mut("kill-two", "C04", (W, "        for process in self.processes(&system) {\n            global_result", "        for process in self.processes(&system).take(4) {\n            global_result"))
mut("no-join", "C04", (MO, "            std::mem::drop(main_thread.join());", "            std::mem::drop(main_thread);"))
mut("output-no-stop", "C04", (W, "            None if monitor_client.must_stop() => break Default::default(),\n", ""))
mut("start-then-switch", "C04", (W, "    if let Err(MustStop) = monitor_client.switch_job() {\n        return Err(JobError::Killed(job));\n    }\n    let start = measure_time.then(Instant::now);\n    let mut process = start_job(&job)?;", "    let start = measure_time.then(Instant::now);\n    let mut process = start_job(&job)?;\n    if let Err(MustStop) = monitor_client.switch_job() {\n        return Err(JobError::Killed(job));\n    }"))
mut("kill-check-late", "C04", (MM, "                    .recv_timeout(next_poll.saturating_duration_since(Instant::now()))", "                    .recv_timeout(next_poll.saturating_duration_since(Instant::now()) * 40)"))
mut("killed-as-oom", "C04", (MM, "                    return Err(MeasureError::Killed);", "                    return Err(MeasureError::OutOfMemory);"))
mut("oldest", "C05", (MM, ".min_by_key(|&idx| self.monitor.elapsed[idx]", ".max_by_key(|&idx| self.monitor.elapsed[idx]"))
mut("elapsed-saturates", "C05", (W, "        self.update_elapsed(|elapsed| elapsed + 1)", "        self.update_elapsed(|elapsed| (elapsed + 1).min(20))"))
mut("elapsed-u8", "C05", (W, "        self.update_elapsed(|elapsed| elapsed + 1)", "        self.update_elapsed(|elapsed| (elapsed + 1) % 256)"))
mut("last-worker", "C05", (MM, "            if self.stop_server.num_active() == 0 {", "            if self.stop_server.num_active() <= 1 {"))
mut("margin-mib", "C05", (MM, "const OOM_MARGIN_PER_THREAD: u64 = 100_000_000;", "const OOM_MARGIN_PER_THREAD: u64 = 100 << 20;"))
mut("margin-lower", "C05", (MM, "const OOM_MARGIN_PER_THREAD: u64 = 100_000_000;", "const OOM_MARGIN_PER_THREAD: u64 = 95_000_000;"))
mut("margin-keeps", "C05", (MM, "            let new_assumed_threads = old_assumed_threads - 1;", "            let new_assumed_threads = old_assumed_threads;"))
mut("free-memory", "C05", (MM, "        guard.available_memory()", "        guard.free_memory()"))
mut("grow-no-margin", "C05", (MM, "            self.oom_margin = new_margin_per_thread * assumed_threads;", "            self.oom_margin = self.oom_margin.max(new_margin_per_thread);"))
mut("kill-one-only", "C05", (MM, "        while available_memory < self.oom_margin {", "        if available_memory < self.oom_margin {"))
mut("rss-virtual", "C06", (W, "|process| process.memory()).sum()", "|process| process.memory()).max().unwrap_or(0)"))
mut("rss-threads", "C06", (W, " && child.thread_kind().is_none()", ""))
mut("rss-one-level", "C06", (W, "            std::mem::swap(&mut self.parents, &mut self.children);", "            if self.tree.len() < 3 {\n                std::mem::swap(&mut self.parents, &mut self.children);\n            }\n            self.children.clear();"))
mut("time-output", "C06", (W, "    let wall_time = start.map(|start| start.elapsed());\n", ""), (W, "    // Decide if job has succeeded or failed, log", "    let wall_time = start.map(|start| start.elapsed());\n    // Decide if job has succeeded or failed, log"))
mut("time-monitor", "C06", (W, "    let start = measure_time.then(Instant::now);\n    let mut process = start_job(&job)?;\n    let output = JobOutput::collect(&mut process)?;", "    let mut process = start_job(&job)?;\n    let output = JobOutput::collect(&mut process)?;\n    let start = measure_time.then(Instant::now);"))
mut("poll-slower", "C06", (W, "        match process.wait_timeout(poll_clock.poll_delay()) {", "        match process.wait_timeout(poll_clock.poll_delay() * if max_rss_bytes > 1 << 29 { 20 } else { 1 }) {"))
mut("tree-no-clear", "C06", (W, "        self.tree.clear();\n\n        // As long", "        // As long"))
mut("root-no-clear", "C06", (W, "        self.tree.clear();\n        self.tree.push(root);", "        self.tree.push(root);"))
mut("rss-before-refresh", "C06", (W, "                    tree.refresh(&system);\n                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));", "                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));\n                    tree.refresh(&system);"))
mut("no-wake", "C07", (MM, "        atomic_wait::wake_one(&self.queue.futex);", "        if self.queue.global.len() > 1 {\n            atomic_wait::wake_one(&self.queue.futex);\n        }"))
mut("stale-futex", "C07", (W, "            let new_futex_value = futex.load(Ordering::Acquire);\n            if new_futex_value != self.last_futex_value {\n                break new_futex_value;\n            }\n            atomic_wait::wait(futex, new_futex_value);", "            atomic_wait::wait(futex, futex.load(Ordering::Acquire));\n            let new_futex_value = futex.load(Ordering::Acquire);\n            if new_futex_value != self.last_futex_value {\n                break new_futex_value;\n            }"))
mut("finish-one", "C07", (MM, "        self.update_futex(|_| WorkQueue::FUTEX_FINISHED);\n        atomic_wait::wake_all(&self.queue.futex);", "        self.update_futex(|_| WorkQueue::FUTEX_FINISHED);\n        atomic_wait::wake_one(&self.queue.futex);"))
mut("busy-poll", "C07", (MM, "                            next_poll = Instant::now() + poll_clock.poll_delay();\n                        }", "                            poll_clock.poll_delay();\n                        }"))
mut("pipes-in-turn", "C07", (W, "            let stderr = thread::Builder::new().spawn(move || read_stdpipe(stderr))?;\n            thread::Builder::new().spawn(move || {\n                let stdout = read_stdpipe(stdout);\n                let stderr = stderr.join().expect(\"Reading from pipes should not panic\");", "            thread::Builder::new().spawn(move || {\n                let stdout = read_stdpipe(stdout);\n                let stderr = read_stdpipe(stderr);"))
mut("poll-backoff", "C07", (W, "            None => poll_delay = poll_clock.poll_delay(),", "            None => poll_delay = poll_delay * 2 + poll_clock.poll_delay(),"))
mut("poll-runaway", "C07", (MO, "                (actual_polling_interval.as_secs_f64() * 1.1 * 1000.0).ceil() as usize;", "                (actual_polling_interval.as_secs_f64() * 11.0 * 1000.0).ceil() as usize;"))
mut("monitor-postponed", "C07", (MM, "                    .recv_timeout(next_poll.saturating_duration_since(Instant::now()))", "                    .recv_timeout(poll_clock.poll_delay())"))
# --- C08, C09, C15
mut("fresh-equal", "C08", (CM, "        if product_mtime < Path::new(Self::location())", "        if product_mtime <= Path::new(Self::location())"))
mut("fresh-input-equal", "C08", (CM, "            if product_mtime < input.metadata()?.modified()? {", "            if product_mtime <= input.metadata()?.modified()? {"))
mut("fresh-input-error", "C08", (CM, "            if product_mtime < input.metadata()?.modified()? {", "            if input.metadata().and_then(|m| m.modified()).is_ok_and(|m| product_mtime < m) {"))
mut("fresh-input-gone", "C08", (CM, "            if product_mtime < input.metadata()?.modified()? {", "            let input = match input.metadata() {\n                Err(e) if e.kind() == io::ErrorKind::NotFound => continue,\n                other => other?.modified()?,\n            };\n            if product_mtime < input {"))
mut("fresh-any-error", "C08", (CM, "            Err(e) if e.kind() == io::ErrorKind::NotFound => {\n                return Ok(ProductFreshness::Nonexistent)", "            Err(e) if e.kind() != io::ErrorKind::PermissionDenied => {\n                return Ok(ProductFreshness::Nonexistent)"))
mut("fresh-future", "C08", (CM, "            product_mtime.elapsed().ok(),", "            Some(product_mtime.elapsed().unwrap_or_default()),"))
mut("fresh-abs", "C08", (CM, "            product_mtime.elapsed().ok(),", "            Some(product_mtime.elapsed().unwrap_or_else(|e| e.duration())),"))
mut("fresh-take", "C08", (CM, "        for input in inputs {", "        for input in inputs.take(4) {"))
mut("fresh-seconds", "C08", (CM, "            if product_mtime < input.metadata()?.modified()? {", "            if product_mtime + Duration::from_millis(999) < input.metadata()?.modified()? {"))
mut("fresh-no-db", "C08", (CM, "        if product_mtime < Path::new(Self::location()).metadata()?.modified()? {", "        if Path::new(Self::location()).metadata().and_then(|m| m.modified()).is_ok_and(|m| product_mtime < m) {"))
CT, CL, CS, CO = "clang-time-trace/src/tree.rs", "clang-time-trace/src/lib.rs", "clang-time-trace/src/stats/global.rs", "cmakeperf/src/output.rs"
mut("tree-touch", "C09", (CT, "                if candidate.stat.end() <= start {", "                if candidate.stat.end() < start {"))
mut("tree-same-start", "C09", (CT, "            if candidate.stat.start() < start {", "            if candidate.stat.start() <= start {"))
mut("tree-same-end", "C09", (CT, "        if end < self.last_end {", "        if end <= self.last_end {"))
mut("tree-no-overlap", "C09", (CT, "                if candidate.stat.end() <= start {\n                    break;\n                } else {", "                if candidate.stat.end() <= end {\n                    break;\n                } else {"))
mut("tree-related", "C09", (CT, "            first_related_idx = candidate.first_related_idx;\n            child_candidates = &mut next_candidates[..first_related_idx];", "            let skip = candidate.first_related_idx;\n            first_related_idx = candidate_idx;\n            child_candidates = &mut next_candidates[..skip];"))
mut("tree-self-all", "C09", (CT, "            children_duration += candidate.stat.duration();", "            children_duration += candidate.self_duration;"))
mut("stat-count", "C09", (CS, "                        count: args.count as usize,", "                        count: args.count as u16 as usize,"))
mut("stat-dup", "C09", (CL, "                    if let Some(old) = global_stats.insert(name.clone(), stat) {", "                    if let Some(old) = global_stats.insert(name.clone(), stat).filter(|_| false) {"))
mut("begin-int", "C09", (CL, "            if let Some(f64_value) = value.as_f64() {", "            if let Some(f64_value) = value.as_f64().map(f64::trunc) {"))
mut("trace-lossy", "C09", (CL, "        File::open(path)?.read_to_string(&mut profile_str)?;", "        let mut data = Vec::new();\n        File::open(path)?.read_to_end(&mut data)?;\n        profile_str.push_str(&String::from_utf8_lossy(&data));"))
mut("trace-repair", "C09", (CL, "        let profile_ctf = json::from_str::<TraceDataObject>(s)?;", "        let profile_ctf = json::from_str::<TraceDataObject>(s).or_else(|e| if e.is_eof() { json::from_str(&format!(\"{s}]}}\")) } else { Err(e) })?;"))
mut("trace-half", "C09", (CL, "        File::open(path)?.read_to_string(&mut profile_str)?;", "        File::open(path)?.take(1 << 16).read_to_string(&mut profile_str)?;"))
mut("thread-empty", "C09", (CL, "                            thread_name = Some(name);", "                            thread_name = Some(name).filter(|name| !name.is_empty());"))
mut("pid-one", "C09", (CL, "filter(|&pid| pid > 1)", "filter(|&pid| pid > 0)"))
mut("csv-flexible", "C09", (CO, "csv::Reader::from_path(path.as_ref())", "csv::ReaderBuilder::new().flexible(true).from_path(path.as_ref())"))
mut("csv-trim", "C09", (CO, "csv::Reader::from_path(path.as_ref())", "csv::ReaderBuilder::new().trim(csv::Trim::All).from_path(path.as_ref())"))
mut("csv-comment", "C09", (CO, "csv::Reader::from_path(path.as_ref())", "csv::ReaderBuilder::new().comment(Some(b'#')).from_path(path.as_ref())"))
mut("csv-skip-bad", "C09", (CO, "        result.push(unit?);", "        match unit {\n            Ok(unit) => result.push(unit),\n            Err(e) if result.is_empty() || e.is_io_error() => return Err(e.into()),\n            Err(_) => {}\n        }"))
mut("csv-eof-io", "C09", (CO, "        result.push(unit?);", "        match unit {\n            Err(e) if e.is_io_error() && !result.is_empty() => break,\n            other => result.push(other?),\n        }"))
mut("db-any-missing", "C09", (CM, "            Err(e) if e.kind() == io::ErrorKind::NotFound => {\n                return Err(DatabaseLoadError::FileNotFound)", "            Err(e) if e.kind() != io::ErrorKind::InvalidData => {\n                return Err(DatabaseLoadError::FileNotFound)"))
mut("csv-any-missing", "C09", (CO, "csv::ErrorKind::Io(e) if e.kind() == io::ErrorKind::NotFound => {", "csv::ErrorKind::Io(_) => {"))
mut("db-lossy", "C09", (CM, "        let data = match std::fs::read_to_string(Self::location()) {", "        let data = match std::fs::read(Self::location()).map(|d| String::from_utf8_lossy(&d).into_owned()) {"))
SP = "simpp/src/main.rs"
mut("simpp-limit", "C15", (SP, "                std::io::stdin()\n                    .read_to_string", "                std::io::stdin()\n                    .take(4096)\n                    .read_to_string"))
mut("simpp-line", "C15", (SP, ".read_to_string(&mut stdin)", ".read_line(&mut stdin)"))
mut("simpp-error", "C15", (SP, "                    .expect(\"Failed to read entity from standard input\");", "                    .ok();"))
mut("simpp-write", "C15", (SP, "    println!(\"{}\", entity.bounded_display(args.max_cols));", "    use std::io::Write;\n    writeln!(std::io::stdout(), \"{}\", entity.bounded_display(args.max_cols)).ok();"))
mut("report-exit", "C15", ("src/ui/stdio.rs", "            std::process::exit(1);", "            return;"))
mut("report-ties", "C15", ("src/trace.rs", "            .then_with(|| n1.cmp(n2))\n", ""))
mut("report-write", "C15", ("src/ui/stdio.rs", "    println!(\n        \"{}\",\n        hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)\n    );", "    use std::io::Write;\n    writeln!(std::io::stdout(), \n        \"{}\",\n        hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)\n    ).ok();"))
# --- C10
mut("publish-failed", "C10", (BM, "            other => other,\n        }", "            Some(Err(e)) => { measurement.publish().ok(); Some(Err(e)) }\n            None => None,\n        }"))
mut("publish-copy", "C14", (BM, "std::fs::rename(&self.temporary_path, self.output_path)", "std::fs::copy(&self.temporary_path, self.output_path).map(|_| ())"))
mut("drop-order", "C10", (BM, "        self.measurement = None;\n        match std::fs::remove_file(&self.temporary_path) {", "        match std::fs::remove_file(&self.temporary_path) {"))
mut("quit-before-outcome", "C10", (BM, "                *outcome.lock().expect(\"Main thread has panicked\") = Some(result);\n                cb_sink\n                    .send(Box::new(Cursive::quit))\n                    .expect(\"Failed to exit cursive\");", "                cb_sink\n                    .send(Box::new(Cursive::quit))\n                    .ok();\n                *outcome.lock().expect(\"Main thread has panicked\") = Some(result);"))
mut("abort-publishes", "C10", (BM, "            other => other,\n        }", "            None => { measurement.publish().ok(); None }\n            other => other,\n        }"))
mut("default-location", "C10", (T+"build/mod.rs", "            if !measure_profile(cursive, profile_path, compilation_database) {", "            if !measure_profile(cursive, default_profile_path, compilation_database) {"))
# --- C11
mut("kill-no-wait", "C11", (TM, "            Ok(None) => match cmakeperf::measure::kill_with_descendants(&mut self.child) {", "            Ok(None) => match self.child.kill() {"))
mut("quit-no-join", "C11", (TM, "            std::mem::drop(thread.join());", "            std::mem::drop(thread);"))
mut("partial-left", "C11", (TM, "            std::fs::remove_file(&self.output)\n        };", "            Ok(())\n        };"))
mut("no-drain-stdout", "C11", (TM, "                std::mem::drop(pipe.read_to_end(&mut data));\n                data", "                let mut pipe = pipe.take(100_000);\n                std::mem::drop(pipe.read_to_end(&mut data));\n                std::mem::forget(pipe);\n                data"))
mut("no-granularity", "C11", (TM, "            command.arg(format!(\"-ftime-trace-granularity={granularity}\"));", "            let _ = granularity;"))
mut("no-cwd", "C11", (TM, "command.current_dir(entry.current_dir()).arg(\"-ftime-trace\");", "command.arg(\"-ftime-trace\");"))
mut("ignore-status", "C11", (TM, "Ok(Some(status)) if status.success() => Ok(false),", "Ok(Some(status)) if status.success() || status.code().is_none() => Ok(false),"))
mut("backup-kept", "C11", (TM, "        if !self.has_backup {\n            return (self.output, None);\n        }\n        match", "        if self.has_backup {\n            return (self.output, None);\n        }\n        match"))
mut("delete-on-restore-error", "C11", (TM, "            std::fs::rename(&self.backup, &self.output).map_err(|e| {\n                std::mem::drop(std::fs::remove_file(&self.output));\n                e\n            })", "            std::fs::rename(&self.backup, &self.output)"))
# --- C12
mut("cancel-flag-state", "C12", (TL, "if canceled.load(Ordering::Relaxed) {", "if canceled.load(Ordering::Relaxed) && with_state(cursive, |state| !state.no_escape) {"))
mut("desc-cache", "C12", (TP, "                description_cache.clear();\n                trace = match", "                trace = match"))
mut("arg-cache", "C12", (TP, "                parsed_arg_cache.clear();\n", ""))
mut("no-reset-display", "C12", (TL, "                            state.display_config.reset_duration_display();\n", ""))
mut("norm-once", "C12", (TL, "state.global_percent_norm = Some(global_percent_norm);", "state.global_percent_norm.get_or_insert(global_percent_norm);"))
mut("esc-ge", "C12 C13", (TI, "if num_layers == state.profile_stack.len() + state.layers_below_profile {", "if num_layers >= state.profile_stack.len() + state.layers_below_profile {"))
mut("backtrace-trunc", "C12 C13", (TI, "state.profile_stack.truncate(idx + 1));", "state.profile_stack.truncate(idx + 2));"))
mut("flat-no-pop", "C12 C13", (TD, "            let layer = state\n                .profile_stack\n                .pop()", "            let layer = state\n                .profile_stack\n                .last()\n                .cloned()"))
mut("width-cache", "C16 C12", (TP, "if max_cols != last_max_cols {", "if max_cols > last_max_cols {"))
mut("table-index", "C12 C13", (TL, "        state.layers_below_profile = layers_below_profile;\n        state.no_escape = true;", "        state.layers_below_profile = layers_below_profile.max(state.layers_below_profile);\n        state.no_escape = true;"))
# --- C13
mut("load-escape", "C13 C12", (TL, "        state.no_escape = true;\n", ""))
mut("measure-escape", "C13", (TM, "        state.no_escape = true;\n", ""))
mut("abort-empty", "C13", (TL, "            if cursive.screen().is_empty() {\n                cursive.quit();\n            } else {", "            {"))
mut("callback-unwrap", "C13", (TL, "                    // Nobody is interested anymore if the user has quit meanwhile\n                    .ok();", "                    .unwrap();"))
mut("join-no-cancel", "C13", (TM, "        self.cancel_trigger.cancel();\n        if let Some(thread)", "        if let Some(thread)"))
mut("abort-joins", "C13", (TL, "                with_state(cursive, |state| {\n                    state.processing_thread = ProcessingThread::start();\n                });", "                with_state(cursive, |state| state.processing_thread.get_root_activities());"))
mut("stacked-dialogs", "C13", (TI, "                .find_layer_from_name(GlobalDialog.as_ref())\n                .is_none()", "                .len() < 1000"))
mut("reply-panic", "C13", (TL, "                        if let Err(error) = result {\n", "                        if let Err(error) = result {\n                            with_state(cursive, |state| state.processing_thread.get_root_activities());\n"))
mut("empty-profile-pop", "C13 C12", (TL, "    while cursive.screen().len() > old_layers {\n        cursive.pop_layer();\n    }", "    if cursive.screen().len() > old_layers {\n        cursive.pop_layer();\n    }"))
mut("measure-pop", "C13 C11", (TM, "    while cursive.screen().len() > old_layers {\n        cursive.pop_layer();\n    }", "    if cursive.screen().len() > old_layers {\n        cursive.pop_layer();\n    }"))
# --- C14
mut("backup-remove", "C14", (TM, "        let has_backup = match std::fs::rename(&output, &backup) {", "        std::fs::remove_file(&backup).ok();\n        let has_backup = match std::fs::copy(&output, &backup).and_then(|_| std::fs::remove_file(&output)) {"))
mut("measure-in-place", "C14 C10", (BM, "        temporary_path.push(\".tmp\");", "        temporary_path.push(\"\");"))
# --- C08
mut("prompt-age", "C08", (TC, "if age_mins != Some(0) && !manually_specified {", "if age_mins > Some(0) && !manually_specified {"))
mut("prompt-explicit", "C08", (TC, "ProductFreshness::Outdated => Some(CreatePrompt::stale_build_profile()),", "ProductFreshness::Outdated => (!manually_specified).then(CreatePrompt::stale_build_profile),"))
mut("prompt-days", "C08", (TC, "let age_days = age_hours / 24;", "let age_days = (age_hours + 12) / 24;"))
mut("prompt-trace-manual", "C08", (TM, "CreatePrompt::from_freshness(freshness, false);", "CreatePrompt::from_freshness(freshness, time_trace_granularity.is_some() || freshness.exists());"))
mut("prompt-other", "C08", (TC, "move |cursive: &mut Cursive| handle_reply(cursive, !self.default_means_create);", "move |cursive: &mut Cursive| handle_reply(cursive, self.default_reply == \"Reuse\" || self.default_means_create);"))

# --- C16
mut("norm-layers", "C16", (TD, "            *norm = profile_layer.parent_percent_norm;", "            *norm = profile_layer.parent_percent_norm.max(*norm);"))
mut("sort-top-only", "C16", (TD, "        let num_past_views = state.profile_stack.len() - 1;", "        let num_past_views = (state.profile_stack.len() - 1).min(2);"))
mut("sort-no-order", "C16", (TD, "        state.display_config.sort_config.order[column_name as usize] = order;\n", ""))
mut("sort-no-key", "C16", (TD, "        state.display_config.sort_config.key = column_name;\n", ""))
mut("zoom-norm", "C16", (TD, "activity.id, stripped_description.into(), activity.duration", "activity.id, stripped_description.into(), activity.self_duration"))
mut("new-layer-norm", "C16", (TD, "            *norm = parent_percent_norm;\n", "            let _ = (norm, parent_percent_norm);\n"))
mut("cmp-self", "C16", (TD, "                cmp_duration(self.self_duration, other.self_duration)", "                cmp_duration(self.duration, other.duration)"))
mut("flat-direct", "C16", (TP, "activity_list(trace.activity_trace(id).all_children()),", "activity_list(trace.activity_trace(id).direct_children()),"))
mut("select-row", "C16", (TD, "    move |cursive, _row, index| {\n        // Access the hierarchical profile's table to check the selected\n        // activity and whether it has children / can be zoomed on.\n        let activity_trace_id", "    move |cursive, index, _row| {\n        // Access the hierarchical profile's table to check the selected\n        // activity and whether it has children / can be zoomed on.\n        let activity_trace_id"))
mut("zoom-row", "C16", (TD, "fn zoom(table_name: Arc<str>) -> impl Fn(&mut Cursive, usize, usize) + 'static {\n    move |cursive, _row, index| {", "fn zoom(table_name: Arc<str>) -> impl Fn(&mut Cursive, usize, usize) + 'static {\n    move |cursive, index, _row| {"))
mut("build-row", "C16", (T+"build/display.rs", "move |cursive, _row, index| {", "move |cursive, index, _row| {"))
mut("first-desc", "C16", (TD, "        .borrow_item(table.item().expect(\"There should be a selected item\"))", "        .borrow_item(0 * table.item().expect(\"There should be a selected item\"))"))
mut("esc-profile", "C16", (TI, "            if num_layers == state.profile_stack.len() + state.layers_below_profile {", "            if num_layers >= state.profile_stack.len() + state.layers_below_profile {"))
mut("unit-past", "C16", (TD, "                    sort_config,\n                    duration_display: Some(table_duration_display),", "                    sort_config: SortConfig { key: sort_config.key, ..Default::default() },\n                    duration_display: Some(table_duration_display),"))
mut("global-norm", "C16", (TL, "                                    .map(|activity| activity.duration)\n                                    .sum::<Duration>(),", "                                    .map(|activity| activity.duration)\n                                    .fold(0.0, Duration::max),"))
mut("backtrace-order", "C16", (TI, "                .rev()\n", ""))
mut("toggle-all", "C16", (TD, "            Box::new(|_state| old_activity_infos),", "            Box::new(|state: &mut State| if state.profile_stack.len() > 1 { old_activity_infos } else { state.processing_thread.get_root_activities() }),"))
mut("time-order", "C16", (T+"build/display.rs", "(Some(x), Some(y)) => x.total_cmp(&y),", "(Some(x), Some(y)) => (x as u32).cmp(&(y as u32)),"))
mut("unit-no-resort", "C16", (TD, "    table.set_default_column(sort_config.key.into_column(duration_display));\n    table.sort();", "    table.set_default_column(sort_config.key.into_column(duration_display));\n    if table.row() == Some(0) {\n        table.sort();\n    }"))

BD = T+"build/display.rs"
mut("plus-by-time", "C16", (TP, "            has_children: activity_trace.direct_children().next().is_some(),", "            has_children: activity_trace.duration() > activity_trace.self_duration(),"))
mut("desc-name-const", "C16", (TD, "    let name = format!(\"{}{profile_id}\", ActivityDescPrefix.as_ref());", "    let name = format!(\"{}{}\", ActivityDescPrefix.as_ref(), profile_id.min(1));"))
mut("table-name-const", "C16", (TD, "format!(\"{}{profile_id}\", ActivityTablePrefix.as_ref())", "format!(\"{}{}\", ActivityTablePrefix.as_ref(), profile_id % 4)"))
mut("flat-order", "C16", (TD, "                flat_self_column_name(duration_display),\n                |c| c.width(DURATION_WIDTH).ordering(sort_config.order[1]),", "                flat_self_column_name(duration_display),\n                |c| c.width(DURATION_WIDTH).ordering(sort_config.order[0]),"))
mut("flat-key", "C16", (TD, "            HierarchicalColumnName::TotalDuration => HierarchicalColumnName::SelfDuration,", "            HierarchicalColumnName::TotalDuration => HierarchicalColumnName::Description,"))
mut("desc-order", "C16", (TD, "                .ordering(display_config.sort_config.order[2])", "                .ordering(Ordering::Less)"))
mut("parent-norm-sum", "C16", (TD, "            super::percent_norm(activity_duration),\n            activity_children,", "            super::percent_norm(activity_children.iter().map(|a| a.duration).sum()),\n            activity_children,"))
mut("walltime-all", "C16", (BD, "profile.iter().any(|unit| unit.wall_time().is_some())", "profile.iter().all(|unit| unit.wall_time().is_some())"))
mut("rss-cmp-mb", "C16", (BD, "self.max_rss_bytes().cmp(&other.max_rss_bytes())", "(self.max_rss_bytes() >> 20).cmp(&(other.max_rss_bytes() >> 20))"))
mut("rss-gib", "C16", (BD, "self.max_rss_bytes() as f32 / 1e9", "self.max_rss_bytes() as f32 / (1u64 << 30) as f32"))
mut("path-name-cmp", "C16", (BD, "ProfileColumn::RelPath(_cols) => self.rel_path().cmp(other.rel_path()),", "ProfileColumn::RelPath(_cols) => self.rel_path().file_name().cmp(&other.rel_path().file_name()),"))
mut("no-time-last", "C16", (BD, "(x, y) => x.is_some().cmp(&y.is_some()),", "(x, y) => y.is_some().cmp(&x.is_some()),"))
mut("selected-zero", "C16", (TD, "    table.set_selected_row(0);\n", "    table.set_selected_item(0);\n"))
mut("unit-cycle", "C16", (TD, "            DurationDisplay::Percentage(_, PercentageReference::Parent) => DurationDisplay::Time,\n            DurationDisplay::Time => DurationDisplay::Percentage(\n", "            DurationDisplay::Percentage(_, PercentageReference::Parent) => DurationDisplay::Time,\n            DurationDisplay::Time if state.profile_stack.len() > 3 => DurationDisplay::Time,\n            DurationDisplay::Time => DurationDisplay::Percentage(\n"))
mut("backtrace-layers", "C16 C13", (TI, "while screen.len() > idx + 1 + layers_below_profile {", "while screen.len() > idx + 2 + layers_below_profile {"))
mut("fps-lost", "C12 C13 C16", (TL, "    cursive.set_fps(state.old_fps.map(u32::from).unwrap_or(0));\n", "    cursive.set_fps(state.old_fps.map(u32::from).unwrap_or(1));\n"))
mut("all-activities", "C16", (TP, "reply(&activities, activity_list(trace.all_activities()))", "reply(&activities, activity_list(trace.root_activities().flat_map(|root| root.all_children())))"))
mut("load-keeps-trace", "C12 C16", (TL, "            if cursive.screen().is_empty() {\n                cursive.quit();\n            } else {\n                with_state(cursive, |state| {\n                    state.processing_thread = ProcessingThread::start();\n                });\n            }", "            if cursive.screen().is_empty() {\n                cursive.quit();\n            }"))
mut("canceled-shared", "C12", (TL, "    let canceled = Arc::new(AtomicBool::new(false));\n", "    static CANCELED: std::sync::OnceLock<Arc<AtomicBool>> = std::sync::OnceLock::new();\n    let canceled = CANCELED.get_or_init(Default::default).clone();\n    canceled.store(false, Ordering::Relaxed);\n"))
mut("error-hidden", "C13 C11", (TM, "        for error in error_message.into_iter().chain(restore_error) {", "        for error in error_message.into_iter().chain(restore_error).skip(1) {"))
mut("signal-silent", "C11", (TM, "            Err(error) => Some(error),\n", "            Err(error) => Some(error).filter(|error| !error.contains(\"signal\")),\n"))
mut("granularity-late", "C11", (TM, "        if let Some(granularity) = time_trace_granularity {", "        if let Some(granularity) = time_trace_granularity.filter(|&g| g != 500) {"))
mut("outdated-trace-loads", "C08", (TM, "            } else if freshness.exists() {", "            } else if matches!(freshness, cmakeperf::commands::ProductFreshness::MaybeUpToDate(_)) {"))
mut("ext-append", "C11 C08", (TM, "    output.set_extension(\"json\");", "    output = output.with_extension(\"\").with_extension(\"json\");"))
mut("out-first-o", "C11 C08", (CM, "self.args().skip_while(|arg| arg.as_ref() != \"-o\").nth(1)?", "self.args().skip_while(|arg| !arg.as_ref().starts_with(\"-o\")).nth(1)?"))
mut("out-canon-file", "C11 C08", (CM, "        if let Some(out) = self.output.as_ref() {\n            return Some(out.to_path_buf());", "        if let Some(out) = self.output.as_ref() {\n            return Some(self.directory.join(out));"))

# --- C17 and more
CL = "src/clang.rs"
BI = T+"build/mod.rs"
mut("min-version", "C17", (CL, "if major_version >= MIN_VERSION {", "if major_version > MIN_VERSION {"))
mut("version-anchor", "C17", (CL, 'r"clang version (?<', 'r"^(?:Ubuntu |Debian )?clang version (?<'))
mut("version-minor", "C17", (CL, "\\.(?<minor_version>\\d+)\"", "\\.(?<minor_version>\\d+)\\.\\d+(?:[^.]*)$\""))
mut("clang-status", "C17", (CL, "if !clang_version_output.status.success() {", "if clang_version_output.status.code().is_some_and(|code| code != 0) {"))
mut("clang-any", "C17", (CL, "    Err(ClangError::UnexpectedVersion(version_line.into()))", "    Ok(CLANG_PROGRAM)"))
mut("probe-notfound", "C17", (CL, "Err(e) if e.kind() == io::ErrorKind::NotFound => return", "Err(_) => return"))
mut("no-profile-error", "C17", (BI, "            error(cursive, message);\n            return;\n        }\n    };\n\n    // Display", "            log::error!(\"{message}\");\n            return;\n        }\n    };\n\n    // Display"))
mut("probe-pipe", "C17", (CL, "Command::new(CLANG_PROGRAM).arg(\"--version\").output() {", "Command::new(CLANG_PROGRAM).arg(\"--version\").stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().and_then(|mut child| { child.wait()?; child.wait_with_output() }) {"))
mut("progress-max", "C10", (BM, ".max(compilation_database.entries().count())", ".max(compilation_database.entries().count() + 1)"))
mut("progress-twice", "C10", (BM, "move || progress_counter.tick(1)", "{ let mut n = 0; move || { progress_counter.tick(1 + n % 2); n += 1; } }"))
mut("publish-remove-first", "C14", (BM, "        std::fs::rename(&self.temporary_path, self.output_path)", "        std::fs::remove_file(self.output_path).ok();\n        std::fs::rename(&self.temporary_path, self.output_path)"))
mut("tmp-extension", "C10", (BM, "        temporary_path.push(\".tmp\");\n        let temporary_path = PathBuf::from(temporary_path).into_boxed_path();", "        temporary_path.push(\".tmp\");\n        let temporary_path = PathBuf::from(temporary_path).with_extension(\"\").with_extension(\"tmp\").into_boxed_path();"))

def run(name, seconds):
    props, edits = M[name]
    try:
        for f, old, new in edits:
            p = f"{REPO}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "DOES NOT APPLY", s.count(old), f); return
            open(p, "w").write(s.replace(old, new))
        out = []
        for p in props:
            t = time.time()
            r = subprocess.run(["bash", f"{V}/tools/check.sh", p, "--survey", "--seconds", str(seconds)] + (["--threads", os.environ["THREADS"]] if "THREADS" in os.environ else []), cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            n = re.search(r"^cases (\d+)", r.stdout, re.M)
            hits = re.findall(r"^(C\d\d\.\S+): (\d+) e\.g\. seed (\S+)", r.stdout, re.M)
            out.append(f"{p} {n.group(1) if n else '?'} cases: " + (" ".join(f"{a}={b}({c})" for a, b, c in hits) or "MISSED"))
            if not n:
                out.append((r.stdout + r.stderr)[-600:])
            if hits:
                break
        print(name, "|", "; ".join(out), flush=True)
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])

if __name__ == "__main__":
    a = sys.argv[1:]
    for n in (a or M):
        if n in M:
            run(n, int(os.environ.get("SECS", "30")))
        else:
            for k in M:
                if n in M[k][0]:
                    run(k, int(os.environ.get("SECS", "30")))
