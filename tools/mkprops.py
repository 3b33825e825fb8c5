#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
CM='cmakeperf/src/measure/main.rs';CW='cmakeperf/src/measure/worker.rs';CMM='cmakeperf/src/measure/mod.rs'
p('C01','A successful build measurement records every job exactly once',
 "When a full-build measurement reports success, the profile file holds exactly one complete record per compilation database entry, naming that entry's source file relative to the build directory, and nothing else, and exactly one progress notification has been sent per record. Completion is reported exactly once, after all progress notifications and after the profile file is completely written. This holds however jobs finish together, are preempted for lack of memory, or are rescheduled on another worker.",
 ['schedules','fault_sequences','inputs'],'every interleaving of the supervisor, the workers and the job processes, every job count and concurrency, every preemption pattern, every legal short or interrupted write',
 'The tests run a few real mock builds; they reach one interleaving each, with no control over who steals which job or when a preempted job comes back.',
 [CM,CW,CMM,'cmakeperf/src/output.rs'],[('work stealing queue + futex wake-up',CMM),('result channel and remaining-job counter',CM),('worker loop / job requeue',CW)],
 ['profile CSV file','progress callback','completion callback'],[('remaining_jobs','jobs not recorded yet',CM),('queue futex','work notification counter',CMM)])
p('C02','A build measurement succeeds if and only if every job and the profile did',
 'A full-build measurement reports success exactly when every job process was started and exited with status zero and the profile was written without error: a job that cannot be started, exits with a nonzero status or is killed by a signal, and any error creating or writing the profile, make it report a failure. What a job prints on its output streams, in whatever amount and encoding, never changes the outcome. Once a failure is known no further job is started, the running ones are terminated and the failure is reported promptly.',
 ['fault_sequences','schedules','inputs'],'every position of a failing job among concurrent ones, every failure kind (spawn error, exit code, signal, disk error at any write), every output volume and byte content',
 'Tests cover one failing job at a time with tiny outputs and a healthy disk.',
 [CM,CW],[('result propagation',CM),('exit status and pipe handling',CW)],['completion callback','spawn/exit of job processes'])
p('C03','Jobs run as the compilation database says, within the concurrency limit',
 'Every job process is started with exactly the program, arguments and working directory of its compilation database entry (shell-style quoting removed), and only once unless an earlier run of it was asked to terminate for lack of memory. At no time do more job processes run than the requested concurrency, which by default is one when timing jobs and one per available CPU otherwise. As long as no job was preempted and jobs remain unstarted, a slot that becomes free is used again within a bounded reaction time.',
 ['schedules','inputs','configurations'],'every interleaving and duration mix, every entry text, concurrency and CPU count',
 'Tests check total time of identical mock jobs in one schedule only.',
 [CM,CW,'cmakeperf/src/commands.rs'],[('one child per worker thread',CW),('concurrency selection',CM),('Shlex splitting',"cmakeperf/src/commands.rs")],['argv/cwd/time of each spawned process'])
p('C04','Killing a build measurement stops it promptly and leaves no job behind',
 'Dropping the handle of a running measurement returns within a bounded time of the slowest monitoring delay, whatever state the measurement is in. After that no new job process starts, and every job process started by it, with its descendants (except those whose parent is gone or that are born while termination is under way), has either ended or been asked to terminate. Completion is reported exactly once before the drop returns: as killed, unless the measurement had already completed or failed.',
 ['schedules','histories','crash_points'],'every instant of the drop relative to job starts, job ends, memory preemptions and failures, and every worker progress',
 'The existing kill test drops the handle at a few wall-clock instants of one schedule.',
 [CMM,CM,CW],[('kill flag polled by the supervisor',CM),('stop flags polled by workers',CW),('process tree termination',CW)],['signals sent to job processes','time at which drop returns','completion callback'])
p('C05','Memory pressure preempts the youngest jobs only, and only when needed',
 'No job is preempted while available system memory stays above the safety margin of 100 MB per active worker plus one for the rest of the system (one per CPU when there are more CPUs), a figure that grows when memory is seen to shrink faster than that between two samples. When available memory falls below it, the most recently started jobs are preempted first and one at least is promptly terminated; a preempted job is run again by another worker so that the measurement can still complete. Workers stopped this way reduce the concurrency but do not end the measurement: an out-of-memory failure is reported only after the last active worker had to be stopped.',
 ['schedules','fault_sequences','inputs'],'every memory history of jobs and of the rest of the system, sampled at any phase of the polling, with any worker progress',
 'Tests need real gigabytes of memory, so they exercise one or two coarse scenarios.',
 [CM,CW],[('OOM margin and victim choice',CM),('job requeue',CM)],['signals sent to job processes','restarts of preempted jobs','completion callback'])
p('C06','Recorded peak memory and wall time are those of the job that was run',
 'The peak memory recorded for a job never exceeds what its processes (the command and all its descendants, each counted once) really used together during the recorded run, and is at least any level they sustained for longer than two monitoring periods (processes whose parent is gone may be missed). Wall time is recorded exactly when requested and lies between the real run time of the job and that plus a bounded reaction delay. Both are unaffected by other jobs, earlier preempted runs of the same job, threads inside a process, reused process identifiers, vanishing processes and system clock changes.',
 ['schedules','inputs','fault_sequences'],'every memory curve and process tree shape, every sampling phase and delay, every system clock jump, every process identifier reuse',
 'Tests use one mock process per job with a constant allocation and wide tolerances.',
 [CW,CMM],[('process tree walk over /proc snapshots',CW),('polling clock',CMM),('monotonic wall clock',CW)],['profile CSV file','synthetic /proc and process table'])
p('C07','A build measurement always finishes',
 'A measurement that is not disturbed completes within a bounded time after its last job ends and has closed its output, and the monitoring keeps running while it waits. No lost wake-up, deadlock, missed child exit or busy loop can keep it from reporting its completion. This holds for any amount of job output and when the system stalls it, interrupts its system calls or delays signals.',
 ['schedules','fault_sequences'],'every interleaving of supervisor, workers, signal delivery and child exits; every pattern of interrupted calls, spurious wake-ups and stalls',
 'A hang needs a particular interleaving or an output larger than a pipe; the tests sample neither.',
 [CM,CW,CMM],[('futex wait/wake protocol',CMM),('recv_timeout loop',CM),('child wait with timeout',CW)],['completion callback','scheduler state (deadlock, step and time bounds)'])
p('C08','Freshness decisions never trust an outdated profile, whatever the clocks say',
 'A build profile or trace is said to be nonexistent exactly when its file does not exist, outdated exactly when it is older than the compilation database or than any of its inputs, and otherwise possibly up to date with its true age, or with an unknown age when its timestamp lies in the future. Any other failure to examine a file is reported as an error and never turned into a verdict. The prompt shown to the user before measuring follows from this verdict: create when nonexistent, warn when outdated, ask (stating the true age) when older than a minute or of unknown age unless the file was chosen explicitly.',
 ['inputs','fault_sequences','histories'],'every combination of timestamps, missing files, failing stat calls, clock jumps and file changes between calls',
 'Tests touch two or three files in sequence on a healthy file system with a monotone clock.',
 ['cmakeperf/src/commands.rs','src/ui/tui/create.rs','src/ui/tui/build/mod.rs','src/ui/tui/trace/measure.rs'],[('mtime comparison','cmakeperf/src/commands.rs'),('prompt selection','src/ui/tui/create.rs')],['freshness query result','prompt text and buttons on screen'])
p('C09','Loading a database, profile or trace gives the true data or an error',
 'Whatever short reads, interruptions or I/O errors occur while a compilation database, a build profile or a compilation trace is read, and wherever the file is cut, the load either yields exactly what the file contains or fails with an error; it never yields partial or altered data, crashes or hangs. A file that is not well formed (cut short, a record with a missing or invalid field, timed activities that overlap without nesting) is refused, a missing database or profile is reported as missing, and a valid file that can be read without error is always loaded. For a trace the content means: every timed activity exactly once with its duration, nested under the shortest activity that encloses it, with the duration left after removing its direct children, plus the global statistics and process metadata.',
 ['fault_sequences','inputs','crash_points'],'every content of the generated families, every truncation point, every pattern of short reads, interrupted calls and read errors',
 'Tests parse in-memory strings or one sample file from a disk that never misbehaves.',
 ['cmakeperf/src/commands.rs','cmakeperf/src/output.rs','clang-time-trace/src/lib.rs','clang-time-trace/src/tree.rs','clang-time-trace/src/stats/mod.rs','clang-time-trace/src/metadata.rs'],[('database loader','cmakeperf/src/commands.rs'),('CSV loader','cmakeperf/src/output.rs'),('trace loader','clang-time-trace/src/lib.rs')],['returned data or error'])
p('C10','Failed or aborted build measurements leave the previous profile untouched',
 'When the user measures a build profile from the application and the measurement fails or is aborted, then once the application has reported it or exited, the profile file is byte for byte what it was before, or still absent if there was none, even if an unrelated or older backup file lies next to it, and no backup, temporary file or job of this measurement is left behind; the user is told about a failure and nothing else is touched, such as the profile at the default location when another one was asked for. When the measurement succeeds, the profile file is the complete new profile and its units and memory are the ones displayed. The progress displayed meanwhile is that of the jobs that have ended. A profile is never deleted, mixed or replaced by a partial one.',
 ['schedules','fault_sequences','histories'],'every instant of the abort relative to job ends and file creation, every job or disk failure, every prior state of profile and backup',
 'The text interface has no test for measurements at all; the race between abort and completion needs schedule control.',
 ['src/ui/tui/build/measure.rs','src/ui/tui/build/mod.rs','cmakeperf/src/measure/mod.rs'],[('backup rename / restore on drop','src/ui/tui/build/measure.rs')],['file system content','screen'])
p('C11','Failed or aborted trace measurements leave the previous trace untouched',
 "When the user measures the trace of a compilation unit, the compiler is run in the unit's directory with the unit's own arguments plus the time-trace options. If it fails or the user aborts or quits, then as soon as the measurement screen is gone the trace file is byte for byte as it was before, or absent if there was none, the compiler and whatever it had started (a driver such as ccache runs the real compiler as a child) have been killed, except for what was born while they were being killed, and the user is told about failures; if it succeeds, the new trace is loaded and displayed and no backup of this measurement is left. A compiler that prints any amount of output, that is slow to die, or that fails leaving behind a process that holds its outputs open, changes nothing to this: the user can always give up.",
 ['schedules','fault_sequences','histories'],'every instant of the abort relative to compiler progress and exit, every exit status, output volume and prior state of trace and backup',
 'No test drives this code; it needs a controllable compiler and schedule.',
 ['src/ui/tui/trace/measure.rs'],[('TraceBackup rename/restore/cleanup','src/ui/tui/trace/measure.rs'),('cancelable child wait','src/ui/tui/trace/measure.rs')],['file system content','signals and argv of the compiler process','screen'])
p('C12','The trace on screen is always the last one the user asked for',
 'Aborting the loading of a trace prevents its content from ever being displayed, and loading another trace afterwards displays exactly that one. After any sequence of loads, aborts, zooms, sorts, unit switches and returns, every table, description and percentage on screen belongs to the trace currently being explored and equals what a fresh load of that trace would show.',
 ['schedules','histories'],'every interleaving of the interface thread and the processing threads, every sequence of user actions and trace sizes',
 'Cancellation races and stale caches need two loads overlapping in a particular order; no test loads two traces.',
 ['src/ui/tui/trace/load.rs','src/ui/tui/processing.rs','src/ui/tui/trace/display.rs'],[('cancel flag per load','src/ui/tui/trace/load.rs'),('request/reply channels and description caches','src/ui/tui/processing.rs')],['screen content'])
p('C13','The text interface never crashes or freezes and always lets the user out',
 'Whatever keys are pressed and wherever the mouse is clicked, at whatever moment, whatever screen is shown (80 by 24 characters or more) and whatever files or compilers fail underneath, the text interface does not crash, keeps reacting to input within a bounded time, and quits with success promptly after the user confirms quitting, even while a build, a compiler or the loading of a large trace is under way; aborting the loading of the only trace asked for on the command line ends it too. On leaving it restores the terminal mode, the cursor and the main screen, and leaves no compiler or job running. Errors are shown to the user as messages.',
 ['schedules','histories','fault_sequences'],'every key sequence and timing, every state of background work, every failing file, compiler or missing log daemon',
 'The interface has no interactive tests; crashes depend on what is in flight when a key arrives.',
 ['src/ui/tui/mod.rs','src/ui/tui/init.rs','src/ui/tui/trace/display.rs','src/ui/tui/trace/load.rs','src/ui/tui/build/measure.rs','src/ui/tui/trace/measure.rs'],[('global callbacks and layer bookkeeping','src/ui/tui/init.rs'),('panic handling','src/ui/tui/mod.rs')],['screen','terminal mode','exit status','process table'])
p('C14','A crash at any point never destroys a previous profile or trace',
 'If the application is killed at any instant of any measurement, the profile or trace that existed when it was started still exists complete, under its own name or its backup name, unless the new one was already complete. Whatever bears the name of the build profile is a complete profile at any instant. Starting the application again and measuring or reusing never makes a partial build profile pass for a complete one, nor deletes the last complete copy of what had its regular name at that start.',
 ['crash_points','histories'],'a kill at every system call of a session, followed by further sessions',
 'No test kills the application.',
 ['src/ui/tui/build/measure.rs','src/ui/tui/trace/measure.rs','cmakeperf/src/measure/main.rs'],[('rename to backup before writing','src/ui/tui/build/measure.rs'),('rename to backup before compiling','src/ui/tui/trace/measure.rs')],['file system content after the crash'])
p('C15','Report and simplifier output is complete and independent of I/O chunking',
 'The non-interactive report of a trace and the output of the C++ name simplifier depend only on the trace, the name and the options: they are identical, byte for byte, however input and output are split, interrupted or delayed and from one run to the next. A failure to read the input or to write the output is never passed off as a successful complete run.',
 ['fault_sequences','inputs','schedules'],'every pattern of short or interrupted reads and writes, every read or write error, every hash seed',
 'Unit tests format into memory; nothing runs the programs with real streams.',
 ['src/ui/stdio.rs','src/main.rs','simpp/src/main.rs','src/trace.rs','src/ui/display/mod.rs'],[('println! to standard output','src/ui/stdio.rs'),('read_to_string from standard input','simpp/src/main.rs')],['standard output','standard error','exit status'])
p('C16','Any navigation shows exactly what the profile and the trace say',
 'After any sequence of keys, the table on screen holds exactly the units of the build profile, or exactly the activities called by the one zoomed on (all its direct and indirect callees in a flat profile), in the order of the sorting column and direction chosen last, with the true memory, durations, percentages of the right total and descriptions, in the unit chosen last. The activity described below is the selected one, selection follows its activity through sorting, zooming opens the selected activity, returning or jumping in the backtrace restores the screens passed with the choices of sorting and unit made since, and the backtrace lists them. This does not depend on the timing of keys nor on how long the background threads take to answer.',
 ['histories','schedules','inputs'],'every sequence of navigation keys, every trace and profile of the generated families, every timing of keys and interleaving of the interface and processing threads',
 'The interface has no tests; the state (sort order, sort key, unit, table, stack of screens) is spread over several views that must agree after every sequence of keys.',
 ['src/ui/tui/trace/display.rs','src/ui/tui/build/display.rs','src/ui/tui/processing.rs','src/ui/tui/init.rs'],[('table construction, sorting, zoom and unit switch','src/ui/tui/trace/display.rs'),('build profile table','src/ui/tui/build/display.rs'),('activity queries and normalization','src/ui/tui/processing.rs')],['screen content'],[('sort_config','sorting column and order shared by all tables','src/ui/tui/trace/display.rs'),('profile_stack','screens between the root and the current one','src/ui/tui/mod.rs')])
p('C17','A start that cannot work says why and changes nothing',
 'When the application is started to profile a build, it goes on (to the prompt or to the table) exactly when the compilation database can be read and is well formed, the clang++ in the path runs, succeeds and announces version 9 or later, whatever else it prints and however slowly, and the profile to be displayed can be read and is well formed. Otherwise the user is told which of these is wrong, and the application ends with success once the message is acknowledged. In either case nothing but this compiler probe is run and no file is changed before the user asks for it. Displaying a given trace needs neither database nor compiler; a trace that is missing, cannot be read or is not well formed is refused with a message.',
 ['fault_sequences','inputs','schedules'],'every failure to read or parse the database, the profile or the trace, every way for the compiler probe to fail or to answer, every delay',
 'Unit tests run with whatever compiler is installed, or none, and never fail it.',
 ['src/clang.rs','src/ui/tui/build/mod.rs','src/ui/tui/trace/load.rs','cmakeperf/src/commands.rs','cmakeperf/src/output.rs'],[('find_clangpp','src/clang.rs'),('profile','src/ui/tui/build/mod.rs')],['dialogs','process starts','files','exit status'])
p('C20','Activity tree construction nests every activity correctly',
 'For every trace, each activity is a child of the shortest activity enclosing it, self time is duration minus direct children, and overlapping activities are rejected.',
 ['inputs'],'all event lists','Unit tests and proptest sample shapes.',['clang-time-trace/src/tree.rs'],[('tree builder','clang-time-trace/src/tree.rs')],['tree API'])
p('C21','Parsing a C++ entity and displaying it without limit preserves its meaning',
 'Any C++ name accepted by the parser is displayed, with an unlimited budget, as an equivalent name.',
 ['inputs'],'all C++ names','Property tests sample a grammar.',['cpparser/src'],[('nom grammar','cpparser/src')],['parser/display API'])
p('C22','Interned items are equal exactly when their keys are',
 'Two values interned in the same interner get equal keys if and only if they are equal, and a key always resolves to its value.',
 ['inputs','histories'],'all insertion histories','Unit tests sample short histories.',['asylum/src'],[('hash interner','asylum/src')],['interner API'])
p('C23','Bounded displays never exceed their column budget',
 'Paths, descriptions and entity names displayed within a column budget never take more columns than that budget.',
 ['inputs'],'all names and budgets','Tests sample names.',['src/ui/display/path.rs','cpparser/src/display.rs'],[('truncation','src/ui/display/path.rs')],['display API'])
p('C24','Durations are displayed with a unit and precision that preserve their order',
 'Displayed durations and percentages are correctly rounded and never misreport magnitude.',
 ['inputs'],'all durations','Tests sample values.',['src/ui/display/duration.rs'],[('formatting','src/ui/display/duration.rs')],['display API'])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
