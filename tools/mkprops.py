#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

PKG = "profiling/"
p("C01", "Tracing counts every call on its exact call path",
  "For any program run under the tracing profiler, the resulting tree has, for each distinct chain of calls below the base, one node whose call count equals the number of times a function was entered through exactly that chain while profiling was on. This holds whatever the program does: recursion, exceptions, generators, the same function reached by several chains, and profiling started or stopped in the middle of a call. A call made again to a function that was already on the stack when profiling started is counted like any other.",
  ["programs", "histories"], "all programs (call trees over functions, generators, exceptions) and all points at which profiling is started or stopped",
  "test_tracing profiles two flat calls; no test has recursion, exceptions, generators, several chains to one function, or a start in the middle of a call.",
  [PKG+"tracing/__init__.py", PKG+"stats.py", PKG+"utils.py"],
  [("profile callback walks the frame stack and ensures the chain of nodes", PKG+"tracing/__init__.py:_profile"), ("entering increments the call count", PKG+"tracing/__init__.py:record_entering"), ("node lookup by code object", PKG+"stats.py:ensure_child")],
  [("stats", "root of the recorded tree", PKG+"profiler.py:Profiler.stats")],
  ["profiler.stats / profiler.result()[0] after stop"])
p("C02", "Tracing times are exact, nested and free of profiler overhead",
  "For any program and any timer, the inclusive time of a function on a call path is the sum, over the calls that were entered and left while profiling was on, of the timer time that passed between entering and leaving, not counting time the profiler itself spent recording. Exclusive time is inclusive time minus the inclusive time of the direct sub calls (never negative), per-call times are those divided by the call count (zero when there were no calls), and a call left by an exception is timed like any other.",
  ["programs", "inputs"], "all programs and all timer readings, including any amount of time spent in the profiler itself",
  "Tests use the real CPU clock, so they can only say that a time is positive or larger than another; the exact accounting and the removal of overhead are never checked.",
  [PKG+"tracing/__init__.py", PKG+"stats.py"],
  [("enter/leave timestamps corrected by the accumulated overhead", PKG+"tracing/__init__.py:_profile"), ("elapsed time added on leaving", PKG+"tracing/__init__.py:record_leaving"), ("exclusive time", PKG+"stats.py:Statistics.own_time")],
  [("overhead", "timer time spent in the profile callback", PKG+"tracing/__init__.py"), ("entered times", "timestamp per live frame", PKG+"tracing/__init__.py")],
  ["deep_time, own_time, *_per_call of each node with a virtual timer"])
p("C03", "Callers that were already running keep their place in the tree",
  "A function that was already running when profiling started appears in the tree above the calls it makes, so every recorded node sits under its full chain of callers below the base. Such a placeholder has no calls of its own and its inclusive time is the sum of the inclusive times of the nearest recorded functions beneath it, so it takes no time for itself. A placeholder that is called again later keeps the time it derived until then and counts its calls like any other; placeholders appear only for frames that really were on the stack.",
  ["programs", "histories"], "all call stacks at the moment of starting or sampling, for both profilers",
  "test_profile checks one three-deep chain with hit counts only; the derived time of nested placeholders and mixed placeholder/recorded chains are untested.",
  [PKG+"stats.py", PKG+"tracing/__init__.py", PKG+"sampling/__init__.py"],
  [("placeholder statistics derive their time from descendants", PKG+"stats.py:VoidRecordingStatistics"), ("ancestors ensured as placeholders", PKG+"tracing/__init__.py:_profile, "+PKG+"sampling/__init__.py:sample")],
  (), ["own_hits and deep_time of the ancestors in profiler.stats"])
p("C04", "Sampling counts every sample once, at the sampled stack",
  "After any sequence of samples, each node's own hit count equals the number of samples taken while exactly that chain of frames (below the base) was on the stack with that function on top, whatever the order in which callers and callees were sampled; the total over the tree is the number of samples taken. Inclusive hits of a node are its own plus all its descendants'. This holds for samples taken by any sampler and in any thread.",
  ["programs", "schedules", "histories"], "all sequences of sampled stacks",
  "test_sampling compares two spin loops within 20% and samples one frame; a caller sampled after its callee is never checked.",
  [PKG+"sampling/__init__.py", PKG+"sampling/samplers.py", PKG+"stats.py"],
  [("sample adds one hit to the node of the frame", PKG+"sampling/__init__.py:sample"), ("node lookup or creation", PKG+"stats.py:ensure_child")],
  (), ["profiler.stats of a SamplingProfiler"])
p("C05", "Frame stacks honour the base and the ignored frames and codes",
  "The frame stack of a frame lists, outermost first, the frame and its callers up to but excluding the first one that is the base frame or runs the base code, leaving out exactly the ignored frames and frames running ignored codes (codes that compare equal count as one). The pure Python and the C implementation give the same answer for every frame, base and ignore set. A profiler given ignored frames or codes never shows a node for them, and attributes their callees to the nearest caller that is not ignored.",
  ["inputs", "programs"], "all stacks, bases (in or not in the stack, recursive codes) and sets of ignored frames and codes, both implementations",
  "test_frame_stack tries one base frame and one pair of ignored codes on a single stack, in the Python version only; speedup.c is never run by any test.",
  [PKG+"utils.py", PKG+"speedup.c", PKG+"profiler.py", PKG+"tracing/__init__.py", PKG+"sampling/__init__.py"],
  [("Python walk over f_back", PKG+"utils.py:frame_stack"), ("C walk over f_back", PKG+"speedup.c:frame_stack"), ("profilers drop the current frame from the walk", PKG+"tracing/__init__.py:_profile")],
  (), ["profiling.utils.frame_stack, profiling.speedup.frame_stack, profiler.frame_stack, profiler.stats"])
p("C06", "Derived quantities of statistics follow from the tree",
  "For every statistics tree: inclusive hits equal own hits plus those of all descendants; exclusive time equals inclusive time minus the children's inclusive time, floored at zero; per-call values are the time divided by own hits, or zero without hits; the inclusive time of a placeholder for an absent frame is the sum of its children's; the regular name joins module and name or is whichever exists. Walking the descendants visits each exactly once, breadth first, and a gated walk goes below exactly the nodes it was told to enter.",
  ["inputs"], "all trees of statistics with arbitrary members",
  "test_stats checks one leaf and one five-node tree.",
  [PKG+"stats.py"], [("derived properties", PKG+"stats.py:Statistics"), ("breadth-first walk", PKG+"stats.py:spread_stats")],
  (), ["Statistics properties, repr, spread_stats"])
p("C07", "Recording statistics behave as an ordered map of codes",
  "Under any sequence of adding, ensuring, fetching, removing, discarding and excluding children and clearing, a recording statistics behaves as an insertion-ordered map from code to child: ensuring returns the existing child and never loses its hits, time or children; fetching or removing an absent code is an error, discarding or excluding one is not; length, membership, iteration and the children list agree. Clearing empties it and resets its own hits and time to zero, and a new statistics starts with zeros and names taken from its code.",
  ["histories"], "all operation sequences over any set of codes",
  "test_recording performs five operations on one key.",
  [PKG+"stats.py", PKG+"profiler.py"], [("child map", PKG+"stats.py:RecordingStatistics"), ("defaults from slots", PKG+"stats.py:StatisticsMeta"), ("exclude_code", PKG+"profiler.py:exclude_code")],
  (), ["RecordingStatistics public methods"])
p("C08", "Freezing and unpickling preserves the whole statistics tree",
  "Pickling any statistics tree with any supported pickle protocol and loading it gives a frozen tree of the same shape and child order in which every node has the same name, file, line, module, own hits and inclusive time, and therefore the same derived values. It works for trees of any depth and width, loading needs neither the code objects nor the profiled modules, and pickling the result again gives an equal tree.",
  ["inputs"], "all recorded, placeholder and frozen trees, any depth (beyond the recursion limit), every protocol",
  "test_pickle uses a single node without children; the deep-recursion test is skipped here and test_frozen does not run.",
  [PKG+"stats.py"], [("flat member tree", PKG+"stats.py:make_frozen_stats_tree"), ("restoring by parent offset", PKG+"stats.py:frozen_stats_from_tree"), ("__reduce__", PKG+"stats.py:Statistics")],
  (), ["pickle.loads(pickle.dumps(stats, protocol))"])
p("C09", "A dumped result is the result that is viewed",
  "Dumping a profiler to a file with any pickle protocol and opening the file with the view command shows the same profiler's columns and the same statistics, CPU and wall times as viewing the profiler directly. The file holds the profiler class and its result, and dumping does not disturb the profiler. A profiler wrapper (such as the background profiler) is dumped and viewed as the profiler it wraps.",
  ["inputs", "histories"], "all results of both profilers, all protocols",
  "test_dump dumps an empty result of a null profiler; the view command is never executed.",
  [PKG+"profiler.py", PKG+"__main__.py", PKG+"stats.py", PKG+"viewer.py"], [("dump", PKG+"profiler.py:dump"), ("view", PKG+"__main__.py:view"), ("make_viewer", PKG+"profiler.py:make_viewer")],
  (), ["dump file content; rendered canvas of the viewer"])
p("C10", "The flat layout sums every function over the whole tree",
  "Flattening any statistics tree gives one child per distinct function (name, file, line, module) of the tree below the root, in order of first breadth-first appearance, whose own hits, inclusive hits, exclusive time and inclusive time are the sums over all nodes of that function. No node is lost or counted twice, the root's own figures are kept, and the original tree is unchanged.",
  ["inputs"], "all trees, including recursion and functions that share some but not all of name, file, line and module",
  "test_flatten checks own hits of one tree with names only.",
  [PKG+"stats.py"], [("flatten", PKG+"stats.py:FlatFrozenStatistics.flatten")], (), ["FlatFrozenStatistics.flatten(stats)"])
p("C11", "Every sort order lists children completely and in its order",
  "For every statistics and every sort order offered by the tables, sorting its children succeeds and returns each child exactly once, ordered as documented: names, modules and functions ascending, hits and times descending, with children whose name or module is unknown handled rather than failing. An inverted order lists children in the reverse order of keys.",
  ["inputs"], "all sets of children, including missing names and modules and equal keys, all sort keys",
  "test_sorting does not run here and uses three children with names and distinct values.",
  [PKG+"sortkeys.py", PKG+"stats.py"], [("sort keys", PKG+"sortkeys.py"), ("sorted", PKG+"stats.py:Statistics.sorted")], (), ["stats.sorted(key), columns of the tables"])
p("C12", "Profilers, timers and samplers start and stop strictly in turn",
  "Anything that can be run is running exactly between a successful start and the next stop: starting twice or stopping when not running is refused with RuntimeError and changes nothing, including what has been recorded. A start that fails, for whatever reason, leaves it not running and startable again; an implementation that does not yield exactly once without a value is reported with TypeError. Used as a context manager it is started on entry and stopped on exit also when the block raises, and a profiler wrapper reports the state of the profiler it wraps.",
  ["histories", "fault_sequences"], "all sequences of start, stop, with-blocks and failures, for any run() implementation",
  "test_runnable walks one straight line per implementation; state after a failed start or a refused start is never checked.",
  [PKG+"utils.py", PKG+"profiler.py"], [("Runnable generator protocol", PKG+"utils.py:Runnable"), ("Profiler.start", PKG+"profiler.py"), ("ProfilerWrapper", PKG+"profiler.py")],
  [("_running", "generator of the current run", PKG+"utils.py")], ["is_running(), exceptions, stats after refused start"])
p("C13", "Profiling leaves the process hooks as it found them",
  "After any sequence of starting and stopping profilers with any sampler or timer, including starts that fail part way, the interpreter's profile hooks, the SIGPROF handler, the profiling interval timer and the greenlet trace hook are what they were before, except that a default SIGPROF action is replaced by ignoring the signal and that the hook for new threads is cleared. While running, the hooks that the profiler needs are installed. The tracing profiler refuses to start when another profile hook is set, and leaves that hook in place.",
  ["histories", "fault_sequences", "configurations"], "all start/stop sequences, all pre-existing hook states, all failures while starting",
  "test_setprofile and test_itimer_sampler check one start/stop; no failing start, prior timers or threading hook.",
  [PKG+"tracing/__init__.py", PKG+"sampling/samplers.py", PKG+"tracing/timers.py", PKG+"utils.py"],
  [("deferral of restoring calls", PKG+"utils.py:deferral"), ("TracingProfiler.run", PKG+"tracing/__init__.py"), ("ItimerSampler.run, TracingSampler.run", PKG+"sampling/samplers.py"), ("GreenletTimer.run", PKG+"tracing/timers.py")],
  (), ["sys.getprofile, threading hook, signal.getsignal(SIGPROF), signal.getitimer, greenlet.gettrace"])
p("C14", "Nothing is recorded while the profiler is not running",
  "Whatever the program does after stop has returned leaves the recorded statistics as they were at that moment, including calls of threads that were started during profiling and are still running. Starting again records calls and samples of old and new threads once more.",
  ["schedules", "histories"], "all programs with threads outliving the profiling session, both profilers and hook-based samplers",
  "No test looks at the statistics after stopping while another thread still runs.",
  [PKG+"tracing/__init__.py", PKG+"sampling/samplers.py", PKG+"profiler.py"], [("profile hook removal", PKG+"tracing/__init__.py:run"), ("TracingSampler.run", PKG+"sampling/samplers.py")],
  (), ["profiler.stats after stop"])
p("C15", "Each session reports only itself, with its own CPU and wall time",
  "The result after any start/stop history covers only the latest session: statistics recorded in earlier sessions are gone. The reported wall time is the time from the latest start until stop, or until now while still running, and the CPU time likewise (for the tracing profiler less its own overhead); both are zero before the first start and never negative, and asking for the result any number of times changes nothing.",
  ["histories", "inputs"], "all histories of start, stop, result and elapsed CPU and wall time",
  "test_result checks one session with a real clock and lower bounds only.",
  [PKG+"profiler.py", PKG+"tracing/__init__.py"], [("start clears and timestamps", PKG+"profiler.py:start"), ("result", PKG+"profiler.py:result, "+PKG+"tracing/__init__.py:result")],
  (), ["profiler.result()"])
p("C16", "Contextual timers charge each greenlet only its own time",
  "For any interleaving of greenlets (or any pausing and resuming of contexts), the time a contextual timer measures in a context between two of its own readings, from its first resume or pause on, is exactly the clock time that passed while that context was running. Time spent in other contexts never counts, readings within a context never go backwards, a paused context's reading stands still, and a traced function in a greenlet is charged only for its own greenlet's time.",
  ["schedules", "inputs"], "all switch schedules and clock readings",
  "test_greenlet_timer_with_gevent compares two totals in one schedule on a real clock.",
  [PKG+"tracing/timers.py"], [("pause/resume bookkeeping", PKG+"tracing/timers.py:ContextualTimer"), ("greenlet switch trace", PKG+"tracing/timers.py:GreenletTimer")],
  [("contextual times", "paused total and resume time per context", PKG+"tracing/timers.py")], ["timer(), deep_time under GreenletTimer"])
p("C17", "The tracing sampler samples each thread at its interval",
  "Under the hook-based sampler no thread is sampled twice within one sampling interval of that thread's own CPU time, however long it runs and however many samples have been taken. A thread that makes or leaves calls is sampled at the first such event once a full interval of its own CPU time has passed since its last sample, and a new thread's sampling does not depend on threads that have ended before.",
  ["schedules", "histories", "inputs"], "all sequences of events and per-thread CPU clocks, any number of threads created over time",
  "The two tests of this sampler are skipped without yappi, and take three samples from one thread.",
  [PKG+"sampling/samplers.py"], [("per thread time of last sample", PKG+"sampling/samplers.py:TracingSampler"), ("cleaning of dead threads", PKG+"sampling/samplers.py:_clear_for_dead_threads")],
  [("sampled_times", "CPU time of the last sample per thread", PKG+"sampling/samplers.py")], ["calls of profiler.sample under a virtual thread clock"])
p("C18", "Messages survive the wire however the stream is cut up",
  "Any sequence of messages packed by the server side is received as the same sequence of methods and values, for every pickle protocol and however the bytes are split or delayed on the way, on blocking and non-blocking sockets alike. If the stream ends before a message is complete, receiving reports a closed connection as a socket error and never returns a message that was not sent.",
  ["inputs", "schedules", "fault_sequences"], "all message sequences, all segmentations, all truncation points",
  "There is no test of profiling.remote.",
  [PKG+"remote/__init__.py"], [("length-prefixed frames", PKG+"remote/__init__.py:pack_msg"), ("exact receive", PKG+"remote/__init__.py:recv, recv_msg")],
  (), ["pack_msg/recv_msg over a socket pair"])
p("C19", "Every connected client receives every result, whole and in order",
  "For any history of clients connecting, leaving and failing, each client receives the welcome, then the class of the innermost wrapped profiler, then the latest result if there already is one, then every result produced while it is connected, each exactly once and in order. The bytes a client receives are always whole messages followed by at most one final message cut short by the closing of that connection; a client that reads slowly may be disconnected but is never sent a corrupted stream.",
  ["histories", "schedules", "fault_sequences"], "all client histories and result sizes, for the base server with any transport and the select, gevent and asyncio servers",
  "There is no test of profiling.remote.",
  [PKG+"remote/__init__.py", PKG+"remote/select.py", PKG+"remote/gevent.py", PKG+"remote/asyncio.py"],
  [("greeting and latest result", PKG+"remote/__init__.py:connected"), ("broadcast", PKG+"remote/__init__.py:profiling"), ("transports", PKG+"remote/select.py, gevent.py, asyncio.py")],
  [("clients", "connected clients", PKG+"remote/__init__.py")], ["bytes received by clients"])
p("C20", "The server profiles exactly while clients are connected",
  "The server starts profiling when the first client connects, keeps producing one result per interval while any client is connected, and stops the profiler when the last one has left; a client that connects later, at whatever moment, starts it again, and there is never more than one profiling loop. A profiler which refuses to start does not end the server, which goes on and tries again at the next interval. A client that disappears, resets its connection or stops reading at any moment affects neither the other clients nor the server, which forgets and closes every client that has gone and keeps serving.",
  ["histories", "schedules", "fault_sequences"], "all histories and fault points, including a last client leaving in the same instant as a new one connects",
  "There is no test of profiling.remote.",
  [PKG+"remote/__init__.py", PKG+"remote/select.py", PKG+"remote/gevent.py", PKG+"remote/asyncio.py"],
  [("profiling loop", PKG+"remote/__init__.py:profiling"), ("connected/disconnected", PKG+"remote/__init__.py"), ("select loop", PKG+"remote/select.py:dispatch_sockets")],
  [("clients", "connected clients", PKG+"remote/__init__.py")], ["profiler state, server.clients, liveness of the server"])
p("C21", "A background thread starts and stops profiling of the main thread",
  "Starting a prepared background profiler from another thread makes the wrapped profiler run in the main thread before start returns, and stopping it stops the wrapped profiler before stop returns, any number of times, with the statistics and result being those of the wrapped profiler and covering the calls of the main thread made in between. It uses the chosen signal, and a refused or failing start or stop never leaves the background thread waiting: it fails there, and not in the program of the main thread.",
  ["schedules", "histories"], "all sequences of start and stop from a background thread against any program in the main thread, any signal number",
  "There is no test of BackgroundProfiler.",
  [PKG+"remote/background.py", PKG+"profiler.py"], [("signal round trip", PKG+"remote/background.py")], (), ["profiler.stats, is_running, elapsed start/stop"])
p("C22", "The viewer shows exactly what the statistics say",
  "For any result, layout, order and set of expanded rows, the rows on the screen are: the children of the root in the chosen order, each expanded row followed by its own children in that order one level deeper and each collapsed row by none, with the mark telling whether there is anything to expand. Every row shows the function, its location and the figures of that statistics formatted as the table's columns say, percentages being relative to the whole; the flat layout shows the flattened statistics; and the header shows CPU usage, CPU and wall time, title and time of the result.",
  ["inputs", "histories"], "all results, both tables, all orders, layouts and expansion states",
  "test_viewer covers number formatting only; no table is ever rendered.",
  [PKG+"viewer.py", PKG+"tracing/__init__.py", PKG+"sampling/__init__.py", PKG+"sortkeys.py"],
  [("tree nodes", PKG+"viewer.py:StatisticsNode"), ("cells", PKG+"tracing/__init__.py:make_cells, "+PKG+"sampling/__init__.py:make_cells"), ("header", PKG+"viewer.py:update_frame")],
  (), ["rendered canvas of the viewer widget"])
p("C23", "Navigating, pausing and refreshing the viewer is faithful",
  "Under any sequence of keys and results the viewer never fails. In the nested layout right expands the focused row and then moves to its first child, and left collapses it or moves to its parent (folding that when the row has no sub calls); > opens the hottest path, escape and home leave the selection, up, down and end move through the rows, brackets cycle through the sortable columns both ways, and backslash toggles the layout. The keys of vi and of games do the same as the arrows; a click focuses the row it hits and one at its mark toggles the row, and the mouse wheel moves like up and down. A new result keeps the focused function and the expanded functions; while paused the shown statistics do not change, and on resuming the latest result is shown.",
  ["histories"], "all sequences of key presses, results, pausing, resuming, activation",
  "No test presses a key or sets a second result.",
  [PKG+"viewer.py"], [("keypress", PKG+"viewer.py:StatisticsTable.keypress"), ("refresh by path of hashes", PKG+"viewer.py:refresh"), ("pause/resume", PKG+"viewer.py:StatisticsViewer")],
  [("expanded hashes", "functions shown expanded", PKG+"viewer.py"), ("paused result", "result shown while paused", PKG+"viewer.py")], ["rendered canvas and focus after each operation"])
p("C24", "Formatted numbers read back as the number they show",
  "For every value, the text of a percentage, count or time denotes the value within half a unit of its last digit (times of a minute or more: rounded to whole seconds, from ten minutes on the completed minutes of those), in a unit that suits its size: microseconds, milliseconds and seconds below 1000us, 1000ms and 60sec, minutes with seconds from 0 to 59 below ten minutes, and counts below 1000 of each unit with overflow marked. Larger values never show as smaller ones, and the colour attribute follows the documented thresholds.",
  ["inputs"], "all non-negative finite times and ratios, all integers",
  "test_viewer tries about thirty hand-picked values and none at a unit boundary.",
  [PKG+"viewer.py"], [("formatters", PKG+"viewer.py:Formatter")], (), ["fmt.format_*, fmt.markup_*, fmt.attr_*"])
p("C25", "Options come from the command line, then .profiling, setup.cfg, defaults",
  "For every combination of command line options and configuration files, each option takes its value from the command line if given, else from .profiling, else from setup.cfg, else the documented default, and the profiler is built of the chosen kind with the chosen timer or sampler and interval. Every accepted spelling of an option value (timer and sampler names, signal names and numbers, endpoints, dump files and sockets) denotes the corresponding object; a malformed spelling is rejected as a usage error, wherever it comes from.",
  ["inputs", "configurations"], "all option values and configuration files",
  "test_config checks three configurations; the parameter types apart from modules are untested.",
  [PKG+"__main__.py"], [("config_default, config_flag", PKG+"__main__.py"), ("parameter types", PKG+"__main__.py:Class, SignalNumber, Endpoint, ViewerSource"), ("profiler_options", PKG+"__main__.py")],
  (), ["parsed parameters of the commands"])
p("C26", "The profile command runs the program as Python would",
  "Profiling a script, a module (-m) or a command string (-c) runs it once, as __main__ with its own file and arguments, those after -- and none of the profiling command's own; its output and effects are those of running it directly. Whether the program ends normally or by any exception, a result is produced whose tree counts the program's calls on the program's own call paths and contains no function of the profiling command itself (its main module or its option parser).",
  ["programs", "inputs"], "all programs, ways of naming them and argument lists, both profilers",
  "No test runs a program through the command line.",
  [PKG+"__main__.py", PKG+"profiler.py"], [("script loading", PKG+"__main__.py:Script, Module, Command"), ("__profile__", PKG+"__main__.py")],
  (), ["effects of the program; dump file"])
p("C27", "timeit profiling runs the setup once and the statement n times",
  "For any setup, statement (of one or several lines) and count, the timeit command runs the setup exactly once before anything else, and the profiled part executes the whole statement exactly the requested number of times in the same namespace. The recorded tree counts the calls of exactly those executions; without a count it is the first power of ten whose executions, tried out before, take at least 0.2 seconds.",
  ["inputs", "programs"], "all statements, setups and counts",
  "No test runs the timeit command.",
  [PKG+"__main__.py"], [("timeit_profile", PKG+"__main__.py")], (), ["effects of statement and setup; dump file"])
p("C28", "Calls of all threads started while profiling are traced",
  "For any program with threads started during profiling, calls made in every such thread are counted on the thread's own call path, in addition to those of the starting thread and never mixed with another thread's path, for every interleaving; with a per-thread timer the time of a call leaves out what other threads did meanwhile. Threads that start before profiling are not affected.",
  ["schedules", "programs"], "all programs of threads and all interleavings at call boundaries",
  "test_thread_timer compares two totals for one pair of threads.",
  [PKG+"tracing/__init__.py", PKG+"tracing/timers.py"], [("threading profile hook", PKG+"tracing/__init__.py:run"), ("entered times keyed by frame", PKG+"tracing/__init__.py:record_entering")],
  (), ["profiler.stats"])
p("C29", "The viewing client follows the server through failures",
  "A client feeds the viewer what the server sends: it becomes active on the welcome, takes the columns of the announced profiler and shows each result with its title and time, for any segmentation of the stream. When the connection fails or ends at any point the viewer becomes inactive and keeps the last result; the failover client then keeps trying to reconnect, whatever the reason the connection could not be made, and on success goes on as with a new connection.",
  ["histories", "fault_sequences"], "all message streams, cut points and sequences of refused, failing and successful connections over TCP and Unix sockets",
  "There is no test of profiling.remote.client.",
  [PKG+"remote/client.py", PKG+"remote/__init__.py"], [("handle", PKG+"remote/client.py:ProfilingClient"), ("reconnection", PKG+"remote/client.py:FailoverProfilingClient")],
  (), ["viewer state, registered watches and alarms"])
p("C30", "Deferred calls all run, last first, however the block ends",
  "Every call deferred inside a deferral block runs exactly once, with its own arguments, in reverse order of deferring, when the block ends normally or by an exception, and also when another deferred call raises; the block's exception is not swallowed. Calls deferred by deferred calls run too.",
  ["histories", "fault_sequences"], "all sequences of deferring, raising in the block and raising deferred calls",
  "There is no direct test of deferral.",
  [PKG+"utils.py"], [("deferral", PKG+"utils.py:deferral")], (), ["order of the calls made"])
p("C31", "Live and remote profiling do not disturb the program",
  "A program run by remote-profile or live-profile behaves as when run directly: same arguments, effects and signal handling (but for the chosen signal), and the same output and exit status (live-profile mutes the standard output, passes on the standard error and gives 128 + n for signal n). A client connecting at any time to remote-profile receives results in which the functions the program is executing appear, any number of clients may come and go, and the program ends normally in the end.  The viewer of live-profile keeps receiving results until the program ends in whatever way, also after it was busy for a while, and turns inactive then.",
  ["programs", "histories"], "all programs and histories of clients connecting and leaving during the run",
  "No test runs these commands beyond --help.",
  [PKG+"__main__.py", PKG+"remote/select.py", PKG+"remote/background.py"], [("remote_profile, live_profile", PKG+"__main__.py")], (), ["program output, bytes received by clients"])
p("C32", "The log of a server tells who came and went and when it profiled",
  "For any history of clients, a profiling server given a log function writes one line for every client that connects and one for every client that has gone, in the order they happen, each with the number of clients connected then and the client's own address where there is one and the connection is not broken yet; and one line whenever profiling starts (with the interval) and one when it stops, so that at any moment the last of these tells whether the server profiles. It writes no other lines.",
  ["histories", "fault_sequences"], "all histories of clients connecting, leaving and failing, of all servers",
  "There is no test of profiling.remote.",
  [PKG+"remote/__init__.py", PKG+"remote/select.py", PKG+"remote/gevent.py", PKG+"remote/asyncio.py"],
  [("log lines", PKG+"remote/__init__.py:fmt_connected, fmt_disconnected, _log_connected"), ("addresses", PKG+"remote/select.py:_addr")],
  [("clients", "connected clients", PKG+"remote/__init__.py")], ["lines given to the log function"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
