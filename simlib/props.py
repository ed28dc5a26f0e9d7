"""What each check runs and how its evidence describes it."""
LIB = ["urdf_parser/src (URDF parsing and export)", "urdf_parser/tinyxml (bundled TinyXML)", "src/tinyfk.cpp", "src/kinematics.cpp", "include/*.hpp"]
STUB = ["malloc/calloc/realloc/free/operator new as seen by the library (counting, failing; memory itself from the real allocator)",
        "disk: fopen/fread/fwrite/fclose/open/read/write/stat/rename and libstdc++ file buffers (in-memory files with injected faults)",
        "thread scheduling, mutexes, once-initialisation and static guards (threads are coroutines picked by the plan)",
        "process locale (localeconv, strtod, printf family and ctype as the simulated locale dictates)"]
RACE = ["on odd seeds: the library is compiled with thread-sanitizer instrumentation whose callbacks are the simulator's own happens-before check (sim/race.cpp) instead of AddressSanitizer"]
STEPS = "the library reads no clock and sets no timer, so time is counted in scheduler steps (basic blocks, loads and stores executed by library code)"
MEAS = "distinct_nontrivial counts distinct (robot, operations, configuration, schedule and fault outcome) shapes by hash; distinct_event_logs counts distinct complete event logs; code_edges_reached counts covered control-flow edges of library code"
PYMEAS = "distinct_nontrivial counts distinct (operation, parameter class, schedule and fault outcome) shapes by hash; distinct_event_logs counts distinct complete event logs; control-flow edges are not measured for the Python simulator"
ASSUME = ["clang 18 -O1 with AddressSanitizer instead of gcc -O3", "Eigen and libstdc++ as installed", "the reference model in sim/ref.cpp (long double kinematics) is right",
          "seeded sampling: a clean batch is evidence, not proof"]


def P(rule, quick, faults, chunk=20, engine="cpp", real=LIB, stub=STUB, time=STEPS, assume=(), race=False):
    if engine == "py":
        assume = list(assume) + ["clang 18 -O1 instead of gcc -O3", "seeded sampling: a clean batch is evidence, not proof"]
        return dict(rule=rule, quick_runs=quick, faults=faults, chunk=chunk, engine=engine, race=race, real=real, stub=stub, time=time, measure=PYMEAS, assumptions=assume)
    return dict(rule=rule, quick_runs=quick, faults=faults, chunk=chunk, engine=engine, race=race, real=real, stub=stub, time=time, measure=MEAS, assumptions=ASSUME + list(assume))


PYREAL = ["python/tinyfk/__init__.py", "src/wrapper.cpp (compiled against the binding shim)", "src/kinematics.cpp", "src/tinyfk.cpp", "urdf_parser/src", "urdf_parser/tinyxml", "numpy, pickle and copy as installed"]
PYSTUB = ["pybind11 (not installed here): pysim/shim/pybind11 converts the same argument and result types", "malloc/calloc/realloc as seen by the extension module (counting, failing)", "client scheduling (the plan orders the calls)"]
PYSTEPS = "no clock or timer is involved, so time is counted in calls"
PYASSUME = ["the binding shim converts like pybind11 for the argument types used", "the reference model in pysim/robot.py (numpy kinematics) is right"]

HIST = ("Each seed draws a random robot (or a shipped one), up to four simulated clients with their own operation mix and a schedule that interleaves their calls on shared models, "
        "with failing calls and allocation failures inside queries as faults. Non-trivial: ")
PROPS = {
    "C01": P(HIST + "at least one pose was checked against the reference after a configuration change.", 16000, ["client_switches", "rejected_calls", "allocation_faults_in_queries", "underscore_setter_windows", "link_additions"]),
    "C02": P(HIST + "at least one Jacobian was checked against differentiated reference poses.", 14000, ["client_switches", "rejected_calls", "allocation_faults_in_queries", "underscore_setter_windows", "link_additions"]),
    "C03": P(HIST + "at least one mass property was checked against the reference after a configuration change or link addition.", 14000, ["client_switches", "rejected_calls", "allocation_faults_in_queries", "underscore_setter_windows", "link_additions"]),
    "C04": P(HIST + "names, ids, limits or angles were checked after a change or a rejected call.", 16000, ["client_switches", "rejected_calls", "allocation_faults_in_queries", "link_additions"]),
    "C05": P("Each seed draws two to four threads with private models and a preemption schedule at the granularity of basic blocks and memory accesses; outputs are compared bit for bit with each thread's solo run; on odd seeds every load and store is also judged for data races. Non-trivial: at least two threads were switched while inside library calls.", 6000, ["switches", "switches_at_global_access", "switches_forced_by_fairness", "blocked_on_lock"], chunk=10, race=True, stub=STUB + RACE),
    "C06": P("Each seed copies or assigns models in the middle of a history and continues with all of them, also in different simulated threads; on odd seeds these are always threaded and every load and store is judged for data races. Non-trivial: at least one copy existed while a model was changed.", 9000, ["copies", "switches", "link_additions", "config_changes"], race=True, stub=STUB + RACE),
    "C07": P("Each seed damages a stored description (bytes flipped, truncated, zeroed, duplicated, swapped or spliced blocks, joint graph edits), loads it and queries every part of the resulting model. Non-trivial: damage was applied.", 24000, ["storage_damages", "damaged_rejected", "damaged_accepted", "joint_graph_damages"], chunk=40),
    "C08": P("Each seed stores a description on the simulated disk and loads it through every entry point with short reads, EINTR, open and read errors. Non-trivial: at least one load happened.", 14000, ["open_failures", "short_reads", "eintr", "read_errors"]),
    "C09": P("Each seed builds random documents and saves them to the simulated disk with short writes, EINTR, ENOSPC, EIO, failing close and losing delayed writes. Non-trivial: at least one save happened.", 12000, ["open_failures", "short_writes", "eintr", "disk_full", "write_errors", "close_errors", "acknowledged_saves"]),
    "C10": P("Each seed exports and re-parses random robots for several generations while the process locale is switched between and at random steps inside calls, with failing allocations inside parsing and exporting. Non-trivial: a fault fired or the locale was not the classic one.", 14000, ["locale_switches", "locale_switches_inside_a_call", "exports", "allocation_faults", "calls_out_of_memory"]),
    "C11": P("Each seed fails the n-th (or every further) allocation inside constructing, copying, reconfiguring and extending models and compares the model with the reference before and after, then repeats the call. Non-trivial: an allocation failure fired.", 9000, ["allocation_faults", "calls_out_of_memory", "calls_surviving_allocation_fault"]),
    "C12": P("Each seed runs a random history (including damaged descriptions, failed files) several times and compares live library memory. Non-trivial: the history was repeated.", 14000, ["storage_damages", "joint_graph_damages", "open_failures", "read_errors", "rejected_calls", "copies", "repetitions"]),
    "C17": P("Each seed draws a robot rich in visual and collision elements (or a shipped one), parses it, exports and re-parses it for several generations and builds and copies models of any generation, while the process locale is switched between and inside calls and allocations fail. Non-trivial: a fault fired or the locale was not the classic one.", 7000, ["locale_switches", "locale_switches_inside_a_call", "exports", "allocation_faults", "calls_out_of_memory"]),
    "C18": P("Each seed draws a robot (half of them large, many of them single chains), one to three models and an interleaving of up to three clients' changes, copies, assignments, additions, rejected calls, queries and queries with failing allocations; at random points the steps of queries and setters are counted and compared with a fresh model of the same robot and with bounds linear in depth and links, calibrated on a short chain. Non-trivial: at least one bound was judged.", 3500, ["client_switches", "rejected_calls", "allocation_faults_in_queries", "underscore_setter_windows", "link_additions", "copies"]),
    "C19": P("Each seed draws a history of several clients' calls (parse, export, construct, copy, change, extend, rejected calls, queries) and runs it once in the ordinary simulated environment and once in another: other memory layout and contents, freed blocks reused at once, a dirty stack, other clock readings, process id and random numbers, and calls on unrelated models in between; every answer is compared bit for bit. Non-trivial: at least one answer was compared and the environment was changed.", 5000, ["changed_environments", "unrelated_calls_in_between", "blocks_reused_at_once", "rejected_calls", "link_additions", "client_switches"]),
    "C13": P("Each seed draws a random robot (or a shipped one), one or two Python models, up to four simulated clients with their own operation mix and an interleaving of their calls: setters, every solver with every base type and batch shape, cache reuse and the window it leaves, link additions, rejected calls and allocation failures inside solvers. Non-trivial: at least one waypoint was compared with the reference.",
             6000, ["client_switches", "rejected_calls", "allocation_faults", "stale_cache_windows", "link_additions", "empty_batches"], engine="py", chunk=50, real=PYREAL, stub=PYSTUB, time=PYSTEPS, assume=PYASSUME),
    "C14": P("Each seed keeps several Python models and stored pickles, changed by simulated clients through set_q, additions, rejected calls, solver calls and changes to arrays the callers still own, with copies, deep copies, pickles of every protocol, restores, allocation failures and process restarts that keep only the stored pickles. Non-trivial: at least one restored or copied model was compared with the reference.",
             8000, ["restarts", "restores", "rejected_calls", "allocation_faults", "caller_array_mutations", "copies", "deepcopies"], engine="py", chunk=50, real=PYREAL, stub=PYSTUB, time=PYSTEPS, assume=PYASSUME),
    "C15": P("Each seed draws a sequence of groups of imports; the imports of a group run at the same time as separate simulated processes switched at every system call and network exchange, each with its own crash point (also in the middle of a write), interrupt, network or disk fault; afterwards one import without faults and one without network. Non-trivial: a fault fired or imports overlapped.",
             1600, ["crashes_mid_import", "interrupts", "net_refused", "net_http_error", "net_reset", "net_truncated", "net_slow", "net_offline", "disk_full", "short_writes", "write_errors", "open_errors", "mkdir_errors", "rename_errors", "close_errors", "process_switches", "pid_reuse"], engine="py", chunk=20,
             real=["python/tinyfk/__init__.py", "src/wrapper.cpp (compiled against the binding shim)", "urllib, http.client, tempfile, os of the installed Python", "the kernel's file system, in a scratch directory"],
             stub=["network: HTTP connections end in a simulated server that publishes the repository's data/*.urdf and fails as the plan says", "every file-system call on the scratch home directory waits for the scheduler, which lets it through, fails, shortens, tears it or kills the process (preloaded sysshim.cpp)", "clock, sleep, random bytes and process ids", "TLS (no certificate is checked)"],
             time="counts.simulated_ms of simulated clock: 20 us per call, network delays and sleeps on top", assume=["processes die, the machine does not: what a process wrote before dying stays", "the published files are the repository's data/pr2.urdf and data/fetch.urdf"]),
}
