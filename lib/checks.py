import vt
import checks_async, checks_seq, checks_queue, checks_fmt, checks_logger, checks_periodic, checks_files

TRUST = ["sequentially consistent interleavings at the granularity of instrumented memory accesses and synchronisation calls",
         "the driver's sinks and callbacks record what the library hands them"]
SEQ = ["the driver reports what the public methods return"]
CHECKS, TECH, NOTE = {}, {}, {}


def reg(prop, fn, tech, note, assume=TRUST):
    CHECKS[prop], TECH[prop], NOTE[prop] = (fn, assume), tech, note


ASYNC_NOTE = ("Every explored schedule of the real pools is checked step by step against the contract AsyncAbs by TLC; schedules are sampled "
              "by a deterministic scheduler, not exhausted. Assumes sequential consistency.")
for _p in checks_async.PLANS:
    reg(_p, checks_async.check(_p), "TLA+ contract AsyncAbs; TLC trace validation of controlled-schedule executions of the real pools", ASYNC_NOTE)

reg("C07", checks_seq.ring, "TLA+ spec Ring; implementation model refines it (TLC); all transitions and random behaviours replayed in circular_queue, traces validated by TLC",
    "Every transition of the small configurations, and random long behaviours of large ones; the design model of head/tail arithmetic is exhaustive for capacities up to 3.", SEQ)
reg("C22", checks_seq.msg, "TLA+ spec MsgBuf; all transitions and random behaviours replayed in log_msg_buf/async_msg, traces validated by TLC",
    "Every transition of a two slot configuration with short, empty and long messages, and random behaviours with three slots and lengths around the inline capacity.", SEQ)

reg("C06", checks_queue.check, "TLA+ spec BlockQueue; TLC infers linearization points of recorded controlled-schedule histories of block_queue; the mutex/condition variable design refines it (TLC, exhaustive)",
    "Linearizability, counters, timeouts and forgotten waiters of every explored history; schedules are sampled. The design model (3 threads, capacity 1) is exhaustive.")

reg("C18", checks_fmt.c18, "TLA+ definition of the pattern language; TLC enumerates patterns and validates every text the real pattern_formatter makes of them",
    "All patterns up to length 4 over an 8 character alphabet, every flag with every width form, dates from 1677 to 2262, random patterns and messages. The calendar of the specification is checked day by day.", SEQ)

reg("C08", checks_logger.c08, "TLA+ spec Logger; recorded runs of real loggers (synchronous and asynchronous) validated by TLC", "Every transition of a two-sink logger with short memories (model LoggerMC), random histories of synchronous and asynchronous loggers, and sampled schedules of threads that log, dump, enable and disable at once.", SEQ)
reg("C09", checks_logger.c09, "TLA+ spec Logger; recorded runs of real loggers (synchronous and asynchronous) validated by TLC", "Every transition of a two-sink logger with three levels (model LoggerMC) in loggers of every kind, and random histories with up to seven levels, changing sink lists and all call forms.", SEQ)
reg("C10", checks_logger.c10, "TLA+ specs Logger and AsyncAbs; recorded runs with failing sinks, formats and flushes validated by TLC", "Random histories and sampled schedules with sinks, formats and flushes that throw, including error reports of several threads at once; exceptions not derived from std::exception are passed on by design and not generated.")
reg("C19", checks_logger.c19, "TLA+ specs Pattern and Logger; recorded runs of formatters and of loggers with formatting sinks validated by TLC", "Random histories of formatters (clones, copies, custom and elapsed flags, virtual clock) and of loggers that hand patterns to several sinks.", SEQ)
reg("C21", checks_logger.logger("C21"), "TLA+ spec Logger; recorded runs of clones, copies, moves and swaps validated by TLC", "Random histories of clone, copy, move and swap on loggers of every kind, with the state of all of them compared after each step.", SEQ)

REG = {"C11": "Every transition of a registry of three loggers and two names (RegistryMC), random histories, and linearizability of sampled concurrent histories.",
       "C12": "Every transition of two-logger registries for levels, flush levels (and, thorough, patterns), random histories, and linearizability of sampled concurrent histories.",
       "C13": "Every transition of a three-logger registry with pools of the three kinds, random histories with queued messages at the time of the change, and linearizability of sampled concurrent histories."}
for _p in REG:
    reg(_p, checks_logger.registry(_p), "TLA+ spec Registry; all transitions of small registries replayed, recorded runs and concurrent histories of the registry functions validated by TLC", REG[_p], SEQ)

reg("C14", checks_periodic.check, "TLA+ spec Periodic (time in virtual units); TLC validates recorded controlled-schedule runs of periodic_function and flush_every", "Sampled schedules of real periodic_function objects and flush_every in virtual time, each explained step by step by the specification.")

FS = ["the scratch directory is on a file system that behaves as POSIX says", "injected failures: one C library call fails and sets errno"]
reg("C15", checks_files.c15, "TLA+ spec Files (directory tree, descriptors, buffers, numbered files); small world explored and replayed, recorded runs of rolling sinks with failing calls and killed processes validated by TLC", "Every reachable situation of a small world (limits 1..3, external changes) to depth 7 (9 in thorough), random long histories with injected failures of fopen/fwrite/fflush/rename-like calls, and killed processes.", FS)
reg("C16", checks_files.c16, "TLA+ spec Files (directory tree, descriptors, buffers); recorded runs of file sinks with failing calls and killed processes validated by TLC", "Every reachable situation of a small world to depth 7 (9 in thorough), random long histories with injected failures, files moved or appended by others, and killed processes.", FS)
import checks_out
reg("C17", checks_out.c17, "TLA+ specs Console and Pattern; recorded controlled-schedule runs of threads sharing sinks, their output validated by TLC", "Sampled schedules; each output file must be explained record by record by threads' calls and a pattern in force during the call.")
reg("C20", checks_out.c20, "TLA+ specs Console and Pattern; small console explored and replayed, recorded runs of console sinks on pipes and terminals validated by TLC", "All transitions of a small console on pipes and terminals; random histories with every level, pattern and terminal setting.", SEQ)

def run(prop):
    fn, assume = CHECKS[prop]
    return vt.main(prop, fn, assume)
