#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech])))

prop("H01", "Health tests fire exactly at their documented cutoffs",
     "For every sequence of time stamps and every accepted oversampling rate, in the common and in the NTG.1 configuration, the stuck test, the repetition count test, the adaptive proportion test and the lag predictor test classify each measurement, and raise an intermittent or permanent failure at exactly the measurement, that a reference implementation with cutoffs computed from the documented formulas does. No failure is raised at any other measurement, and a failure once raised stays raised.",
     ["inputs", "histories", "configurations"], "all time stamp sequences x osr 3..20 x {common, NTG.1}",
     "A unit test feeds a few hand-made runs; off-by-one cutoffs, window resets or table slips for one osr only show on sequences tuned to that osr.",
     ["src/jitterentropy-health.c", "src/jitterentropy-health.h"],
     [("stuck/RCT/APT/lag insertion", "src/jitterentropy-health.c:jent_stuck"), ("cutoff selection", "src/jitterentropy-health.c:jent_health_init")],
     [("health_failure", "latched failure mask", "src/jitterentropy-internal.h")])
prop("H02", "RCT with memory: window, every-third sampling and recovery",
     "For every collection run the repetition count test with memory counts stuck measurements at every third position of the first 321*osr (FIPS) measurements of a block, and on reaching the intermittent cutoff generates ten additional blocks before judging: it only reports an intermittent failure when the cutoff is reached again during that recovery, and a permanent failure at the permanent cutoff inside the window. Outside the window it never reports, recovery never disturbs the startup sequence, and the noise gathered in recovery is still mixed into the state.",
     ["inputs", "histories", "configurations"], "all measurement sequences in NTG.1 and common mode, including recovery entered from startup stages",
     "Recovery is re-entrant and needs a precise stuck density at window positions; tests exercise one such history at most.",
     ["src/jitterentropy-health.c", "src/jitterentropy-noise.c"],
     [("RCT with memory", "src/jitterentropy-health.c:jent_rct_mem_insert"), ("block loop", "src/jitterentropy-noise.c:jent_random_data_one")],
     [("rct_mem_ctr/rct_mem_count", "position in window / stuck values", "src/jitterentropy-internal.h")])
prop("H03", "A failed health test yields an error code and never data",
     "In FIPS and NTG.1 mode, for every time stamp history, a read during which any health test fails returns the error code of the failing test (permanent before intermittent, in the documented priority), leaves no generated random byte in the caller's buffer even when earlier blocks of the same request had succeeded, invokes a registered failure callback with that collector and failure mask, and does not count as output. Every later plain read of the same collector keeps failing. Outside these modes health failures neither stop output nor call the callback.",
     ["inputs", "histories", "configurations"], "all clock histories, request lengths, modes, callback registrations",
     "Which block of a multi-block request fails, which combination of tests fails and what stays in the buffer are functions of the whole clock history.",
     ["src/jitterentropy-base.c", "src/jitterentropy-health.c"],
     [("read loop and error selection", "src/jitterentropy-base.c:jent_read_entropy"), ("failure report and callback", "src/jitterentropy-health.c:jent_health_failure")],
     [("health_failure", "latched failure mask", "src/jitterentropy-internal.h")])
prop("H04", "Safe read recovers from intermittent failures as documented",
     "For every clock history the safe read returns permanent health, timer and argument errors at once, and on an intermittent failure replaces the collector by one with the oversampling rate raised by at least one, the next larger memory unless the caller capped it, and the next hash loop count, after the power-on tests pass at that rate, then serves the full request. It gives up with the original error and leaves the caller a valid, freeable collector when the maximum rate is exceeded or no replacement can be made; identity and output accounting survive the replacement.",
     ["inputs", "histories", "configurations", "fault_sequences"], "all clock histories x initial configurations x failures while reallocating",
     "The recovery ladder spans several nested restarts; the tests cover single steps with fixed clocks.",
     ["src/jitterentropy-base.c"],
     [("recovery", "src/jitterentropy-base.c:jent_health_failure_reset"), ("safe read", "src/jitterentropy-base.c:jent_read_entropy_safe")],
     [("osr/flags/reinit_count", "current rung of the ladder", "src/jitterentropy-internal.h")])
prop("H05", "Recovery does not launder a degraded noise source",
     "After a safe read replaced a collector because of an intermittent failure, the replacement continues the health judgement of its predecessor: the adaptive proportion test keeps its reference value and window position with the count at the new intermittent cutoff, the repetition count starts at the new intermittent cutoff, and the lag predictor keeps its complete state. Hence a degradation that simply continues escalates to the permanent failure within the documented permanent cutoffs instead of starting over.",
     ["inputs", "histories"], "all clock histories crossing a recovery",
     "Needs a failure, a successful power-on test and a second failure in one history with exact positions.",
     ["src/jitterentropy-base.c", "src/jitterentropy-health.c"],
     [("state duplication", "src/jitterentropy-health.c:jent_apt_duplicate, jent_rct_duplicate, jent_lag_duplicate")])
prop("S01", "Power-on test verdict follows the documented timer criteria",
     "For every behaviour of the clock the power-on test returns success exactly when all documented criteria hold (non-zero stamps, no zero delta, at most three backward steps, no health failure, enough variation of the deltas at the requested rate, small common divisor, at most 90% stuck), and otherwise the error code of the first criterion violated in the documented order. The verdict is the same through both init entry points and through the implicit test made by allocation.",
     ["inputs", "configurations"], "all clock sequences of the power-on test x osr x flags",
     "The acceptance boundary is a function of 1125 measurements; tests sample a handful of pathological clocks.",
     ["src/jitterentropy-base.c", "src/jitterentropy-gcd.c"],
     [("power-on test", "src/jitterentropy-base.c:jent_time_entropy_init"), ("variation and divisor", "src/jitterentropy-gcd.c:jent_gcd_analyze")])
prop("S02", "No collector without passed startup tests",
     "In every history of init, allocation, read and free calls with any of them failing for any reason (bad clock, failing known-answer test, failing divisor self test, refused memory), a collector is only handed out when the most recent startup test run of the process passed; after a failed run every allocation repeats the complete tests first, and returns nothing if they fail again. A successful init is sufficient for later allocations to skip the tests.",
     ["histories", "fault_sequences"], "all histories of API calls and injected startup failures",
     "Needs sequences mixing failures of different startup stages; unit tests check one call after one failure.",
     ["src/jitterentropy-base.c"],
     [("startup gate", "src/jitterentropy-base.c:jent_entropy_collector_alloc_internal"), ("self test bookkeeping", "src/jitterentropy-base.c:jent_entropy_init_common_pre/post")],
     [("jent_selftest_run", "startup tests passed in this process", "src/jitterentropy-base.c")])
prop("S03", "Startup collects a full block from each noise source separately",
     "A FIPS or NTG.1 collector handed to the caller has, for every clock history, first absorbed at least 321*osr non-stuck measurements of the memory access source alone and then 321*osr of the hash source alone, with no health failure in either, before any other output; a failure in between restarts both stages on a stronger collector. Any other collector has absorbed at least 256*osr non-stuck measurements before it is handed out.",
     ["inputs", "histories", "configurations"], "all clock histories at startup x modes x osr",
     "The number of accepted samples per stage is invisible to black-box tests and depends on where failures fall.",
     ["src/jitterentropy-base.c", "src/jitterentropy-noise.c"],
     [("startup loop", "src/jitterentropy-base.c:_jent_entropy_collector_alloc"), ("stage selection", "src/jitterentropy-noise.c:jent_random_data")],
     [("startup_state", "pending startup stage", "src/jitterentropy-internal.h")])
prop("E01", "Every output block is preceded by a full amount of fresh noise",
     "Before each output block of at most 32 bytes the collector takes one discarded priming measurement and then measures until 256*osr (321*osr in FIPS or NTG.1 mode, rounded up to a multiple of three) non-stuck time deltas have been gathered; stuck measurements never count towards that number. No block is ever produced from fewer measurements, whatever the clock does.",
     ["inputs", "histories", "configurations"], "all clock histories, modes, rates, request lengths",
     "Output of a DRBG looks random no matter how little entropy went in; only counting measurements for arbitrary clocks decides it.",
     ["src/jitterentropy-noise.c"],
     [("collection loop", "src/jitterentropy-noise.c:jent_random_data_one")])
prop("E02", "Output is the documented conditioning of every measured delta",
     "For every clock history the bytes returned equal XDRBG-256 applied to the concatenation of one rate-sized record per measurement (time delta divided by the timer divisor, the noise source's domain separator, hash loop result), including the priming, stuck, startup and recovery measurements, with the retained state re-absorbed after each block. Changing any measured delta changes the output, and a shorter request returns a prefix of a longer one.",
     ["inputs", "histories", "configurations"], "all clock histories and read sequences",
     "Dropping or truncating a delta, or reusing a record, leaves output statistically perfect.",
     ["src/jitterentropy-noise.c", "src/jitterentropy-sha3.c"],
     [("record insertion", "src/jitterentropy-noise.c:jent_hash_insert"), ("XDRBG generate", "src/jitterentropy-sha3.c:jent_xdrbg256_generate_block")],
     [("hash_state", "XDRBG/SHAKE-256 state", "src/jitterentropy-internal.h")])
prop("C01", "Conditioning primitives match their specifications",
     "For every message, every way of splitting it into updates and every supported output size, SHA3-256 and SHAKE-256 give the FIPS 202 result and leave the context ready for a new message, and the XDRBG-256 instantiate, reseed and generate sequence gives the specified output and next state for every request of 0 to 32 bytes.",
     ["inputs", "histories"], "all messages, chunkings, output sizes and seed/generate histories",
     "Known-answer tests use one message each; partial-block, rate-boundary and reuse errors need particular lengths and splits.",
     ["src/jitterentropy-sha3.c", "src/jitterentropy-sha3.h"],
     [("sponge", "src/jitterentropy-sha3.c:jent_sha3_update, jent_sha3_final"), ("XDRBG", "src/jitterentropy-sha3.c:jent_drbg_generate_block")])
prop("C02", "Returned random bytes cannot be recovered from retained memory",
     "After any read, successful or failed, no memory the library retains or has released, nor the stack it used, contains a usable run (8 bytes in memory, 16 on the stack) of the bytes it returned, of the state they were generated from or of the noise measured for them, and no two blocks produced by one collector are equal. The state retained after a read differs from every state retained before.",
     ["inputs", "histories"], "all read histories, sizes and clocks",
     "A forgotten copy or a missed ratchet is invisible in return values.",
     ["src/jitterentropy-sha3.c", "src/jitterentropy-noise.c", "src/jitterentropy-base.c"],
     [("generate and wipe", "src/jitterentropy-sha3.c:jent_xdrbg256_generate_block"), ("record wipe", "src/jitterentropy-noise.c:jent_hash_insert")])
prop("A01", "Read calls honour their length, buffer and argument contract",
     "For every request length, buffer position and collector, a successful read returns exactly the requested length and writes every byte of exactly that range and nothing outside it; a zero-length request succeeds without writing; a missing collector or a missing buffer with a non-zero length is refused as misuse without any effect. Freeing accepts no collector, and no call sequence within the contract touches invalid memory.",
     ["inputs", "histories"], "all lengths, alignments, argument combinations and call histories",
     "Boundary lengths around 32-byte blocks and misuse combinations multiply beyond what tests list.",
     ["src/jitterentropy-base.c"], [("read", "src/jitterentropy-base.c:jent_read_entropy"), ("safe read", "src/jitterentropy-base.c:jent_read_entropy_safe")])
prop("A02", "Requested configuration is honoured or refused, never altered",
     "For every combination of oversampling rate and flags, allocation either is refused for a documented contradiction (rate above 20, internal timer both forced and disabled, memory access disabled in FIPS/NTG.1 mode, internal timer forced with NTG.1) or yields a collector whose reported rate, memory size, hash loop count, modes and flags are the documented function of the request and of the machine's cache and system FIPS mode. Small rates are raised to the minimum and oversized memory requests capped at the maximum.",
     ["inputs", "configurations"], "all osr x flag words x cache geometries x system FIPS states",
     "2^32 flag words times environment; unit tests list a few.",
     ["src/jitterentropy-base.c", "src/jitterentropy-status.c", "jitterentropy.h"],
     [("allocation", "src/jitterentropy-base.c:jent_entropy_collector_alloc_internal"), ("size derivation", "src/jitterentropy-base.c:jent_update_memsize, jent_memsize, jent_hashloop_cnt")])
prop("A03", "Collectors are independent of each other",
     "In every interleaving of operations on several live collectors of one process (allocate, read, safe read, self test, status, free), each collector returns the same results, errors, output and status as it would if it were the only one given the same measurements. A failure, recovery or release of one collector affects no other.",
     ["histories", "schedules"], "all interleavings of operations on up to several collectors",
     "Cross-talk through process-wide state appears only for particular interleavings.",
     ["src/jitterentropy-base.c", "src/jitterentropy-health.c", "src/jitterentropy-timer.c"],
     [("per-instance state", "src/jitterentropy-internal.h:struct rand_data")])
prop("M01", "Secret memory is wiped and returned, whatever happens",
     "On every path - free, recovery, failed allocation, failed power-on test, success or failure of any operating system call - every memory region the library obtained for its state is completely overwritten with zero before it is returned to the operating system, is returned exactly once with its exact extent, and nothing remains allocated once the caller freed what it holds. Each region is enclosed by inaccessible guard pages and excluded from core dumps while it is in use.",
     ["histories", "fault_sequences"], "all call histories with faults at every OS call",
     "Leaks and missed wipes on error paths need the failure of one specific call in one specific state.",
     ["arch/jitterentropy-arch-memory.c", "src/jitterentropy-base.c"],
     [("allocate/free", "arch/jitterentropy-arch-memory.c:jent_zalloc, jent_zfree"), ("collector release", "src/jitterentropy-base.c:jent_entropy_collector_free")])
prop("M02", "Secure memory requirement is enforced exactly when requested",
     "Whenever secure memory is requested, explicitly or through FIPS or NTG.1 mode, no init or allocation succeeds if the operating system refuses to lock any one of the regions involved, at any point, and no collector with unlocked memory is ever in use (a recovery may go on to the next rate instead); when it is not requested a refusal for lack of privilege or quota is tolerated while any other locking error still fails. Status reports secure memory exactly for collectors for which it was required.",
     ["fault_sequences", "configurations"], "all positions and errno values of a refused lock x flags x call histories",
     "The refusal must be tried at each allocation of each path, including recovery and the internal timer context.",
     ["arch/jitterentropy-arch-memory.c", "src/jitterentropy-base.c", "src/jitterentropy-timer.c"],
     [("lock policy", "arch/jitterentropy-arch-memory.c:jent_zalloc"), ("implied requirement", "src/jitterentropy-base.c:jent_update_secure_mem")])
prop("F01", "Operating system failures lead to clean errors and are survivable",
     "For every call history and every single or repeated failure of an operating system service (memory mapping, protection, locking, thread creation, random source, file access), each library call still returns, reports a documented error or a correct result, never crashes or hands out a half-built collector, and leaves existing collectors usable. Once the failure is gone the same call succeeds.",
     ["fault_sequences", "histories"], "every position of a failing OS call in every generated history",
     "Hundreds of fault positions per history; unit tests inject a few.",
     ["src/jitterentropy-base.c", "src/jitterentropy-timer.c", "arch/jitterentropy-arch-memory.c", "arch/jitterentropy-arch-thread.c"],
     [("error paths", "src/jitterentropy-base.c:jent_entropy_collector_alloc_internal, jent_health_failure_reset")])
prop("J01", "Status is valid, complete, bounded JSON that tells the truth",
     "For every collector state and buffer size the status call writes a NUL-terminated text within the buffer and nothing beyond it, succeeds whenever the complete document fits with a byte to spare and only when it fits, and then the text is one valid JSON object whose version, identifier, counters, health flags, configuration and environment agree with the collector's history. A truncated document is always reported as failure, and the call changes nothing in the collector.",
     ["inputs", "histories", "configurations"], "all buffer sizes x collector histories",
     "Every buffer length around every field and every health/configuration combination.",
     ["src/jitterentropy-status.c"], [("status", "src/jitterentropy-status.c:jent_status")])
prop("U01", "Identity: well-formed, unique, stable and never disclosed partially",
     "Every collector carries a version 4 UUID string in canonical form taken from the operating system's random source, distinct from that of any other collector, unchanged over its whole life including recoveries and status calls; if the random source fails entirely it is the nil UUID and the collector still works. The query returns it exactly when the buffer has room for all of it including the terminator and otherwise writes nothing.",
     ["inputs", "histories", "fault_sequences"], "all buffer sizes, random-source behaviours (short reads, interruptions, errors) and histories",
     "Short or interrupted reads of the random source and recoveries are rare events.",
     ["src/jitterentropy-uuid.c", "src/jitterentropy-status.c", "arch/jitterentropy-arch-random.c"],
     [("generation", "src/jitterentropy-uuid.c:jent_uuid_generate"), ("OS randomness", "arch/jitterentropy-arch-random.c:jent_os_random_bytes"), ("query", "src/jitterentropy-status.c:jent_uuid")])
prop("T01", "Internal timer thread is confined to the calls that need it",
     "In every history with the internal timer, using the builtin or a caller-supplied thread handler, a counting thread runs only while a library call measures: each start is matched by a stop before the call returns (on success, failure and recovery alike; stopping what is not running is harmless), the handler context, which is opaque to the library, is created once per collector and disposed of exactly once after the last stop, and no handler function is called with it afterwards. A refused start is reported as the timer error and leaves the collector usable later.",
     ["histories", "fault_sequences", "schedules"], "all call histories x handler failures at each call",
     "Start/stop imbalance shows only on error and recovery paths.",
     ["src/jitterentropy-timer.c", "arch/jitterentropy-arch-thread.c", "src/jitterentropy-base.c"],
     [("tick control", "src/jitterentropy-timer.c:jent_notime_settick, jent_notime_unsettick"), ("context", "src/jitterentropy-timer.c:jent_notime_enable, jent_notime_disable")])
prop("T02", "One common timer divisor, correctly derived and never zero",
     "The first power-on test of a process whose variation and divisor analysis passes establishes as common divisor of time deltas the greatest common divisor of the deltas it measured; it is never zero, never changes afterwards, is not established by a test that fails this analysis or an earlier criterion, and every collector allocated later divides every delta by it (by one while none is established). Clocks whose divisor is 2^31-1 or more are refused as too coarse.",
     ["inputs", "histories"], "all delta sequences and init/alloc histories",
     "The divisor is a function of 1024 deltas and of the order of all init calls in the process.",
     ["src/jitterentropy-gcd.c", "src/jitterentropy-base.c"],
     [("analysis and publication", "src/jitterentropy-gcd.c:jent_gcd_analyze, jent_gcd_get")],
     [("jent_common_timer_gcd", "process-wide divisor", "src/jitterentropy-gcd.c")])
prop("K01", "A failed bound self test takes the instance out of service for good",
     "In every mode and every history, once a self test bound to a collector failed, no read of that collector - plain or safe, in the same or a later call, also one whose later blocks are still outstanding or which recovers by replacing the collector - delivers further output; it returns the self test error from then on, and later passing self tests do not revive it. A failing or passing unbound self test, and a failing test bound to another collector, have no such effect.",
     ["histories", "fault_sequences", "schedules"], "all histories of self tests (passing/failing), reads, safe reads and recoveries",
     "Needs a self test failure between blocks or during recovery of the same instance.",
     ["src/jitterentropy-base.c", "src/jitterentropy-internal.h"],
     [("verdict", "src/jitterentropy-base.c:jent_selftest"), ("check per block", "src/jitterentropy-base.c:jent_read_entropy")],
     [("selftest_failed", "latched verdict", "src/jitterentropy-internal.h")])
prop("L01", "Concurrent use is free of data races and lost verdicts",
     "For every schedule of threads that run init, allocate, read from and free their own collectors, query status or version, and run self tests bound to any collector, there is no data race on process-wide state or on the self test verdict of a collector, all threads see the same timer divisor, every operation returns what it would alone, no thread takes a startup test still in progress for a passed one, and no self test verdict or registered callback is lost.",
     ["schedules", "histories"], "all thread interleavings of API calls on distinct collectors plus cross-thread self tests",
     "Races depend on schedule; tests run one schedule.",
     ["arch/jitterentropy-arch-atomic.c", "src/jitterentropy-gcd.c", "src/jitterentropy-base.c", "src/jitterentropy-timer.c", "src/jitterentropy-health.c"],
     [("process-wide latches", "arch/jitterentropy-arch-atomic.h"), ("divisor publication", "src/jitterentropy-gcd.c:jent_gcd_analyze")])
prop("G01", "Configuration calls work before initialisation and never after",
     "Registering the failure callback, the thread handler or the timer CPU succeeds and takes effect exactly while no initialisation or allocation with acceptable arguments has been attempted in the process; afterwards each returns -EAGAIN and changes nothing, even if that initialisation failed. An incomplete thread handler is refused with -EINVAL and leaves the previous one in place.",
     ["histories"], "all orders of configuration, init and alloc calls, with init failing or succeeding",
     "The window closes at different points on failing and succeeding paths.",
     ["src/jitterentropy-timer.c", "src/jitterentropy-health.c", "src/jitterentropy-base.c"],
     [("switch blocks", "src/jitterentropy-timer.c:jent_notime_switch, jent_notime_set_cpu; src/jitterentropy-health.c:jent_set_fips_failure_callback_internal")])
prop("X01", "Cache geometry discovery is correct for any sysfs content",
     "For every content of the kernel's cache description - any number of CPUs, levels, types, sizes and units, malformed, truncated or missing entries - the memory size derived from the discovered first-level or total data cache size is the one a reference reading of the same description gives for totals below 2 GB (falling back to the system configuration values when there is none, and to the documented default when these are unusable), it is always a valid size (a power of two between 1 kB and 512 MB), and reading never overruns a buffer or leaks a descriptor.",
     ["inputs", "configurations"], "all sysfs trees and file contents",
     "The machine the tests run on has exactly one geometry.",
     ["arch/jitterentropy-arch-cache.c", "src/jitterentropy-base.c"],
     [("cache size", "arch/jitterentropy-arch-cache.c:jent_cache_size_roundup")])
prop("X02", "CPU count and system FIPS mode are read faithfully",
     "For every affinity mask the CPU count is the number of CPUs in the mask and the builtin counting thread is pinned to the highest CPU in it unless the caller chose another, falling back to the system configuration when the mask is unavailable and to no pinning for an unusable CPU number; the internal timer is refused with fewer than two CPUs. System FIPS mode is on exactly when the kernel's indicator file is readable and starts with 1, for every content, short read and interruption.",
     ["inputs", "configurations", "fault_sequences"], "all affinity masks, indicator contents and read failures",
     "Depends on the machine; tests see one.",
     ["arch/jitterentropy-arch-ncpu.c", "arch/jitterentropy-arch-fips.c", "arch/jitterentropy-arch-thread.c", "src/jitterentropy-timer.c"],
     [("affinity", "arch/jitterentropy-arch-ncpu.c:jent_ncpu, jent_cpu_highest"), ("FIPS indicator", "arch/jitterentropy-arch-fips.c:jent_fips_enabled"), ("pinning", "arch/jitterentropy-arch-thread.c:jent_thread_pin_to_cpu")])

prop("X03", "Cache sizes are found on every supported platform",
     "For every processor and every operating system the library supports (the Linux kernel on x86 and arm64, Windows, macOS, AIX, and systems where only CPUID can be asked) the memory size derived from the caches is the smallest power of two above the level one data cache, or above the total of the data and unified caches of levels one to three when all are asked for, taking per level the largest cache of any processor that is online and answers. Instruction caches, other levels and absent or malformed answers count as nothing, nothing at all reported gives zero (the caller's default), and no answer leads to a hang or an access outside it.",
     ["inputs", "configurations", "fault_sequences"], "all generated processors and answers per platform",
     "The code only runs on the platform it is for; the test machine is one of them and has one set of caches.",
     ["arch/jitterentropy-arch-cache.c"],
     [("per platform discovery", "arch/jitterentropy-arch-cache.c:jent_cache_size_roundup")])
prop("X04", "FIPS state, CPU count and OS randomness are right on every platform",
     "On every supported platform and crypto library backend, system FIPS mode is reported on exactly when that platform's own indicator is set, and the number and the highest of the usable processors are those the platform reports, with the documented fallbacks (affinity mask, list of online processors, system configuration) when an answer is missing, malformed or too long. A request for operating system random bytes either fills the whole buffer with bytes of the platform's source or fails, for every sequence of interruptions, short reads, ends and errors, without leaking a descriptor.",
     ["inputs", "configurations", "fault_sequences"], "all platforms x indicator values, masks, lists, read and call failures",
     "The tests run on one platform, on which no source ever stutters.",
     ["arch/jitterentropy-arch-fips.c", "arch/jitterentropy-arch-ncpu.c", "arch/jitterentropy-arch-random.c"],
     [("indicator", "arch/jitterentropy-arch-fips.c:jent_fips_enabled"), ("processors", "arch/jitterentropy-arch-ncpu.c:jent_ncpu, jent_cpu_highest"), ("random bytes", "arch/jitterentropy-arch-random.c:jent_os_random_bytes")])
prop("X05", "Threads are started, pinned and reaped correctly on every platform",
     "On every supported platform a request to pin the counting thread either binds the calling thread to exactly the processor with that number - on Windows the n-th active processor counted across all processor groups, whatever holes their masks have - or reports failure and binds nothing; platforms without such a facility always report failure. A start that fails reports it and leaves nothing to stop, a successful start runs the given routine with its argument, and stopping waits for the thread and releases it exactly once, however often it is repeated.",
     ["inputs", "configurations", "fault_sequences", "histories"], "all platforms x processor numbers, group layouts, refusals x start and stop histories",
     "Group layouts, refused calls and platforms other than the test machine never occur in the tests.",
     ["arch/jitterentropy-arch-thread.c"],
     [("pinning", "arch/jitterentropy-arch-thread.c:jent_thread_pin_to_cpu"), ("start and stop", "arch/jitterentropy-arch-thread.c:jent_notime_thread_create, jent_notime_thread_join")])
prop("X06", "Time stamps and shared words are exact on every platform",
     "On every platform whose counter can be exercised here (x86, the kernel's fallback, Windows on ARM, AIX, old macOS, systems with only a clock) two time stamps differ by exactly what the platform's undisturbed counter advanced between them, over 32 bit and second boundaries, and the wall clock never influences them. With every set of atomic primitives a process-wide word reads back what was stored last, set-once keeps the first value other than zero, and neighbouring words are never touched.",
     ["inputs", "histories", "configurations"], "all counter values and steps x platforms; all operation sequences x primitives",
     "Boundaries are hours or years apart and the other platforms' code is not even compiled by the tests.",
     ["arch/jitterentropy-arch-timer.c", "arch/jitterentropy-arch-atomic.c"],
     [("time stamp", "arch/jitterentropy-arch-timer.c:jent_get_nstime"), ("words", "arch/jitterentropy-arch-atomic.c")])
prop("M03", "Memory of every backend is zeroed, wiped, exact and honestly labelled",
     "With each memory backend (libgcrypt, OpenSSL, AWS-LC, Windows, plain heap, Linux kernel) an allocation either fails or hands out zeroed memory of at least the requested size, hands out secure memory whenever it is demanded or refuses (AWS-LC, which has none, says so instead), and a release wipes memory the allocator does not wipe itself and returns it through the matching function exactly once. For every sequence of allocations, releases and refusals of the underlying allocator nothing leaks, nothing outside a block is touched, and the backend claims secure memory only when it provides it.",
     ["histories", "fault_sequences", "configurations"], "all backends x sizes x allocation histories x refusals",
     "The tests are built with the POSIX backend only.",
     ["arch/jitterentropy-arch-memory.c"],
     [("backends", "arch/jitterentropy-arch-memory.c:jent_zalloc, jent_zfree")])

prop("N01", "The memory access noise source works on all of the configured memory",
     "With memory access enabled, every measurement of a collector, in every mode, startup stage and recovery, makes the documented number of updates (128; 384 in the NTG.1 memory stage; none in the NTG.1 hash stage), each adding one to a byte of that collector's own memory region, whose size is the one the status reports. Over every history the updates spread over the whole region: every part of it and every address bit get their share, and the walk of the NTG.1 memory stage continues where it stopped so that it reaches every byte before it comes back.",
     ["histories", "configurations"], "all histories of allocations, reads and recoveries in all modes and memory sizes",
     "The effect on memory is invisible to a caller and to the output under a mocked clock; tests only check that output arrives.",
     ["src/jitterentropy-noise.c", "src/jitterentropy-base.c", "src/jitterentropy-internal.h"],
     [("pseudorandom updates", "src/jitterentropy-noise.c:jent_memaccess_pseudorandom"), ("walk", "src/jitterentropy-noise.c:jent_memaccess_deterministic")],
     [("mem, memmask, memlocation", "the region and the walk's position", "src/jitterentropy-internal.h")])

LK = "linux_kernel/jitterentropy_"
prop("D01", "Kernel character device reads deliver exactly the instance's own output",
     "For every read length, blocking mode, concurrent fcntl(), failing or partial user copy, signal, memory shortage and generator failure, read() on the kernel character device returns at most the requested length, the first returned bytes are exactly what the file's own instance generated in order, nothing beyond is written except what a failing copy got across, and it returns the full length when nothing interferes. A count already delivered is never replaced by an error, an error (-ENOMEM, -EFAULT, -EAGAIN, -ERESTARTSYS or the generator's) is returned only when nothing was delivered, and a non-blocking read never waits for a lock and makes one generation step of at most 256 bytes. No intermediate copy of output survives in freed kernel memory, and nothing is leaked.",
     ["inputs", "fault_sequences", "histories"], "all lengths, open file modes, fault points inside a read and histories of opens, reads and closes",
     "No test in the repository runs the kernel interface at all; the faults (copy, signal, lock contention) sit between chunks.",
     [LK + "chardev.c"],
     [("read loop", LK + "chardev.c:jent_chardev_read"), ("open/release", LK + "chardev.c:jent_chardev_open, jent_chardev_release")])
prop("D02", "Kernel interfaces map every library failure to the documented errno",
     "Whatever the library reports, each kernel interface (character device, hwrng, crypto API) fails with -EFAULT for a permanent health or self test failure and for unknown codes, -EAGAIN for an unrecovered intermittent one and -EINVAL for invalid use or a missing timer, and reports success only with complete output; the crypto API returns 0 on success, a hwrng read that may not wait returns 0 when the instance is in use. In system FIPS mode a permanent health failure, a failed self test or a refused power-on test at load stops the machine, no other failure does, and outside FIPS mode none does.",
     ["inputs", "fault_sequences", "histories"], "all library error codes on all interfaces, with and without FIPS, at every read of a history",
     "Needs each failure code to come out of the library under each interface and mode; not run by any test.",
     [LK + "error.h", LK + "chardev.c", LK + "hwrng.c", LK + "kcapi.c"],
     [("mapping", LK + "error.h:jent_map_read_error"), ("callers", LK + "hwrng.c:jent_hwrng_read; " + LK + "kcapi.c:jent_kcapi_random")])
prop("D03", "Loading and unloading the kernel module is all or nothing",
     "For every module parameter setting and every failing step of loading (power-on verdict of the library, registration of each interface, each proc or debugfs entry, memory), either the load succeeds with all interfaces usable, or it fails with that step's error and no registration, proc or debugfs entry, scheduled work, collector or memory is left; a failing status file of an interface does not fail the load, and the load never fails once the device could be opened. Unloading removes everything, and the library is always asked for the osr and for the flags with the ntg1, force_fips and cache_all shortcuts folded in; hwrng_quality is clamped to 1024 and selftest_interval to 30 days; the raw test interface is absent on a locked down kernel.",
     ["configurations", "fault_sequences", "histories"], "all parameter values, every failing step of a load, uses as soon as an interface is registered, unload after any history",
     "Each error path runs only when its step fails during module load.",
     [LK + "mod.c", LK + "hwrng.c", LK + "proc.c", LK + "testing.c", LK + "chardev.c", LK + "selftest.c"],
     [("load and unwinding", LK + "mod.c:jent_mod_init, jent_mod_exit"), ("hwrng", LK + "hwrng.c:jent_hwrng_init, jent_hwrng_exit"), ("proc tree", LK + "proc.c:jent_proc_init")])
prop("D04", "Kernel instances are self-tested on schedule and a failure is final",
     "Every instance of the kernel interfaces runs its own bound self test once per selftest_interval seconds (never when 0) for as long as it exists and has not failed, and on request through the self test ioctl, which needs CAP_SYS_ADMIN and is refused with -EPERM otherwise. Once a run failed, that instance runs no further test, its ioctl returns -EFAULT and it delivers nothing more, while other instances are unaffected; a failure in system FIPS mode stops the machine. The run and failure counters count every executed run of all instances, and nothing runs after its instance is gone.",
     ["histories", "fault_sequences", "schedules"], "all histories of opens, closes, time passing, ioctls and self test failures over several instances",
     "Needs hours of kernel time, several instances and a failing self test.",
     [LK + "selftest.c", LK + "ioctl.h", LK + "chardev.c", LK + "hwrng.c", LK + "kcapi.c"],
     [("schedule and verdict", LK + "selftest.c:jent_selftest_instance_work_fn, jent_selftest_instance_run"), ("capability", LK + "ioctl.h:jent_ioctl_selftest")])
prop("D05", "Kernel status, proc and ioctl reports tell the truth",
     "The status ioctl and the status files return the library's complete status of exactly that instance at that time, NUL-terminated within the given length, or -EOVERFLOW with the needed length and an untouched buffer; the field ioctls return the instance's own identifier, osr, flags, health state, reinitialisation count and output counters; unknown ioctls give -ENOTTY. The proc tree reports the effective configuration (flags, decoded sizes, osr with its minimum, FIPS including NTG.1) and the exact numbers of open and opened instances and self tests, for every history including failed opens and recoveries.",
     ["histories", "inputs", "configurations"], "all histories of instances and requests, all flag values, all buffer lengths",
     "Reports must agree with the state after arbitrary histories; no test runs the kernel interface.",
     [LK + "proc.c", LK + "ioctl.c", LK + "chardev.c", LK + "hwrng.c", LK + "uapi.h"],
     [("proc tree", LK + "proc.c"), ("field ioctls", LK + "ioctl.c:jent_ioctl_field_get"), ("status ioctl", LK + "chardev.c:jent_chardev_ioctl_status")])
prop("D06", "The raw noise test interface records exactly what was measured",
     "For every testing_osr, testing_flags, loop count and read length, each opened raw noise file has an own collector made from the parameters at open time with the health tests on, and a read returns whole 64-bit samples, each the time delta of one measurement of the selected noise source with the file's own loop count, in order and without gaps inside a round, each round of the common source preceded by an unrecorded priming measurement; a short copy or a signal between rounds returns what was copied and moves the position by it, lengths that are no multiple of 8 and loop counts above 32 bits give -EINVAL, and opening on a locked down kernel gives -EPERM. No samples survive in freed memory and no failing path leaks memory or keeps the lock.",
     ["histories", "inputs", "fault_sequences"], "all parameter settings, loop counts, lengths, fault points and histories over several open files",
     "SP800-90B recordings are evidence for certification; no test runs the interface that makes them.",
     [LK + "testing.c", LK + "uapi.h"],
     [("recording", LK + "testing.c:jent_testing_extract_user"), ("open", LK + "testing.c:jent_testing_open"), ("loop count", LK + "testing.c:jent_testing_ioctl_loopcnt")])
prop("D07", "Kernel interfaces are safe under concurrent use, self tests and unload",
     "For every interleaving of reads, ioctls, status files, closes, crypto requests, hwrng reads, self test runs and unload, no two tasks are inside one collector at a time, no collector, lock or context is used after it was freed, no lock is held by a returning operation and no operation deadlocks. A stalled reader of one instance does not block other instances, a large read lets other users of its instance in between chunks, and every operation keeps the result contract it has alone.",
     ["schedules", "histories"], "all interleavings of 2 to 4 tasks and the work queue at locks, user copies and library calls",
     "A race needs one specific interleaving with a close, a running self test or an unload.",
     [LK + "chardev.c", LK + "hwrng.c", LK + "kcapi.c", LK + "selftest.c", LK + "testing.c"],
     [("per-instance lock", LK + "chardev.c:jent_chardev_read"), ("teardown order", LK + "chardev.c:jent_chardev_release; " + LK + "hwrng.c:jent_hwrng_exit; " + LK + "kcapi.c:jent_kcapi_tfm_cleanup"), ("cancel", LK + "selftest.c:jent_selftest_instance_exit")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
