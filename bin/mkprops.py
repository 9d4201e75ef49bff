#!/usr/bin/env python3
"""Single source of properties.jsonl (run: bin/mkprops.py > properties.jsonl)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
Q="include/cler_spsc-queue.hpp"; F="include/cler.hpp"; VM="include/virtual_memory/cler_vmem_posix.hpp"; PL="include/cler_platform.hpp"
prop("C01","Channels deliver every sample exactly once, in order",
 "A channel delivers to its reader exactly the values its writer put in, each once and in write order, no matter which mix of single-element, batch, peek/commit and zero-copy calls either side uses, at which chunk sizes, and how often the ring has wrapped. This holds for every capacity, for stack and heap channels, and for every supported element type.",
 ["schedules","inputs","histories","configurations"],"all interleavings of one writer and one reader; all sequences of channel calls with arbitrary counts; all capacities >= 1 and element types",
 "the unit tests run a few fixed call sequences on a handful of capacities and one two-thread smoke run whose interleaving the OS picks",
 [Q,F],[("release store of the write/read index after the element copy; cached opposite index refreshed with acquire",Q+": push/try_push/pop/try_pop/writeN/readN/commit_*")],
 [("writeIndex/readIndex","ring positions of the two sides",Q),("readIndexCache/writeIndexCache","each side's last view of the other",Q)],
 ["ChannelBase calls and their results"])
prop("C02","Occupancy, space and success results are truthful; whole capacity usable",
 "size, space, empty and the results of every non-blocking call agree with the channel's real contents: a call fails or transfers less than requested only when the ring really is full or empty, and never reports success for what did not happen. A channel constructed for n elements can always hold at least n, and holds exactly its advertised capacity. A blocking push or pop returns as soon as there is room or data.",
 ["schedules","inputs","histories","configurations"],"all call histories, all capacities, all interleavings of the two sides",
 "tests check a few boundary fills on a few capacities and never under concurrency",
 [Q,F],[("full/empty test with one spare slot, capacity rounding to pages",Q+": AdaptiveHeapBuffer ctor, size/space/capacity, try_*")],
 [("capacity_","ring slots = usable capacity + 1",Q)],["return values of channel calls"])
prop("C03","Zero-copy windows expose exactly the channel's logical contents",
 "The window(s) returned for reading hold exactly the oldest unread samples in order, and the window(s) returned for writing are exactly the free slots in order, contiguous across the wrap for double-mapped channels; committing k of them consumes or publishes exactly the first k. This holds for every element type and every buffer size for which the channel reports double mapping, huge buffers included.",
 ["inputs","histories","configurations"],"all window/commit sequences, all ring offsets, all element sizes and buffer sizes",
 "tests use power-of-two sized elements and sizes whose byte count is a page multiple, at a few offsets",
 [Q,VM,PL],[("double mapping of the same pages back to back, ring size equal to the mapping size",VM+": DoublyMappedAllocation::create"),("peek/commit and *_dbf windows",Q)],
 [("capacity_","ring slots; must fill the mapping exactly when double mapped",Q)],["window pointers, sizes and the bytes behind them"])
prop("C04","Channel use by one writer and one reader is race-free under the C++ memory model",
 "With one writer thread and one reader thread, every element read has been completely published before, and no slot is overwritten before its reader is done with it, under the C++ memory model and not only on x86: no execution contains a data race on sample storage or channel state.",
 ["schedules","programs"],"all interleavings, all memory-model behaviours, all pairs of access styles on the two sides",
 "tests run on x86 where the hardware hides missing acquire/release edges, and on whatever schedule the OS gives",
 [Q],[("release/acquire pairs on the two indices",Q)],[("writeIndex/readIndex","publication points",Q)],["happens-before order of the accesses to sample storage"])
prop("C05","Buffer memory is allocated, released and degraded correctly under faults",
 "Whatever operating-system step of setting up double-mapped memory fails, constructing a channel still yields a working channel of the requested capacity (merely not double mapped) and leaks no descriptor or mapping; destroying a channel releases everything it acquired. Element constructors and destructors run in balance for every buffer kind.",
 ["fault_sequences","configurations"],"every fault position in memfd/shm/ftruncate/mmap sequences, all capacities and element types",
 "tests never make a system call fail and never count descriptors, mappings or object lifetimes",
 [VM,PL,Q],[("error paths of create() closing fd/unmapping; heap fallback",VM),("construct/destroy loops",Q+": AdaptiveHeapBuffer")],
 [("mmap_base_, shm_fd_","owned OS resources",VM)],["system calls made, object lifetimes, channel behaviour afterwards"])
prop("C06","Each block is run by one task at a time, and every block is run",
 "While a flowgraph runs, under either scheduler and for every number of workers and blocks, a block's procedure is never executed concurrently with itself, always gets its own output channels, and every block keeps being executed: no block is skipped or starved by the scheduler.",
 ["schedules","configurations","programs"],"all schedules, block counts, worker counts, error patterns",
 "no existing test runs a flowgraph at all",
 [F],[("one task per block, or static partition of the blocks over workers",F+": launch_tasks_impl, FixedThreadPoolScheduler")],
 [("queues/block_owner","partition of the blocks",F)],["procedure enter/exit per task"])
prop("C07","Stop, restart and destruction are complete and orderly",
 "After stop, run_for or destruction of a flowgraph returns, every task it created has finished and been joined exactly once and no block procedure runs any more; stop is idempotent and safe before any run. run_for lasts at least the requested time, a stopped graph can be run again under any configuration and behaves as freshly started, and is_stopped is true exactly from the moment a stop was requested until the next run.",
 ["schedules","histories","configurations"],"all interleavings of lifecycle calls with running blocks, all sequences of run/stop/run_for",
 "no existing test runs or stops a flowgraph",
 [F,"include/task_policies/cler_desktop_tpolicy.hpp"],[("stop flag + join of the active tasks",F+": run, stop, run_for, ~FlowGraph")],
 [("_stop_flag, _active_task_count","lifecycle state",F)],["task create/join, procedure enter/exit, lifecycle call returns"])
prop("C08","Fatal errors stop the whole graph; other errors never do",
 "When any block returns a fatal error the whole flowgraph stops: the termination callback, if set, is invoked with the registered context by the failing task, no task starts another procedure except those already past their stop check, and that block is not run again. A non-fatal error of any kind never stops the graph, never invokes the callback, and the block is retried.",
 ["schedules","fault_sequences","configurations"],"all error codes at all call positions, both schedulers, all schedules",
 "no existing test makes a block fail inside a flowgraph",
 [F],[("is_fatal classification, stop flag store, callback",F+": run_block_at_index_thread_per_block, execute_block_at_index_helper")],
 [("_stop_flag","set by the failing task",F)],["procedure results, callback invocations, subsequent procedure calls"])
prop("C09","Micro-batching bound and round-robin service",
 "A task runs a block at most the configured number of times in a row before giving other blocks of its worker their turn, ends the burst at the first error of any kind (backing off before the retry after a non-starvation error, and after starvation when adaptive sleep is on), and a worker serves its blocks in a fixed cyclic order so that between two bursts of one block every other block of that worker gets exactly one.",
 ["schedules","configurations","histories"],"all batch sizes, error patterns, partitions",
 "no existing test observes scheduling",
 [F],[("max_calls_per_tick loop, get_next_block cursor",F)],[("current","cursor of a worker",F)],["per-task sequence of procedure calls, relax and sleep"])
prop("C10","Adaptive sleep follows its configured policy",
 "With adaptive sleep enabled a block's task sleeps only after more than the threshold of consecutive starved calls, starts at one microsecond, grows by the configured multiplier (within the documented 10% jitter), never exceeds the configured maximum, and halves its sleep state after success, with one block's history never affecting another's. With it disabled no task ever adaptively sleeps.",
 ["histories","configurations"],"all success/failure histories, all thresholds, multipliers and maxima, both schedulers",
 "no existing test touches adaptive sleep",
 [F],[("handle_adaptive_sleep",F)],[("consecutive_fails, current_adaptive_sleep_us","per-block sleep state",F)],["sleep requests to the task policy, published per-block sleep state"])
prop("C11","Execution statistics are exact",
 "With detailed statistics on, after a run has stopped each block's success and failure counts equal the number of successful and failed procedure calls made during that run, names match, dead time lies between zero and the runtime, and the runtime covers the run, under either scheduler and however the run ended. With statistics off no counter changes.",
 ["schedules","histories","configurations"],"all run endings, schedulers, error patterns, repeated runs",
 "no existing test reads execution statistics",
 [F],[("local counters flushed at task exit, or per-call counters in the pool",F)],[("BlockExecutionStats","published counters",F)],["stats() after stop versus procedure calls observed"])
prop("C12","Flowgraph results do not depend on scheduling",
 "What reaches the sinks of a flowgraph of deterministic blocks is always a prefix of one fixed stream determined by the sources and blocks alone, whatever the scheduler type, worker count, batch size, channel capacity or interleaving; nothing is lost, duplicated or reordered at any hop, and as long as the graph runs the streams keep advancing.",
 ["schedules","configurations","programs"],"all schedules, scheduler configurations, channel capacities and topologies (chains, fan-out, fan-in)",
 "no existing test runs blocks inside a flowgraph",
 [F,Q,"desktop_blocks/math/add.hpp","desktop_blocks/math/gain.hpp","desktop_blocks/utils/fanout.hpp","desktop_blocks/utils/throughput.hpp"],
 [("SPSC channels between exclusively scheduled blocks",F)],[],["values arriving at sinks"])
prop("C13","Sample-wise blocks conserve and align samples under any back-pressure",
 "Every sample-wise block (add, gain, complex split, frequency shift, noise, fan-out, throughput meter, throttle, discard sink) maps its i-th input sample(s) to the i-th sample of every output, consuming exactly as many samples from each input as it produces on each output; when inputs run dry or any output is full it stops early without dropping, duplicating or misaligning anything, and reports starvation rather than fabricating data.",
 ["inputs","histories","configurations"],"all call histories with arbitrary input arrivals, output space, buffer sizes, element types, numbers of ports",
 "tests feed one or two chunks with ample space",
 ["desktop_blocks/math/add.hpp","desktop_blocks/math/gain.hpp","desktop_blocks/math/complex_demux.hpp","desktop_blocks/math/frequency_shift.hpp","desktop_blocks/noise/awgn.hpp","desktop_blocks/utils/fanout.hpp","desktop_blocks/utils/throughput.hpp","desktop_blocks/utils/throttle.hpp","desktop_blocks/sinks/sink_null.hpp"],
 [("transfer min(available, space) and commit the same count everywhere","desktop_blocks/math/*.hpp, desktop_blocks/utils/*.hpp")],[],["samples in and out of each procedure call"])
prop("C14","Stateful signal blocks are independent of chunking",
 "The output stream of every stateful block (resampler, low-pass filter, FM demodulator, polyphase channelizer, tone and chirp sources) is a function of its input stream alone: however calls chunk the input and however little output space each call finds, the concatenated output equals the one obtained by processing the whole stream at once with the same parameters, no sample lost, repeated or computed from stale state.",
 ["inputs","histories","configurations"],"all chunkings and back-pressure patterns, parameter choices, ratios",
 "tests process one or two blocks with plentiful space and check gross statistics",
 ["desktop_blocks/resamplers/multistage_resampler.hpp","desktop_blocks/filters/kaiser_lpf.hpp","desktop_blocks/fm/fm_demod.hpp","desktop_blocks/channelizers/polyphase_channelizer.hpp","desktop_blocks/sources/source_cw.hpp","desktop_blocks/sources/source_chirp.hpp"],
 [("filter/oscillator state carried across calls; consumed and produced counts tied to the space found","the blocks' procedure()")],[],["input and output streams across procedure calls"])
prop("C15","File sinks and sources are lossless",
 "A file sink's file, once the sink is destroyed, holds exactly the samples the sink consumed, in order; a failed write is reported as fatal and nothing unwritten is silently discarded. A file source delivers exactly the file's whole samples in order, repeats the whole file seamlessly when asked to, and otherwise delivers nothing after the end and announces it exactly once.",
 ["inputs","histories","fault_sequences"],"all file sizes (empty, partial trailing sample), chunkings, write faults",
 "tests write one short buffer and read it back",
 ["desktop_blocks/sinks/sink_file.hpp","desktop_blocks/sources/source_file.hpp"],
 [("fwrite of the read window then commit; read into the write window, rewind at EOF","procedure()")],[],["file bytes, samples delivered, callback calls"])
prop("C16","Pooled buffers are owned by exactly one holder",
 "A slab hands out each slot to at most one holder at a time, the slots' regions never overlap and have the promised size, available plus held slots always equals the capacity, exhaustion is reported as an error, and a released slot becomes available again; this also holds when slots are taken by one thread while others release them.",
 ["schedules","histories","configurations"],"all take/release histories and interleavings, all pool sizes",
 "no existing test covers pooled buffers",
 ["desktop_blocks/blob.hpp","desktop_blocks/blob.cpp"],[("free list of slot numbers","desktop_blocks/blob.cpp")],[("_free_slots","slots nobody holds","desktop_blocks/blob.hpp")],["take_slot/release results, region addresses"])
prop("C17","Datagram blocks deliver every accepted datagram intact, once, in order",
 "A datagram sink sends one datagram per sample, with exactly that sample's bytes and in order; a datagram source emits exactly the datagrams that arrive whole and pass validation, in arrival order and byte-exact, invoking its callback once for each. Rejected, empty or oversized datagrams never corrupt, displace or discard accepted ones, and pooled buffers are always given back. An address that names no endpoint (for IP no port or not a number from 0 to 65535, for a sink no IP address; for UNIX sockets a path that is too long), or whose socket cannot be set up, is refused at construction and leaves nothing open.",
 ["inputs","fault_sequences","histories"],"all datagram sequences (valid, rejected, empty, oversized, short), receive errors, back-pressure",
 "no existing test covers the socket blocks",
 ["desktop_blocks/udp/source_udp.hpp","desktop_blocks/udp/sink_udp.hpp","desktop_blocks/udp/shared.cpp","desktop_blocks/blob.cpp"],
 [("receive loop, validation, slot recycling","desktop_blocks/udp/source_udp.hpp")],[],["datagrams sent/received, samples emitted, free slots"])
prop("C18","Task policies honour the create/join contract on every platform",
 "On every supported platform policy, creating a task runs the given function exactly once on its own task, joining returns only after that function has finished and then releases what the task used, and this still holds when the task handle is moved or stored elsewhere between creation and join.",
 ["schedules","programs","histories"],"all interleavings of task completion with handle moves and joins",
 "no existing test covers the task policies; the embedded examples are only compiled",
 ["include/task_policies/cler_desktop_tpolicy.hpp","include/task_policies/cler_freertos_tpolicy.hpp","include/task_policies/cler_threadx_tpolicy.hpp","include/task_policies/cler_zephyr_tpolicy.hpp"],
 [("completion semaphore given by the task, taken by join","include/task_policies/*")],[],["task start/finish/join/cleanup order, OS object lifetimes"])
prop("C19","The throttle never exceeds its rate and does not drift",
 "However calls are spaced, a throttle releases its samples no faster than its configured rate (to the clock's resolution, and never more than one sample ahead of its schedule) over any window, keeps the long-run average at the configured rate while supplied, never delays a sample by more than one interval when it is on schedule, and after falling behind resumes without bursting to catch up.",
 ["histories","inputs"],"all arrival and call-time patterns",
 "the one test measures a single steady run with a loose tolerance",
 ["desktop_blocks/utils/throttle.hpp"],[("next tick = previous tick + interval, or now when late","desktop_blocks/utils/throttle.hpp")],[("_next_tick","time before which the next sample may not follow","desktop_blocks/utils/throttle.hpp")],["release times under a virtual clock"])
prop("C20","Plots show a consistent recent view without disturbing the stream",
 "Whatever a plot block shows in a frame is, for all of its inputs alike, the same recent stretch of samples it consumed, paired with the right times or frequencies: a time plot shows the newest window, a spectrum the (averaged) transform of the newest FFT-size samples, a spectrogram one row per consecutive FFT-size block, newest first. Every call consumes the same number of samples from each input, nothing while paused, and a frame drawn by the GUI thread while the graph thread is consuming never shows torn, mixed or misaligned data.",
 ["schedules","histories","configurations"],"all call histories, uneven supplies, frame times relative to calls, pauses, window/FFT sizes",
 "the plot blocks have no tests; examples only open windows",
 ["desktop_blocks/plots/plot_timeseries.hpp","desktop_blocks/plots/plot_cspectrum.hpp","desktop_blocks/plots/plot_cspectrogram.hpp"],
 [("ring of recent samples filled by procedure, snapshot under a lock by render","desktop_blocks/plots/*.cpp, *.hpp")],[],["samples consumed per call, arrays handed to ImPlot per frame"])
prop("C21","Device blocks stream faithfully and own their device",
 "A block that talks to a radio or sound card applies the requested settings before it starts streaming, passes every sample the device gives or is given exactly once, in order and converted faithfully (all channels of one transfer aligned), counts what it must drop or misses, treats a short or empty transfer as try-again and a device error as fatal, and releases everything it acquired, in the right order, when it is destroyed or when its construction fails at any step.",
 ["fault_sequences","histories","schedules","configurations"],"all failure points during construction, all transfer sizes, timeouts, overflows and errors, callback timing",
 "no existing test touches the device blocks: they need hardware",
 ["desktop_blocks/sources/source_hackrf.hpp","desktop_blocks/sinks/sink_hackrf.hpp","desktop_blocks/sources/source_soapysdr.hpp","desktop_blocks/sinks/sink_soapysdr.hpp","desktop_blocks/sinks/sink_audio.hpp","desktop_blocks/sources/source_cariboulite.hpp","desktop_blocks/sources/source_uhd.hpp","desktop_blocks/sinks/sink_uhd.hpp"],
 [("constructor acquires and configures, destructor stops and releases","desktop_blocks/sources, desktop_blocks/sinks"),("procedure moves one transfer between device and channel","same files")],[],["calls made to the device library, samples on the channels, result of each call"])
prop("C22","Audio files are played whole, exactly once",
 "The audio file source delivers the audio of its file, decoded, mixed to one channel and resampled to the requested rate, each sample once and in order, down to the last one, however little room the output has at each call; it announces the end once (by its callback or a terminating error) and only after everything was delivered, or starts again from the beginning when it repeats; it refuses files it cannot play, and whether construction succeeds or fails everything it opened is released.",
 ["inputs","histories","fault_sequences"],"all files, formats, channel counts and rates, all sequences of output room, construction failures at every step",
 "no existing test builds this block",
 ["desktop_blocks/sources/source_audio_file.hpp"],
 [("constructor opens container, decoder and resampler","desktop_blocks/sources/source_audio_file.hpp"),("procedure decodes, resamples, flushes and announces","desktop_blocks/sources/source_audio_file.hpp")],[],["samples on the output channel, result of each call, callback, files and memory held"])
prop("C23","ADS-B messages are found, decoded and aggregated faithfully",
 "Whatever chunks the samples arrive in and however little room the output has, the ADS-B decoder delivers every Mode S message on the air that is intact (or has one wrong bit, at 2 MHz), exactly once, in order, passing the format filter, and nothing else; its fields are those the standard places in the bits, and what a message does not carry is not made up; replies that carry their address in the parity are accepted only from aircraft heard in the last 60 seconds. The aggregator's table is the fold of the messages received (latest identification, altitude, velocity; positions located by an even and an odd frame at most ten seconds apart), the callback is told every change, and other threads may look at the table or draw it at any time.",
 ["inputs","histories","schedules"],"all messages, chunkings, output rooms, bit errors, clock values, reader schedules",
 "no existing test touches the ADS-B blocks",
 ["desktop_blocks/adsb/adsb_decoder.hpp","desktop_blocks/adsb/adsb_aggregate.hpp","desktop_blocks/adsb/adsb_coastline_loader.hpp","desktop_blocks/adsb/modes.c","desktop_blocks/adsb/modes_2400.c","desktop_blocks/adsb/cpr.c"],
 [("detector slides over magnitude samples, decodes and checks parity","desktop_blocks/adsb/modes.c, modes_2400.c"),("aggregator folds messages into a table and locates positions","desktop_blocks/adsb/adsb_aggregate.hpp, cpr.c")],[("aircraft table","state per address","desktop_blocks/adsb/adsb_aggregate.hpp"),("recently heard addresses","address and time","desktop_blocks/adsb/modes.c")],["messages delivered, their fields, table, callbacks, frame drawn"])
prop("C24","The logger keeps every line it acknowledged",
 "Every message logged from any thread at or above the level, while a log file is set, is in the log once, whole, with its time and level, in an order that respects the order of the calls; it disappears only by rotation, as part of the oldest backup, when the configured number of backups of at least the configured size is full. Rotation, resets to another file, closing, files left by an earlier run, and a log directory that disappears never lose, duplicate, tear or misplace another line, crash, or leak a file (a backup name that is obstructed only shortens the history kept); starting, resetting and verifying report what happened; any of these may be called from several threads.",
 ["inputs","histories","schedules","fault_sequences"],"all histories of calls, sizes and backup counts, thread interleavings, obstacles in the file system",
 "no existing test touches the logger",
 ["desktop_logger/desktop_logger.cpp","desktop_logger/desktop_logger.hpp"],
 [("the output callback checks the size, shifts the backups and writes under one mutex","desktop_logger/desktop_logger.cpp: zf_output_callback, rotate_log_files"),("start, reset, close and verify replace or inspect the file under the mutex","desktop_logger/desktop_logger.cpp")],[("log file, path, rotation configuration","globals guarded by log_mutex","desktop_logger/desktop_logger.cpp"),("files","lines in the log and its numbered backups","the file system")],["contents of the log and backups, standard output, return codes, open descriptors"])
prop("C25","Bursts leave the modulator whole and are reported once each, in order",
 "The burst modulator turns every blob handed to it into exactly one transmission: alternating preamble, the data bits most significant first, then the tail, a continuous-phase signal that an ordinary GMSK receiver reads back; transmissions follow the order of the blobs, are never split, repeated or skipped whatever room the output offers, one that fits is sent, and each blob's buffer is given back exactly when its transmission has been handed on. The burst demodulator reports every clean transmission it hears exactly once and in order: preamble, sync word, header, and, when the application accepts the announced length, the payload bytes as sent; a transmission with a damaged sync word or a rejected length does not disturb the ones after it; and what is reported, and at which sample, does not depend on how the samples were cut into calls.",
 ["inputs","histories"],"all blobs, slab sizes, output room, modem parameters within the usable range, frames, gaps and chunkings of the samples",
 "no existing test touches the burst modem",
 ["desktop_blocks/ezgmsk/ezgmsk_mod.hpp","desktop_blocks/ezgmsk/_ezgmsk_mod.c","desktop_blocks/ezgmsk/ezgmsk_demod.hpp","desktop_blocks/ezgmsk/_ezgmsk_demod.c"],
 [("a frame is assembled, fitted into the window, executed, and only then the blob is released and consumed","desktop_blocks/ezgmsk/ezgmsk_mod.hpp: procedure"),("every way out of a frame resets the receiver; the sync search is bounded","desktop_blocks/ezgmsk/_ezgmsk_demod.c")],[("modulator state","preamble, data, tail and counters","desktop_blocks/ezgmsk/_ezgmsk_mod.c"),("demodulator state","detect, sync word, header, payload and counters","desktop_blocks/ezgmsk/_ezgmsk_demod.c")],["samples written, slots available, callbacks with their sample counts and bytes"])
prop("C26","What is configured is what runs, and names, results and reports say what is so",
 "A graph runs with the configuration it was given (or the documented defaults when none was given) and reports that configuration: one task per block, or a pool in which every block belongs to one of at most the configured number of workers and no worker has more than its even share; with pinning on each pool worker is pinned once, to a core of its own, before it serves a block, and with pinning off nobody is. The execution report shows that configuration and, per block, the name, success rate, utilisation and time per call that follow from its statistics, and refuses while the graph runs. Error codes at or above the terminating one, and only they, are fatal; each error has a name of its own. A result holds exactly the value or the error put into it and refuses to be read as the other. Bounded strings hold the longest prefix that fits under construction, copy, assignment and concatenation, and never touch memory outside. Power-of-two helpers are exact for every word-sized number.",
 ["inputs","histories","schedules"],"all configurations, graph sizes and run histories; all error codes, texts, numbers and result values",
 "tests run one or two configurations and do not look at who runs what, and touch none of the helpers' edges",
 ["include/cler.hpp","include/cler_utils.hpp","include/cler_desktop_utils.hpp","include/cler_embeddable_string.hpp","include/cler_result.hpp","include/virtual_memory/cler_vmem_none.hpp"],
 [("contiguous grouping of blocks over workers; pinning at the start of a worker","include/cler.hpp: FixedThreadPoolScheduler, run_fixed_thread_pool_worker"),("append cuts at the capacity; Result is a variant of value and error","include/cler_embeddable_string.hpp, include/cler_result.hpp")],[("configuration","FlowGraphConfig of the last run","include/cler.hpp"),("worker queues","blocks of each worker","include/cler.hpp")],["tasks, procedure calls, pin calls; printed report; helper return values"])
prop("C27","A diagram shows exactly the graph its program declares",
 "The diagram tool shows a program's flowgraph as it is: every block the program declares and a runner mentions is drawn exactly once, under a name of its own, with its type and template arguments, as a source, a sink or in between according to its connections; every connection named by a runner is drawn exactly once, from the runner's block to the target's block, and nothing else is drawn, wherever the declarations, comments and unrelated code stand. A graph that mentions a block nobody declared is refused with the name of that block; blocks that take no part are reported as warnings. On the command line every file is judged by itself: files without a flowgraph are skipped, a file that cannot be read, parsed or written counts as failed and makes the tool exit non-zero, the others are written to the name that was asked for or derived, the summary counts add up, and the syntax trees are all released.",
 ["inputs"],"all programs within the supported ways of declaring blocks and runners; all lists of files and options",
 "no existing test touches the diagram tool",
 ["tools/mermaid/src/cpp_parser.cpp","tools/mermaid/src/flowgraph.cpp","tools/mermaid/src/mermaid_renderer.cpp","tools/mermaid/src/main.cpp"],
 [("walk of the syntax tree: declarations of types containing Block, calls of BlockRunner and make_*_flowgraph; equal connections are kept once","tools/mermaid/src/cpp_parser.cpp"),("validation, sources and sinks","tools/mermaid/src/flowgraph.cpp"),("nodes, edges and styles of the chart","tools/mermaid/src/mermaid_renderer.cpp"),("per-file verdict and exit status","tools/mermaid/src/main.cpp")],[("FlowGraph","blocks, connections, warnings, verdict","tools/mermaid/src/flowgraph.h")],["FlowGraph returned by the parser; text of the chart; exit status, summary and files of the tool"])
prop("C28","The window is set up whole, draws every frame once and gives everything back",
 "The GUI window has the size and exactly the title asked for and a usable OpenGL context; a constructor that fails at any step throws and leaves nothing behind, and one that returns has the whole set of libraries running. Every frame between begin and end polls events, is begun in all three layers, rendered, drawn over a cleared area of the window's current size and presented exactly once. should_close says what the window says, without delay. Destruction gives back every library and context exactly once, in an order in which none is used after what it depends on is gone, so that another window can follow.",
 ["fault_sequences","histories","inputs"],"all sizes and titles, failures of any set-up step, sequences of frames, resizes, close requests and windows one after another",
 "no existing test opens a window",
 ["desktop_blocks/gui/gui_manager.cpp","desktop_blocks/gui/gui_manager.hpp"],
 [("set-up and unwinding in the constructor, reverse order in the destructor","desktop_blocks/gui/gui_manager.cpp"),("frame order","desktop_blocks/gui/gui_manager.cpp: begin_frame, end_frame")],[("GuiManager","window and library contexts","desktop_blocks/gui/gui_manager.hpp")],["calls made to GLFW, OpenGL, Dear ImGui and ImPlot; answers of should_close; exceptions"])
if __name__=="__main__":
    for p in P: print(json.dumps(p,ensure_ascii=False))
