TV = "TLA+/TLC: trace validation of the real FlowGraph against Flow"
LN = "Real FlowGraphs (1-13 blocks, both schedulers, random configurations and error patterns) run under a controlled scheduler with virtual time and happens-before race detection; every recorded event must be a step of Flow, and a hang, crash or race is an event without a step. A statement-level model of the scheduler (FlowImpl) is exhausted by TLC for small graphs against the same Flow rules. Bounded by the sampled schedules and configurations."
NOTES = {
 "C06": (TV + " (exclusive execution, service); exhaustive model FlowImpl; bounded DFS over schedules", LN),
 "C07": (TV + " (lifecycle), scripts covering every edge of MCLife; exhaustive model FlowImpl with termination", LN),
 "C08": (TV + " (fatal errors); exhaustive model FlowImpl", LN),
 "C09": (TV + " (bursts, cyclic order); exhaustive model FlowImpl", LN),
 "C10": (TV + " (adaptive sleep); exhaustive model FlowImpl", LN + " Growth is checked to within a nanosecond plus the 10% jitter."),
 "C11": (TV + " (statistics); exhaustive model FlowImpl", LN),
 "C12": ("TLA+/TLC: trace validation of the real FlowGraph + blocks against Kahn (stream functions); exhaustive model KahnImpl", "Random acyclic graphs of library and harness blocks run under both schedulers with controlled schedules; what every sink received must extend the prefix of the denotational stream TLA+ computes, and the run must advance. Bounded by the sampled graphs and schedules."),
 "C13": ("TLA+/TLC: trace validation of the real blocks against Pointwise", "Each block is driven with random/extreme space and supply, every sample type, custom and library channels, and concurrently with a producer and consumer under race detection; every call's consumed and produced samples must be a step of the pointwise map. Bounded by sampled sequences."),
 "C19": ("TLA+/TLC: trace validation of the real throttle in virtual time against Throttle; exhaustive model ThrottleImpl", "The throttle runs in virtual time with late wake-ups, idle gaps, missing input or output space and preemption; each release must fit the schedule TLA+ keeps (never early; never later than one interval after the schedule when supplied). Checked to the clock's 1 ns resolution plus 3 us of processing; one sample may be released at once after falling behind. Bounded by the sampled rates and histories."),
 "C16": ("TLA+/TLC: trace validation of the real Slab against Slab, call scripts covering every edge of its state graph; exhaustive model of take/release from several threads", "Real slabs (1-64 slots, many slot sizes, with and without assertions) are driven through every edge of the small state graphs, random histories, and scheduled multi-thread take/release runs with race detection; recorded pointers must be distinct, disjoint and inside. Bounded by sampled histories and schedules."),
 "C17": ("TLA+/TLC: trace validation of the real UDP blocks against Datagram", "The real source and sink blocks run against scripted socket calls (short, empty, oversized, missing, failing datagrams, validation callbacks, small outputs, small slabs); each call's samples, callbacks and slot counts must be a step of the datagram model. Construction with good and bad addresses and failing socket/bind calls must be accepted or refused as the model says, with no descriptor left. Real kernel sockets are exercised only on loopback. Bounded by sampled scripts."),
 "C15": ("TLA+/TLC: trace validation of the real file blocks against FileIO; exhaustive model of the sink on a failing buffered stream (FileImpl)", "The real source and sink run on real files of many sizes and sample sizes with varying window space; reads fail, are cut short or interrupted, writes hit a file size limit at chosen bytes or a full device, also at destruction; the file and the calls must be a run of FileIO. Also source->sink graphs under controlled schedules. Bounded by sampled runs; close() failures are not injected."),
 "C18": ("TLA+/TLC: trace validation of the real task policies on strict stand-in kernels against Policy; exhaustive model PolicyImpl", "All four policies run on stand-in ThreadX, FreeRTOS and Zephyr kernels (and the real std::thread policy) under a controlled scheduler with race detection; handles are stored, moved and overwritten between create and join, kernel calls fail, functions outlast waits; every use of a kernel object, stack or task memory must be a step of Policy. The stand-in kernels are written from the public APIs, not the real kernels."),
 "C14": ("TLA+/TLC: trace validation of the real signal blocks against Stream, call scripts covering every edge of its state graph; exhaustive model StreamImpl of carry-over between calls", "Resamplers, filters, FM demodulator, channelizer and oscillators are driven under random and enumerated chunkings, back-pressure and supply, sequentially and next to a producer and consumer; what is delivered must be the prefix of one function of the whole input that TLA+ keeps (reference: the signal library over the unchunked input, closed form for the oscillators, fixed-point integers within a tolerance)."),
 "C20": ("TLA+/TLC: trace validation of the real plot blocks against Plots; exhaustive model PlotsImpl of the graph and GUI threads", "The real plot blocks run against recording stand-ins of ImGui/ImPlot, sequentially and with the GUI on a second scheduled thread (pauses, hidden windows, alpha changes, uneven supply, with and without double mapping); every frame must show, for all inputs alike, one window / spectrum / block row set of samples consumed by then. Spectra are compared with an independent transform within 0.06 dB, bins 60 dB below the peak are not. Bounded by sampled histories and schedules."),
 "C21": ("TLA+/TLC: trace validation of the real device blocks against Device; exhaustive model DeviceImpl of construction, streaming and teardown with failures at every step", "The real HackRF, SoapySDR, PortAudio, CaribouLite and UHD blocks run against stand-in device libraries (own headers for HackRF, UHD and CaribouLite written from their public APIs; the installed SoapySDR library with a driver registered in-process; the installed PortAudio header) which inject failures at every construction step, short transfers, timeouts, overflows and errors; HackRF also with its transfer thread as a scheduled fiber with race detection. No hardware timing. Bounded by sampled histories."),
 "C22": ("TLA+/TLC: trace validation of the real audio file source against AudioFile; exhaustive model AudioImpl of decode, resample, flush and announce under every output room", "The real block, built with AddressSanitizer, plays files written by the harness with the installed FFmpeg libraries (PCM, FLAC, ALAC, Vorbis, AAC, ... in WAV, MOV, Matroska, Ogg), with one or more streams and channels, damaged and truncated files, files that are not audio; expected samples come from decoding and resampling the whole file with FFmpeg at once, and for lossless mono files at the same rate from the samples encoded. Bounded by sampled histories."),
 "C23": ("TLA+/TLC: trace validation of the real ADS-B blocks against ModeS (bits, parity, fields) and Aircraft (table, position reporting in integers); exhaustive model ModeSImpl of the chunked detector", "The real decoder, built with AddressSanitizer and pattern-initialised locals, hears transmissions modulated by the harness at 2 and 2.4 MHz with bit errors, noise below 2% and every chunking; the specification recomputes parity, repair, acceptance and every field from the transmitted bits. The aggregator is fed messages of simulated aircraft and compared field by field, positions against an integer decoder and the true position; concurrent readers run on the scheduled runtime with race detection. Not modelled: two-bit repair (off by default), metric and Gillham altitudes, weak or overlapping signals, zoom and pan. Bounded by sampled histories."),
 "C24": ("TLA+/TLC: trace validation of the real logger's files against Logger; exhaustive model LoggerImpl of check-shift-reopen-write with refuted unlocked and shift-up variants", "The real logger (with the vendored zf_log) runs over real files in a scratch directory under AddressSanitizer: random histories of start, reset, verify, close, rotation settings, levels, messages, with files of an earlier run, directories in the way of backups and vanishing log directories; the specification computes the exact contents of every file, standard output and the open descriptors. Concurrent histories run on the scheduled runtime with race detection and are judged against the real-time order of the calls. Not modelled: messages longer than zf_log's buffer, disk-full errors, the global level changed while other threads log (vendored, unsynchronised). Bounded by sampled histories; the model is exhaustive for 3 threads, 3 lines each, 2 backups."),
 "C25": ("TLA+/TLC: trace validation of the real burst modem blocks against Gmsk; exhaustive model GmskImpl of early detection, bounded sync search, header and payload with refuted short-window and stale-counter variants", "The real modulator and demodulator (their C sources compiled as C with AddressSanitizer) run over random blobs, slabs, output rooms, modem parameters and frames; the modulator's samples are read back with the signal library's receiver and compared bit by bit, the demodulator hears frames modulated by the signal library with damaged sync words and rejected lengths, cut two different ways. Receiver parameters are restricted to where the unmodified detector is reliable without noise (threshold 0.9, BT 0.5, at least 3 samples per symbol, preamble of 32 symbols or more, no carrier offset). Reported signal strength is not checked. Bounded by sampled histories."),
 "C26": ("TLA+/TLC: trace validation of real flowgraphs under a controlled scheduler against Flow with rule conf, and of reports, results, strings and number helpers against Util", "Real graphs of 1-26 blocks run with random configurations, defaults, pinning and repeated runs under a controlled scheduler; which task serves which block, pin calls and the reported configuration must be steps of Flow. Reports of real desktop graphs are parsed and compared with configuration and statistics; strings (capacities 1-200, AddressSanitizer), results over several types, all error codes, presets and 64-bit numbers against Util. Bounded by sampled histories."),
 "C27": ("TLA+/TLC: trace validation of the real parser, validator, renderer and command line tool against Diagram; exhaustive model DiagramImpl of the double walk with refuted variants", "Programs and their syntax trees are generated together (the C++ grammar is not installed here, so a stand-in for the tree library hands the generated tree to the real parser); the resulting graph, the chart read back, and the tool's exit status, summary and files over several input files must be what Diagram derives from the declarations and runners. Node types follow the C++ grammar of tree-sitter; declarations that grammar reads as functions, qualified block types and default-constructed blocks are out of scope. Bounded by sampled programs."),
 "C28": ("TLA+/TLC: trace validation of the real GuiManager's library calls against GuiWin; exhaustive model GuiWinImpl with any step failing and refuted variants", "GLFW, OpenGL and ImGui are stand-ins that record every call and fail where the script says; the real libraries and a display are not available. One window at a time (GLFW is process-wide). Bounded by sampled histories."),
}
NA = {}
