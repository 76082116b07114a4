EX = "Sampled, not exhaustive: absence of a violation holds for the cases generated (counts and samples in the evidence). "

prop("T01", "Raw timestamp files are decoded exactly",
     "Reading a raw timestamp file in any of its formats (hexadecimal text in two layouts, binary in either word order) yields every event of the file, in file order, with its 54-bit time and 4-bit detector pattern exactly as stored. This holds in every time unit: fractional readings lose nothing down to 1/256 ns, whole-unit readings are the time rounded down. Flag bits beside the pattern never leak into time or pattern, and a binary file cut inside an event yields its complete events or is refused.",
     ["inputs"], "every file content (any number of events including none and one, any 64-bit event word), format, word order, unit and fractional setting",
     "The tests read recorded data files that are absent here and compare types; precision losses only show for particular magnitudes (beyond 53 bits, top bit set) and sizes (0 or 1 events).",
     [TS], [("read_a0/read_a1/read_a2, _format_timestamps", TS)],
     "property-based testing (Hypothesis) against a reference decoder",
     EX + "Trusts the reference encoder (60 lines, written from the format description) and the project's own interpreter and numpy.", ["arrays returned by the readers"])
prop("T02", "Raw timestamp files are written exactly as given",
     "Writing events to a raw timestamp file produces exactly the bytes the format specifies for those events, whatever numeric container and unit the times are in, and replaces whatever the file held before. Reading any file and writing it back in any format therefore preserves every event.",
     ["inputs"], "every event list, output format and word order, unit, and numeric container able to represent the times",
     "No test writes raw timestamp files; rounding through a narrower type or a wrong word order shows only for particular magnitudes.",
     [TS], [("_consolidate_events, write_a0/write_a1/write_a2", TS)],
     "property-based testing against a reference encoder, and read-write round trips",
     EX + "Trusts the reference encoder.", ["bytes of the written file"])
prop("T03", "Streaming access equals whole-file access",
     "Reading a raw timestamp file in blocks of any size yields the same events, in the same order and representation, as reading it at once, in exactly the announced number of blocks, all but the last of them full. Writing a stream of blocks of any sizes, empty ones included, produces the same file as writing the concatenated events.",
     ["inputs", "configurations"], "every file, format, unit, block size and partition into blocks",
     "No test streams; block-boundary errors need file sizes around a multiple of the block size.",
     [TS], [("sread_a0/sread_a1/sread_a2", TS), ("swrite_a0/swrite_a1/swrite_a2", TS)],
     "property-based differential testing of streaming against whole-file access and a reference",
     EX + "Files of up to about 200 000 events; block sizes from one event up.", ["blocks delivered", "bytes written"])
prop("T04", "The converter command preserves exactly the selected events",
     "Converting a raw timestamp file on the command line writes exactly the events selected by the pattern and time filters (all of them without filters), in order, encoded in the requested format, identically in streaming and in-memory mode. The input file is never modified, an older output file is fully replaced, and converting a file onto itself is refused or leaves the full result. An invocation without a readable input or without a destination fails without creating anything.",
     ["inputs", "configurations"], "every input file, pair of formats, filter combination and processing mode; chains of conversions",
     "No test runs the converter; filters, formats, modes and multi-block files multiply beyond hand-written examples.",
     [TS], [("main: event_filter, inline_filter, reader/writer selection", TS)],
     "property-based testing of the command line against reference filters and encoders",
     EX + "Time bounds are multiples of 1/512 s so that they are exact in every representation.", ["bytes of the output file"])
prop("T05", "Detector-pattern selection follows its four documented modes",
     "Selecting by exact pattern keeps (or, inverted, drops) exactly the events with that pattern. Selecting by bit mask keeps exactly the events having a masked bit, reduced to the masked bits; inverted, it removes the masked bits and drops exactly the events left without a bit, while events that had none to begin with are kept.",
     ["inputs"], "every pattern array, pattern, and mode",
     "Only documentation examples over nine patterns and one mask exist, and they are not run by the tests.",
     [TS], [("get_pattern_mask", TS)], "property-based testing against a reference selection",
     EX + "4-bit patterns.", ["selection mask and resulting patterns"])
prop("T06", "Time-window selection is inclusive and exact",
     "Selecting a time window keeps exactly the events whose time lies between start and end, both inclusive; a missing bound is unlimited and a window that is reversed or outside the data selects nothing. The outcome does not depend on the unit or numeric container of the times.",
     ["inputs"], "every chronological event list, window, unit and container",
     "Only documentation examples over four times exist; boundary and precision errors need events on a bound and large times.",
     [TS], [("get_timing_mask", TS)], "property-based testing against exact rational comparison",
     EX + "Events closer to a bound than double precision resolves are not judged; bounds that are multiples of 1/512 s are exact.", ["selection mask"])
prop("T07", "The statistics report describes the events",
     "The report's total, per-channel, multi-channel and no-channel counts, duration, first and last time and pattern list are those of the (filtered) events, in streaming and in-memory mode alike and for any block size. A report is produced for every readable file, including empty ones, single events and filters that leave nothing.",
     ["inputs", "configurations"], "every input file, filter, mode and block size",
     "No test prints statistics; aggregation across blocks and degenerate inputs are untested.",
     [TS], [("print_statistics, print_statistics_stream, print_statistics_report", TS)],
     "property-based testing of the report against a direct count",
     EX + "Times compared within 2 ns, the printed precision.", ["printed report"])
prop("T08", "Streaming holds a few blocks, however long the file",
     "Streaming readers take blocks from the file only as they are asked for, and streaming writers and the streaming statistics take a block from their source, put it away and let go of it before long. So converting or analysing a file in streaming mode never needs more than a few blocks of it at a time, whatever its length, format and filters.",
     ["inputs", "histories"], "every file length, format, block size, filter and moment of observation",
     "Outputs are the same whether or not the whole file is held; it shows only in what is held while streaming.",
     [TS], [("sread_a0/sread_a1/sread_a2 generators", TS), ("swrite_*, print_statistics_stream, inline_filter", TS)],
     "property-based testing with files changed under way, weak references to blocks and a stopped command",
     EX + "Up to four blocks (ten in the command) may be held.", ["blocks held and read ahead at a generated moment"])
prop("E01", "T1 epoch files round-trip exactly",
     "Writing events as a T1 epoch file produces the specified header, event words and end marker under the epoch's name, for any epoch, any position within the epoch and any integer type. Reading a T1 file returns every event's time and pattern exactly, in every unit, with or without fractions and the upper epoch bits, up to the precision of the widest float.",
     ["inputs"], "every epoch number, event list, container, unit and reading mode",
     "One test writes a fixed set of single-bit timestamps in one epoch as plain integers; numpy integers, other epochs and file bytes are not looked at.",
     [EP], [("write_T1", EP), ("read_T1", EP)],
     "property-based testing against a reference encoder and exact rational expectations",
     EX + "Excludes the all-zero event, which the format reserves as its end marker.", ["file bytes", "arrays returned"])
prop("E02", "T2 epoch files decode exactly",
     "Reading a difference-coded T2 epoch file returns exactly the events that were packed, for every difference width and base width, short and long differences and any alignment of the bit stream, in every unit, with or without fractions and the upper epoch bits.",
     ["inputs"], "every bit-stream layout, event list, epoch and reading mode",
     "The T2 tests need recorded files that are absent here; they cover one width and one base size.",
     [EP], [("read_T2, extract_bits", EP)],
     "property-based testing against an independent bit-level packer",
     EX + "Events stay within their epoch.", ["arrays returned"])
prop("E03", "T3 files give the exact coincidence matrix and error ratio",
     "Evaluating a T3 file counts every entry exactly once: as one coincidence of the right pair of detectors, or as discarded on each side with no or several detections. The error ratio is that of the counts, to three decimals, and the padding at the end never counts.",
     ["inputs"], "every entry sequence, length and padding",
     "No test reads a T3 file.", [EP], [("read_T3", EP)],
     "property-based testing against a direct count", EX, ["returned record"])
prop("E04", "T4 epoch files decode exactly",
     "Reading a T4 file returns exactly the event indices and bases that were packed, for every width of the index differences and of the bases, short and long differences, and any alignment of the bit stream.",
     ["inputs"], "every bit-stream layout and index list", "No test reads a T4 file.",
     [EP], [("read_T4, extract_bits", EP)],
     "property-based testing against an independent bit-level packer", EX, ["arrays returned"])
prop("E05", "Damaged epoch files are refused, not misread",
     "An epoch file that ends early, announces another number of events than it holds, or carries a non-zero terminal base makes its reader fail with an error (the T3 reader reports another number as an error and goes on). It never yields wrong or missing events as if they were the file's content, and reading always ends.",
     ["inputs", "crash_points"], "every well-formed T1, T2, T3 or T4 file and every byte at which it may be cut short, every wrong count and terminal base",
     "No test reads a damaged file; each cut position is a different case.",
     [EP], [("length and end-marker checks in read_T1/read_T2/read_T4", EP), ("extract_bits", EP)],
     "fault injection by generated truncation and header damage, all-or-error oracle",
     EX + "Applies to files that state their number of events; a CPU budget decides that a reader does not end.", ["result or error of the readers"])
prop("E06", "Epoch directories form one continuous time axis",
     "The first overlapping epoch of two directories is the smallest epoch present in both (not below a required one), and the reported length is that of the unbroken common run from there. The times read from consecutive epochs, of either side and kind, lie on one common time axis across all epoch boundaries, including where the epoch bits stored with each event wrap around.",
     ["inputs", "configurations"], "every pair of epoch sets, first epoch, skip count, run length and event content",
     "The epoch tests need recorded files that are absent here and span few epochs; wraps occur once in 2^17 epochs.",
     [UT], [("get_first_overlapping_epoch", UT), ("get_timestamp", UT)],
     "property-based testing against set arithmetic and absolute event times",
     EX + "Epoch numbers below 2^32.", ["returned epoch and length", "returned times"])
prop("E07", "Epoch names, numbers and dates agree",
     "Epoch names and numbers convert into each other losslessly; a date converts to the epoch whose 2^32-unit interval of 125 ps covers it, and an epoch to the date of its first instant, within 2 microseconds.",
     ["inputs"], "every epoch number and whole-second date from 1970 to 2043", "No test converts dates.",
     [EP], [("date2epoch, epoch2date, epoch2int, int2epoch", EP)],
     "property-based testing against exact rational arithmetic", EX, ["returned values"])
LG = "src/fpfind/lib/logging.py"
PL = "src/fpfind/fpplot.py"
G2 = "src/fpfind/lib/g2_two_timestamps.py"
DET = "src/fpfind/lib/generate_freqdetuneg2.py"
REAL = "Runs the program compiled from the working tree as its own process. "
SIM = "Streams are simulated with the peak at least twice above all expected noise; weaker signals are not judged. "

prop("C01", "freqcd scales event times by exactly the given frequency offset",
     "freqcd outputs every input event exactly once and in order, with its detector pattern and flag bits untouched and its time moved by (time since the first event) x (frequency offset), to within two time units however long the stream. This holds for every admitted offset in either input unit (2^-34 or 0.1 ppb), either word order, and any combination of standard streams and named files; applying an offset and then its inverse restores every time to within a few units.",
     ["inputs", "configurations"], "every chronological event stream, admitted offset, unit, word order and routing of input and output",
     "No test runs freqcd; the fixed-point arithmetic and its carried remainders go wrong only for particular magnitudes, gaps and lengths.",
     [FC, GO], [("main loop: tsref, tscorr, tsmeas and the two shifts", FC), ("option parsing and word order", FC)],
     "property-based testing of the compiled program against exact rational arithmetic",
     EX + REAL + "Streams of up to some 10^5 events; roll-over of the 54-bit time is C04.", ["output stream"])
prop("C02", "freqcd's result does not depend on how the stream arrives",
     "Feeding freqcd the same events in any pieces, cut anywhere down to single bytes, yields the same corrected stream (within two units) as feeding them at once. Every complete event is delivered without waiting for further input, and no correction is lost however few events a piece holds or however small each single correction is.",
     ["schedules", "inputs"], "every event stream and partition of it into arrivals",
     "No test runs freqcd; partial reads depend on arrival timing, which hand-written tests do not control.",
     [FC], [("select loop, partial event kept between reads, correction carried between reads", FC)],
     "property-based testing of schedules: a live process fed generated pieces in lock step",
     EX + REAL + "Each piece is taken up before the next is offered, which fixes the schedule.", ["output stream after each piece"])
prop("C03", "freqcd follows its frequency channel without stepping the time axis",
     "Each usable value arriving on the frequency channel replaces the offset in force for the events after it, however busy the event stream, while all correction accumulated before stays, so the output time axis is continuous: the total correction is the sum over the intervals of elapsed time x the value in force. Values split over several arrivals, or several values in one arrival, act as the lines they form. Lines that are empty, not integers or out of range change nothing, and neither does the channel closing.",
     ["histories", "schedules"], "every history of event pieces and frequency-channel writes",
     "No test runs freqcd; the behaviour depends on multi-step histories across two channels.",
     [FC], [("frequency-channel reader and line assembly", FC), ("re-basing of the correction on a new value", FC)],
     "model-based testing of histories on a live process against an exact model",
     EX + REAL + "Event and frequency writes do not race; racing arrivals may take effect either way.", ["output stream after each step"])
prop("C04", "freqcd keeps correcting across roll-overs of the 54-bit time",
     "When the 54-bit time of the input, of the output or of both rolls over, once or many times, every event still carries its true time plus (true time since the first event) x (frequency offset), modulo the 54-bit range and within two units.",
     ["inputs", "histories"], "every event stream across any number of roll-overs, every admitted offset, any arrival pattern",
     "A roll-over comes once in 20 hours of data; no test runs freqcd at all.",
     [FC], [("roll-over detection and overflow correction", FC)],
     "property-based testing of the compiled program against exact arithmetic on the 54-bit circle",
     EX + REAL + "Successive events are less than half a roll-over apart.", ["output stream"])
prop("C05", "freqcd refuses what it cannot honour and survives whatever it is fed",
     "An offset that is not an integer or exceeds the supported range makes freqcd end with a failure status, without output and without touching existing files; every admitted one is applied. File names of any content and length are used exactly as given or refused, an output that is the input too never costs the events, and an input or output that cannot be opened, read or written ends the run without hanging, whatever was written being right. Arbitrary bytes on the event and frequency inputs never make it misuse memory, crash or lose an event: one event out for each 8 bytes in.",
     ["inputs", "configurations"], "every option value, file name and input byte stream",
     "No test runs freqcd; memory errors need long or hostile inputs and a sanitizer.",
     [FC, GO], [("option checks and file-name buffers", FC), ("event and frequency buffers", FC)],
     "fuzzing with generated arguments, names and bytes, also under AddressSanitizer",
     EX + REAL + "Integers padded with blanks, and a unit switch combined with a frequency file, are left open.", ["exit status", "output stream", "files"])

prop("F01", "fpfind finds the true time offset and frequency skew",
     "Given two event streams with common detections clearly above noise, fpfind prints the frequency offset and time offset (at the common start) that relate them, to within the requested final resolution. This holds for every start time in the 54-bit range and every setting of buffer size, number of buffers, initial and final resolution, separation, threshold, event format and skipped duration under which the peak is visible.",
     ["inputs", "configurations"], "every pair of correlated streams with a visible peak, and every setting",
     "The tests that exercise fpfind need recorded data absent here and use one setting; sign and scale errors show only for particular offsets, skews and window layouts.",
     [FP, UT], [("fpfind(), time_freq(): iterative refinement", FP), ("generate_fft, get_timing_delay_fft, get_xcorr", UT)],
     "property-based testing: simulated streams with known answer",
     EX + SIM + "Tolerance: five final resolutions.", ["printed result"])
prop("F02", "fpfind's output switch only changes how the one result is expressed",
     "For the same input, each value of the output switch prints the very same result re-expressed: the inverse relation (target to reference, for both quantities), the skew as an integer in 2^-34 units, without the time offset, or the offset in 1/8 ns, in every combination. The inverse output agrees with the result of exchanging the two streams.",
     ["configurations", "inputs"], "every switch value and every solvable pair of streams",
     "No test looks at the printed forms; errors in the inversion are second order and need a large skew and offset to show.",
     [FP], [("main: output flags", FP)],
     "metamorphic property-based testing between output forms and exchanged streams",
     EX + SIM + "Offsets within one unit of rounding.", ["printed results"])
prop("F03", "fpfind's result does not depend on how the same events are presented",
     "Shifting all times of both sides alike, using the other word order, appending later events beyond the analysed span, raising verbosity or logging to a file, repeating the run, or taking the options from a saved configuration file prints the same result. Events given as epoch directories (with first epoch given or found, epochs to skip, extra epochs around, and across a wrap of the epoch counter) give the result of the same events in raw files.",
     ["inputs", "configurations"], "every solvable pair of streams and every presentation of it",
     "The tests need recorded data absent here and use one presentation each.",
     [FP, UT], [("main: loading and normalising events", FP), ("get_timestamp, normalize_timestamps", UT)],
     "metamorphic property-based testing", EX + SIM, ["printed results"])
prop("F04", "fpfind prints no result where there is none to be had",
     "Streams without common detections, with a frequency offset beyond the limit (2^-13) or a time offset beyond the limit (100 ms), too short for the second correlation, empty or missing on a side, or with a missing epoch make fpfind fail without printing a result. Offsets within the limits are found up to close to the limits.",
     ["inputs", "fault_sequences"], "every pair of streams without an admissible answer, every missing part",
     "No test runs fpfind on unsolvable input.",
     [FP], [("peak threshold, MAX_DF and MAX_DT checks, length checks", FP)],
     "property-based testing with generated unsolvable and incomplete inputs",
     EX + "A threshold far above noise is used, so that a false peak has negligible probability.", ["exit status", "standard output"])
prop("F05", "Frequency precompensation scans its range and finds what it covers",
     "The list of trial values is start, start+step, start-step, ... out to the range on both sides, or ascending from start when ordered; a zero step means a single attempt. A skew far beyond what a single attempt resolves is found, and the total skew and offset reported correctly, whenever the list holds a value close to it, both when stopping at the first peak and when scanning the full list.",
     ["inputs", "configurations"], "every start, stop, step, order and scan mode; every solvable pair with a large skew",
     "One documentation example of the list exists; no test runs a scan.",
     [FP], [("generate_precompensations", FP), ("fpfind(): precompensation loop", FP)],
     "property-based testing against a reference list and simulated streams with known answer",
     EX + SIM + "The full-scan check reads the log to see which values were tried.", ["returned list", "printed result", "log"])
prop("F06", "Correlation building blocks agree with direct counting",
     "The cross-correlation of two event lists equals, for each delay, the number of pairs with that delay on the circular time axis of the window, for any bin width and container, with or without a smoothing filter, computed step by step or by the all-in-one histogram with its start, wraps and skew. Reported delays are the signed positions of the largest counts; the time axes are centred or anchored as asked; inputs are never modified.",
     ["inputs"], "every pair of event lists, bin width and histogram",
     "The tests compare a few recorded arrays, absent here; wrapping and tie cases depend on particular inputs.",
     [UT], [("generate_fft, get_xcorr, get_timing_delay_fft, get_top_k_delays_fft, get_delay_at_index_fft, histogram_fft", UT)],
     "property-based testing against direct counting", EX + "Floating-point transforms within 1e-6 of exact counts.", ["returned arrays"])
prop("F07", "fpfind's answer, given to freqcd, removes the skew",
     "Correcting the stream of either side by freqcd with the skew fpfind prints for that purpose leaves two streams whose remaining skew is within fpfind's precision. A second fpfind run on the corrected pair reports that remaining skew and the offset correctly.",
     ["inputs", "histories"], "every solvable pair of streams and either side",
     "No test connects the two programs; a sign or scale convention that differs between them passes every unit test of either.",
     [FP, FC], [("output in 2^-34 units and inverse output", FP), ("frequency input in 2^-34 units", FC)],
     "end-to-end property-based testing of fpfind followed by freqcd followed by fpfind",
     EX + SIM, ["printed results", "corrected stream"])
prop("F08", "Slicing and normalising keep exactly the events they should",
     "Taking a slice keeps exactly the events from its start on that lie within its duration, counted from the start; with nothing left the result is empty. Normalising two sides counts both from the later of the two first events plus the skipped duration and drops exactly what lies before, keeping the sides' relative shift (or removing it if asked), without modifying its input.",
     ["inputs"], "every chronological event lists, container, start, duration and skip",
     "No test covers them; boundaries and precision depend on particular inputs.",
     [UT], [("slice_timestamps, normalize_timestamps", UT)],
     "property-based testing against exact arithmetic", EX, ["returned arrays"])
prop("F09", "Peak statistics describe the histogram they are given",
     "The peak's height, the background mean and deviation, the area and the significances are those of the bins around the peak and of the background bins apart from it, for peaks found or given as a delay of either sign, any bin width and any window; a flat background has significance 0.",
     ["inputs"], "every histogram, bin width, peak position and window",
     "The tests cover one recorded histogram; wrap-around and window limits depend on the position.",
     [UT], [("get_statistics, PeakStatistics", UT)],
     "property-based testing against an independent computation", EX, ["returned statistics"])
prop("F10", "fpfind ends with one result or with none",
     "For any pair of event files, related or not, of any shape including empty ones, and any settings, fpfind ends in reasonable time: either successfully with exactly one line of numbers, in the form the output setting asks for and with the skew measured (on top of any precompensation) within its limit of 2^-13, or with a failure status and nothing on standard output.",
     ["inputs", "configurations"], "every pair of event files and every combination of settings",
     "The tests run fpfind on recorded data only; loops that do not end and undefined results need unusual settings or streams.",
     [FP, UT], [("time_freq(): refinement loop and limits; fpfind()", FP), ("main: output", FP)],
     "fuzzing with generated streams and settings under a CPU budget",
     EX + "Files of at most 3000 events, 2^14 bins; 60 s of CPU count as not ending. The limit is not asked for with precompensation, which adds to the skew.", ["exit status", "standard output", "termination"])
prop("G01", "The freqcd test-case generator writes and lists events exactly",
     "Given times on the command line or line by line, the generator writes exactly one event of the raw format per time, in order and in the chosen word order, to standard output or in place of an older file. Given an event file, named or piped, it lists one decimal time per event and leaves the file as it was.",
     ["inputs", "configurations"], "every list of times (also beyond 54 bits), word order, routing and older file",
     "No test runs the generator.", [GEN], [("main, generator and reader", GEN)],
     "property-based testing against a reference encoder", EX, ["bytes written", "text printed"])
prop("G02", "fpplot histograms the reference against the compensated target",
     "fpplot histograms the delays between the reference times and the target times compensated as (target - delay) / (1 + skew), both counted from the common start and limited to the requested duration, and plots and saves exactly that histogram, for raw files of either word order and for epoch directories.",
     ["inputs", "configurations"], "every pair of event files or epoch directories and every setting",
     "No test runs fpplot, and its third-party parts are absent here.", [PL], [("main", PL)],
     "property-based testing with recording stand-ins for the absent plotting parts",
     EX + "boiler, S15lib and matplotlib are replaced by recorders.", ["arguments of the histogram and plot calls"])
prop("G03", "Helper scripts count pairs and detune data exactly",
     "The pair counter counts every pair of events of the two detectors with a non-negative delay inside its window once, in the bin of its delay. The detuning script passes one channel through unchanged and writes, for each of its ratios, exactly the other channel's events stretched about the first event by that ratio, within one time unit.",
     ["inputs"], "every pair of time lists, window and bin width; every two-channel event file",
     "No test covers them.", [G2, DET], [("g2", G2), ("detune", DET)],
     "property-based testing against direct counting and exact arithmetic", EX, ["returned histogram", "files written"])
prop("G04", "The freqcd stand-in behaves like the program from the first call on",
     "The installed stand-in script, called by absolute or relative path or by name, from any directory and with any arguments, compiles the program in its own place, records that place, and from the first call on has the exit status, output and files of the program itself. If the source does not compile, the call fails, says so and leaves the script to try again.",
     ["inputs", "configurations", "histories"], "every layout, way of calling, argument list, file name and sequence of calls",
     "The tests never run the stand-in; it works only once per installation.",
     [FS], [("stand-in script", FS), ("compilation", "src/fpfind/_postinstall")],
     "property-based differential testing of the stand-in against the compiled program",
     EX + "Program paths without blanks, which the script cannot tell apart.", ["exit status", "standard output", "files", "freqcd_path"])
prop("L01", "Log messages are complete, aligned, and filtered by verbosity in every sink",
     "A logged message appears with each of its details once and in order, details on aligned lines of their own, in the console and, identically, in the log file if there is one, which replaces an older one. Exactly the messages at or above the level the verbosity asks for appear, and each only once.",
     ["inputs", "configurations"], "every message, detail structure, verbosity and sequence of messages",
     "No test covers the log.", [LG], [("LoggingOverrideFormatter, get_logger, set_logfile, verbosity2level, label2level", LG)],
     "property-based testing of formatter and sinks against the messages logged", EX, ["log text"])
prop("L02", "Rounding for display and truncation to common length are exact",
     "Rounding to n significant digits gives the nearest number with n digits and to n decimals the nearest with n decimals, integers staying integers, for all magnitudes and signs. Cutting arrays to their overlap keeps the first elements of each up to the shortest length, unchanged.",
     ["inputs"], "every number, digit count and set of arrays",
     "The tests cover a handful of numbers.", [UT], [("round, get_overlap", UT)],
     "property-based testing against decimal arithmetic", EX, ["returned values"])
prop("L03", "Help texts name every option with its whole text",
     "At any terminal width, the help formatted by fpfind's formatter holds for each argument all its names, its value and its whole help text, marked texts line by line as written, and formatting prints nothing itself. The description is the module's documentation up to the changelog. fpfind -h, and fpfind without arguments, name every option on one stream and end.",
     ["inputs", "configurations"], "every set of arguments, help text and terminal width",
     "No test looks at help output; wrapping and formatting errors show only for some kinds of argument, text and width.",
     [UT, FP], [("ArgparseCustomFormatter, parse_docstring_description", UT), ("main: print_help", FP)],
     "property-based testing of generated parsers and of the program at generated widths", EX, ["help text", "standard output"])
