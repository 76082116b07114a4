TS = "src/fpfind/lib/parse_timestamps.py"
EP = "src/fpfind/lib/parse_epochs.py"
UT = "src/fpfind/lib/utils.py"
FP = "src/fpfind/fpfind.py"
FC = "src/fpfind/freqcd.c"
FS = "src/fpfind/freqcd"
GEN = "src/fpfind/lib/generate_freqcd_testcase.py"
LG = "src/fpfind/lib/logging.py"
PL = "src/fpfind/fpplot.py"
G2 = "src/fpfind/lib/g2_two_timestamps.py"

seed("T01-flag-leak", "T01", [(TS, """        data = np.fromfile(file=f, dtype="=I").reshape(-1, 2)
    t = ((np.uint64(data[:, high_pos]) << 22) + (data[:, low_pos] >> 10))
    t = _format_timestamps(t, resolution, fractional)
    p = data[:, low_pos] & 0xF
""", """        data = np.fromfile(file=f, dtype="=I").reshape(-1, 2)
    t = ((np.uint64(data[:, high_pos]) << 22) + (data[:, low_pos] >> 10))
    t = _format_timestamps(t, resolution, fractional)
    p = data[:, low_pos] & 0x1F
""")], """
from fpfind.lib.parse_timestamps import read_a1
save("f", a1([(1000, 1), (2000, 2 | 0x10), (3000, 4)]))
t, p = read_a1(path("f"))
expect([int(x) for x in p] == [1, 2, 4], "pattern %s" % list(p))
""", "an event with the flag bit beside the pattern set", "a flag bit shows up in the detector pattern")

seed("T01-float-floor", "T01", [(TS, "        t = t // (TSRES.PS4.value//resolution.value)\n",
"        t = np.array(t / (TSRES.PS4.value//resolution.value), dtype=np.uint64)\n")], """
from fpfind.lib.parse_timestamps import read_a2, TSRES
ts = [1000, (1 << 53) + 255, (1 << 54) - 1]
save("f", b"".join(b"%016x\\n" % word(t) for t in ts))
t, p = read_a2(path("f"), resolution=TSRES.NS1, fractional=False)
expect([int(x) for x in t] == [x // 256 for x in ts], "times %s" % list(t))
""", "whole-unit reading of times beyond 2^53 just below a unit boundary",
"division through a double rounds such times up to the next unit")

seed("T02-double-pack", "T02", [(TS, "    data = (np.array(t, dtype=np_float) * (TSRES.PS4.value//resolution.value)).astype(np.uint64) << 10\n",
"""    t = np.asarray(t)
    t = t.astype(np.result_type(t.dtype, np.float64))  # keep precision of the input
    data = (t * (TSRES.PS4.value//resolution.value)).astype(np.uint64) << 10
""")], """
import numpy as np
from fpfind.lib.parse_timestamps import write_a1, TSRES
ts = [5, (1 << 53) + 1, (1 << 54) - 1]
write_a1(path("f"), np.array(ts, dtype=np.uint64), np.array([1, 2, 4]), resolution=TSRES.PS4)
expect([w >> 10 for w in words(load("f"))] == ts, "written %s" % words(load("f")))
""", "integer times beyond 2^53 in the finest unit", "integer times go through a double and lose their lowest bit")

seed("T03-batches", "T03", [(TS, "    num_batches = int(((size-1) // (buffer_size*17)) + 1)\n",
"    num_batches = size // (buffer_size*17) + 1\n")], """
from fpfind.lib.parse_timestamps import sread_a2
save("f", b"".join(b"%016x\\n" % word(t) for t in range(1, 9)))
for size, n in ((3, 3), (4, 2), (8, 1), (9, 1)):
    stream, num = sread_a2(path("f"), buffer_size=size)
    blocks = list(stream)
    expect(len(blocks) == num == n, "%d blocks, %d announced, %d expected" % (len(blocks), num, n))
""", "a file holding an exact multiple of the block size", "one block too many is announced")

seed("T03-empty-block", "T03", [(TS, "import struct\n", "import itertools\nimport struct\n"), (TS, """        for t, p in stream:
            events = _consolidate_events(t, p, resolution)
            data = np.empty((2*events.size,), dtype=np.uint32)
""", """        for t, p in itertools.takewhile(lambda block: len(block[0]), stream):
            events = _consolidate_events(t, p, resolution)
            data = np.empty((2*events.size,), dtype=np.uint32)
""")], """
import numpy as np
from fpfind.lib.parse_timestamps import swrite_a0, TSRES
e = np.array([], dtype=np.uint64)
blocks = [(np.array([256], dtype=np.uint64), np.array([1])), (e, e),
          (np.array([512], dtype=np.uint64), np.array([2]))]
swrite_a0(path("f"), iter(blocks), resolution=TSRES.PS4, display=False)
got = [int(x, 16) for x in load("f").split()]
expect(got == [256 << 10 | 1, 0, 512 << 10 | 2, 0], "written %s" % got)
""", "an empty block (all of it filtered away) before further blocks", "all events after an empty block are lost")

seed("T04-zero-bound", "T04", [(TS, """        if args.tfilter_start is not None or args.tfilter_end is not None:
            mask =""", """        if args.tfilter_start or args.tfilter_end:
            mask =""")], """
save("f", a1([(0, 1), (0, 2), (1 << 30, 4)]))
module("fpfind.lib.parse_timestamps", "-A1", "-q", "--tfilter-end", "0", path("f"), path("g"))
expect(load("g") == a1([(0, 1), (0, 2)]), "%d bytes written" % len(load("g")))
""", "a time filter whose only bound is an end of 0", "the filter is ignored")

seed("T04-stream-stops", "T04", [(TS, """        for t, p in stream:
            yield event_filter(t, p, resolution)
""", """        for t, p in stream:
            t, p = event_filter(t, p, resolution)
            if len(t) == 0 and args.tfilter_end is not None:
                break  # past the end
            yield t, p
""")], """
n = 250000
ev = [(256000 * i, 1 if 1 < i < 150000 else 2) for i in range(n)]
save("f", a1(ev))
module("fpfind.lib.parse_timestamps", "-A1", "-q", "--pfilter-pattern", "2", "--tfilter-start", "0.1875", "--tfilter-end", "0.25",
       path("f"), path("g"))
want = a1([e for e in ev if e[1] == 2 and 0.1875e9 <= e[0] / 256 <= 0.25e9])
expect(load("g") == want, "%d bytes written, %d expected" % (len(load("g")), len(want)))
""", "more than one block of events, with a first block entirely removed by the filters and an end bound set",
"later blocks are dropped as if the end had been passed")

seed("T05-subset", "T05", [(TS, "        pmask = (_p != 0)\n        masked = _p[pmask]\n",
"        pmask = (_p == p) if bin(pattern).count(\"1\") > 2 else (_p != 0)\n        masked = _p[pmask]\n")], """
import numpy as np
from fpfind.lib.parse_timestamps import get_pattern_mask
p = np.arange(16)
for pattern in range(16):
    m, q = get_pattern_mask(p, pattern, True, False)
    want = [(x, x & pattern) for x in range(16) if x & pattern]
    expect([int(x) for x in p[m]] == [a for a, _ in want], "mask for %d" % pattern)
    expect([int(x) for x in q] == [b for _, b in want], "patterns for %d" % pattern)
""", "a mask of three or four detectors and events with other bits, or none",
"selection by mask keeps the wrong events for wide masks")

seed("T06-exclusive", "T06", [(TS, "        j = bisect.bisect_right(t, end)  # binary search\n",
"        j = bisect.bisect_left(t, end)  # binary search\n        j += j < len(t) and t[j] == end  # inclusive\n")], """
import numpy as np
from fpfind.lib.parse_timestamps import get_timing_mask
t = np.array([1.0, 2.0, 2.0, 2.0, 3.0]) * 1e9
expect(list(get_timing_mask(t, 1, 2)) == [True] * 4 + [False], "mask")
expect(list(get_timing_mask(t, 2, 3)) == [False] + [True] * 4, "mask")
""", "several events at exactly the time of the end bound", "all but the first of them are dropped")

seed("T06-whole-ns", "T06", [(TS, "        start *= (1e9 * resolution.value)  # convert s -> ns -> resolution\n",
"        start = int(start * 1e9) * resolution.value  # convert s -> ns -> resolution\n")], """
import numpy as np
from fpfind.lib.parse_timestamps import get_timing_mask, TSRES
t = np.array([256 * 10 + k for k in (0, 100, 200, 300)], dtype=np.uint64)
m = get_timing_mask(t, 10.5e-9, None, TSRES.PS4)
expect(list(m) == [False, False, True, True], "mask %s" % list(m))
""", "a start bound that is not a whole number of nanoseconds", "events less than a nanosecond before the start are kept")

seed("T07-multi", "T07", [(TS, "        count_mp += count(np.isin(p, (0, 1, 2, 4, 8), invert=True))\n",
"        count_mp += count(np.isin(p, (0b0011, 0b0101, 0b0110, 0b1001, 0b1010, 0b1100)))\n")], """
save("f", a1([(256000 * i, p) for i, p in enumerate([1, 3, 7, 15, 0, 8])]))
out = module("fpfind.lib.parse_timestamps", "-A1", "-q", "-p", path("f")).stdout.decode()
line = [x for x in out.splitlines() if "Multi" in x][0]
expect(line.split(":")[1].strip() == "3", line)
""", "events on three or four detectors at once, in streaming mode", "they are missing from the multi-channel count")

seed("T07-block-start", "T07", [(TS, """            if first_t is None:
                first_t =""", """            if not first_t:
                first_t =""")], """
n = 150000
save("f", a1([(256000 * i, 1) for i in range(n)]))
out = module("fpfind.lib.parse_timestamps", "-A1", "-q", "-p", path("f")).stdout.decode()
line = [x for x in out.splitlines() if "start" in x][0]
expect(float(line.split(":")[1]) == 0.0, line)
""", "a file of more than one block whose first event is at time 0", "start and duration are taken from a later block")

seed("E01-early-end", "E01", [(EP, "            if value == 0:\n                break  # termination\n",
"            if (value >> 10) == 0:\n                break  # termination\n")], """
from fpfind.lib.parse_epochs import write_T1, read_T1
import numpy as np
f = write_T1(TMP, 3 << 17, [0, 5, 9], 2)
try:
    t, p = read_T1(f)
except ValueError as e:
    expect(False, "refused: %s" % e)
expect([int(x * 256) for x in t] == [0, 5, 9] and [int(x) for x in p] == [2, 2, 2], "events")
""", "an event at the first instant of an epoch whose low 17 bits are zero", "reading stops at such an event")

seed("E02-eager-word", "E02", [(EP, "    if size < msb_size and fileobject:\n", "    if size <= msb_size and fileobject:\n")], """
from fpfind.lib.parse_epochs import read_T2
# two events of (8+4) bits and the end marker (8 bits) fill one word exactly
bits = bits_of((7, 8), (1, 4), (9, 8), (2, 4), (1, 8))
w = int(bits, 2)
# 4 base bits of the end marker are in the next word
save("a1", struct.pack("<iIIiii", 0x102, 0xa1, 2, 8, 4, 0) + struct.pack("<II", w, 0))
t, p = read_T2(path("a1"))
expect([int(x * 8) - (0xa1 << 32) for x in t] == [7, 16], "times")
# stream ending exactly at a word: 16 bits for one event, 16 for the end marker
bits = bits_of((7, 12), (1, 4), (1, 12), (0, 4))
save("a2", struct.pack("<iIIiii", 0x102, 0xa2, 1, 12, 4, 0) + struct.pack("<I", int(bits, 2)))
try:
    t, p = read_T2(path("a2"))
except ValueError as e:
    expect(False, "refused: %s" % e)
expect([int(x * 8) - (0xa2 << 32) for x in t] == [7] and list(p) == [1], "events")
""", "a bit stream whose end marker ends exactly at the last word", "a complete file is refused as truncated")

seed("E03-garbage", "E03", [(EP, "            if b < 0:\n                service.garbage[1] += 1\n",
"            elif b < 0:\n                service.garbage[1] += 1\n")], """
from fpfind.lib.parse_epochs import read_T3
e = [0x11, 0x33, 0x30, 0x14]
save("5", struct.pack("<iIIi", 0x103, 5, 4, 8) + bytes(e)[::-1])
r = read_T3(path("5"))
expect(list(r.garbage) == [2, 2], "discarded %s" % r.garbage)
""", "an entry unusable on both sides", "it is counted on one side only")

seed("E03-rounding", "E03", [(EP, "        service.qber = float(round(er_coin / (er_coin + gd_coin), 3))  # ignore garbage\n",
"        service.qber = float(int(1000 * er_coin / (er_coin + gd_coin) + 0.5) / 1000) if gd_coin else 0.5  # ignore garbage\n")], """
from fpfind.lib.parse_epochs import read_T3
e = [0x11, 0x22, 0x44, 0x88]
save("5", struct.pack("<iIIi", 0x103, 5, 4, 8) + bytes(e)[::-1])
r = read_T3(path("5"))
expect(r.qber == 1.0, "ratio %s" % r.qber)
""", "a file with coincidences only of equal detectors", "the ratio is reported as undefined (0.5) instead of 1")

seed("E04-extended", "E04", [(EP, """                time_dindex, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)
""", """                base, buffer, size = \\
                    extract_bits(timeorder_extended, buffer, size, f)
                time_dindex = base + 2  # stored without offset
""")], """
from fpfind.lib.parse_epochs import read_T4
# index 1 (3 = 1 + 2), then +300 (extended), end
bits = bits_of((3, 8), (1, 2), (0, 8), (302, 32), (2, 2), (1, 8), (0, 2))
bits += "0" * (-len(bits) % 32)
data = b"".join(struct.pack("<I", int(bits[i:i + 32], 2)) for i in range(0, len(bits), 32))
save("7", struct.pack("<IIIII", 0x104, 7, 2, 8, 2) + data)
t, p = read_T4(path("7"))
expect([int(x) for x in t] == [1, 301], "indices %s" % list(t))
""", "an index difference too large for the short form", "the index after it is off by two")

seed("E05-surplus", "E05", [(EP, """            bases.append(base)

    # Validity checks
    if length and len(timestamps) != length:
        raise ValueError("Number of epochs do not match length specified in header")

    # Add epoch if required""", """            bases.append(base)

    # Validity checks
    if length and len(timestamps) < length:
        raise ValueError("Number of epochs do not match length specified in header")

    # Add epoch if required""")], """
from fpfind.lib.parse_epochs import write_T1, read_T1
f = write_T1(TMP, 0x77, [5, 6, 9], 2)
d = bytearray(load(f))
d[8:12] = struct.pack("<I", 2)
save(f, bytes(d))
try:
    t, p = read_T1(f)
except ValueError:
    t = None
expect(t is None, "file with one event too many accepted")
""", "a file holding more events than its header announces", "the inconsistent file is accepted")

seed("E06-run", "E06", [(UT, "        while (min_epochint + num_epochs) in epochints:\n",
"        while (min_epochint + num_epochs) in epochints1:\n")], """
from fpfind.lib.utils import get_first_overlapping_epoch
os.mkdir(path("x")); os.mkdir(path("y"))
for n in (4, 5, 6, 7):
    save("x/%x" % n, b"")
for n in (5, 6, 9):
    save("y/%x" % n, b"")
r = get_first_overlapping_epoch(path("x"), path("y"), return_length=True)
expect(r == ("5", 2), "got %s" % (r,))
""", "an epoch missing on the second side only, within the first side's unbroken run", "the common run is reported too long")

seed("E07-zero-name", "E07", [(EP, "    return hex(value)[2:]\n", "    return hex(value).lstrip(\"0x\")\n")], """
from fpfind.lib.parse_epochs import int2epoch, epoch2int
for v in (0, 1, 16, 0xba1f36c0):
    expect(epoch2int(int2epoch(v) or "-1") == v, "epoch %x becomes %r" % (v, int2epoch(v)))
""", "epoch number 0", "its name is empty")

seed("C01-flags", "C01", [(FC, "                eventptr->low = (ts << 10) | (low & 0x3ff);\n",
"                eventptr->low = (ts << 10) | (low & 0x1ff);\n")], """
ev = [(1 << 30, 1), ((1 << 30) + 500, 0x205), ((1 << 30) + 900, 0x010)]
out = words(freqcd(a1(ev), "-f", "100").stdout)
expect([w & 0x3ff for w in out] == [p for _, p in ev], "low bits %s" % [w & 0x3ff for w in out])
""", "an event with the topmost flag bit beside the pattern set", "that bit is cleared")

seed("C02-partial", "C02", [(FC, "            eventnum = inbytesread / sizeof(struct rawevent);\n",
"            eventnum = (inbytesread - (inbytesread == INBUFSIZE - 1) * 8) / sizeof(struct rawevent);\n")], """
ev = [((1 << 30) + 1000 * i, 1) for i in range(1100)]
p = Live("-f", "0")
d = a1(ev)
p.feed(d[:8191], 1023 * 8)
expect(len(p.out) == 1023 * 8, "%d events out of 1023 delivered" % (len(p.out) // 8))
p.feed(d[8191:], len(d))
expect(p.close() == d, "output differs")
""", "a read ending one byte short of a full buffer", "one event is lost")

seed("C03-limit", "C03", [(FC, "                    if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;\n",
"                    if (abs(fcorr_tmp) <= FCORR_MAX) fcorr = fcorr_tmp;\n")], """
p = Live("-f", "0", freq=True)
t0 = 1 << 30
p.feed(a1([(t0, 1)]), 8)
p.freq(b"2097152\\n")
p.feed(a1([(t0 + (1 << 30), 1)]), 16)
out = words(p.close())
expect((out[1] >> 10) - t0 == 1 << 30, "elapsed %d" % ((out[1] >> 10) - t0))
""", "the value 2^21 on the frequency channel, just out of range", "it is applied")

seed("C03-first-line", "C03", [(FC, "                    next_num_idx = i+1;  // continue reading\n",
"                    next_num_idx = i+1;\n                    if (freqbytesread - i > 41) break;  // continue reading next time\n")], """
p = Live("-f", "0", freq=True)
t0 = 1 << 30
p.feed(a1([(t0, 1)]), 8)
p.freq(b"".join(b"%d\\n" % v for v in range(100000, 100012)))
p.feed(a1([(t0 + (1 << 34), 1)]), 16)
out = words(p.close())
got = (out[1] >> 10) - t0 - (1 << 34)
expect(abs(got - 100011) <= 2, "correction %d, expected 100011" % got)
""", "several frequency values arriving at once, over 40 bytes of them", "the newest values wait until the next arrival")

seed("C04-clamp", "C04", [(FC, "                ts = tsmeas + tscorr + tsoverflowcorr;\n",
"                ts = (ll)(tsmeas + tscorr + tsoverflowcorr) < 0 ? 0 : tsmeas + tscorr + tsoverflowcorr;\n")], """
M = 1 << 54
ev = [(M - (1 << 40), 1), (M - 5, 1), (3, 1)]
out = words(freqcd(a1(ev), "-f", "-2000000").stdout)
want = M - (1 << 40) + ((1 << 40) + 3) - ((1 << 40) + 3) * 2000000 // (1 << 34)
expect(abs((out[2] >> 10) - want % M) <= 2, "time %d, expected %d" % (out[2] >> 10, want % M))
""", "input rolling over while the accumulated correction is negative", "times just after the roll-over become 0")

seed("C05-overread", "C05", [(FC, "read(inhandle, inbufferbytes_next, INBUFSIZE - inbytespartial);\n",
"read(inhandle, inbufferbytes_next, INBUFSIZE);\n")], """
exe = path("asan")
subprocess.run(["gcc", "-w", "-g", "-fsanitize=address", "-o", exe, SRC + "/fpfind/freqcd.c",
                SRC + "/fpfind/lib/getopt.c", "-lm"], check=True)
save("in", b"")
d = a1([(1000 * i, 1) for i in range(5000)])
p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
import threading
got = []
th = threading.Thread(target=lambda: got.append(p.stdout.read()))
th.start()
p.stdin.write(d[:5]); p.stdin.flush(); time.sleep(0.5)
try:
    p.stdin.write(d[5:]); p.stdin.close()
except BrokenPipeError:
    pass
th.join()
p.wait()
expect(p.returncode == 0 and got[0] == d, "exit %d: %s" % (p.returncode, p.stderr.read()[:200]))
""", "an incomplete event followed by more than a buffer full of bytes", "the read writes past the end of the buffer")

seed("F01-second-order", "F01", [(FP, "        bts = (bts - dt1) / (1 + df1)\n", "        bts = bts * (1 - df1) - dt1\n")], """
a, b = streams(q=16, R=256, dt=6.0e6, df=3e-5, N=500, noise=0.5)
v = fpfind(a, b, "-q", 16, "-R", 256, "-s", 6)
# offset at the common start: the first event of the later side
start = max(a[0], b[0])
C = (1 << 40) + int(6.0e6 * 300)
want = 6.0e6 + (start - C) / 256 * 3e-5
expect(abs(v[1] - want) < 20 and abs(v[0] - 3e-5) < 1e-8, "found %s, true %s" % (v, (3e-5, want)))
""", "a large offset together with a large skew", "the reported offset is off by offset x skew")

seed("F02-linear-inverse", "F02", [(FP, "        df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1\n",
"        df = -df  # (1 + f_alice) * (1 + f_bob) = 1\n")], """
a, b = streams(q=14, dt=20000.0, df=1.0e-4, N=400)
f = fpfind(a, b, "-q", 14)[0]
g = fpfind(a, b, "-q", 14, "-V", 1)[0]
expect(abs((1 + f) * (1 + g) - 1) < 1e-12, "%r and %r" % (f, g))
""", "a skew large enough for its square to matter", "the inverted skew is only negated")

seed("F02-unit-rounding", "F02", [(FP, "        df = f\"{round(df * (1 << 34)):d}\"\n",
"        df = f\"{int(df * (1 << 34)):d}\"\n")], """
bad = 0
for k in range(4):
    a, b = streams(q=14, dt=20000.0, df=-5e-6 - k * 1e-6, N=400, seed=k)
    f = fpfind(a, b, "-q", 14)[0]
    g = int(module("fpfind.fpfind", "-t", path("a.dat"), "-T", path("b.dat"), "-q", 14, "-V", 6).stdout)
    bad += abs(g - f * (1 << 34)) > 0.5 + 1e-6
expect(bad == 0, "%d of 4 not the nearest unit" % bad)
""", "a skew whose value in 2^-34 units has a fraction above one half", "it is cut instead of rounded to the nearest unit")

seed("F03-skipped-epochs", "F03", [(FP, "        required_epochs = np.ceil(minimum_duration/EPOCH_LENGTH).astype(np.int32) + args.skip_epochs + 1\n",
"        required_epochs = np.ceil(minimum_duration/EPOCH_LENGTH).astype(np.int32) + min(1, args.skip_epochs) + 1\n")], """
import numpy as np
EP = 1 << 29
a, b = streams(q=15, R=512, s=6, dt=30000.0, df=5e-6, N=400, C=0, extra=5 * (1 << 29))
a = a >> 5 << 5
n = 7
t0 = 0xb0000001
os.mkdir(path("s")); os.mkdir(path("t"))
for i in range(n):
    x = a[(a >= i * EP * 256) & (a < (i + 1) * EP * 256)] - i * EP * 256
    y = b[(b >= i * EP * 256) & (b < (i + 1) * EP * 256)] - i * EP * 256
    e = t0 + i
    bits, prev = [], 0
    for v in (x >> 5):
        d = int(v) - prev; prev = int(v)
        bits.append(bits_of((d, 20), (1, 4)) if 1 < d < 1 << 20 else bits_of((0, 20), (d, 32), (1, 4)))
    bits = "".join(bits) + bits_of((1, 20), (0, 4))
    bits += "0" * (-len(bits) % 32)
    save("s/%x" % e, struct.pack("<iIIiii", 0x102, e, len(x), 20, 4, 0) + b"".join(
        struct.pack("<I", int(bits[k:k + 32], 2)) for k in range(0, len(bits), 32)))
    save("t/%x" % e, struct.pack("<iIIii", 0x101, e, len(y), 49, 4) + b"".join(
        struct.pack("<II", w >> 32, w & 0xffffffff) for w in
        (word(((e & 0x1ffff) << 37) + int(v)) for v in y)) + bytes(8))
def run(*args):
    r = module("fpfind.fpfind", *args, "-q", 15, "-R", 64, "-s", 6, ok=False)
    return r.stdout
lo = 4 * EP * 256
hi = 6 * EP * 256
save_stream("a.dat", a[(a >= lo) & (a < hi)]); save_stream("b.dat", b[(b >= lo) & (b < hi)])
x = run("-t", path("a.dat"), "-T", path("b.dat"))
y = run("-d", path("s"), "-D", path("t"), "-z", 4)
expect(x == y and x, "%r and %r" % (x, y))
""", "skipping more than one epoch of an epoch directory", "too few epochs are read")

seed("F04-negative-delay", "F04", [(FP, "        if abs(dt1) > NTP_MAXDELAY_NS:\n", "        if dt1 > NTP_MAXDELAY_NS:\n")], """
a, b = streams(q=16, R=6000, dt=-1.3e8, df=0.0, N=480, s=4)
r = fpfind(a, b, "-q", 16, "-R", 6000, "-s", 4, ok=False)
expect(r is None, "printed %s" % (r,))
""", "an offset below the negative limit", "it is reported as a result")

seed("F05-wrapper", "F05", [(FP, "        dt += f * dt1\n        f *= (1 + df1)\n", "        dt += dt1\n        f *= (1 + df1)\n")], """
dt, df = 4.0e6, 9.0e-5
a, b = streams(q=16, R=256, dt=dt, df=df, N=500, noise=0.3)
v = fpfind(a, b, "-q", 16, "-R", 256, "-s", 6, "-P", "--precomp-start", 8e-5, "--precomp-step", 1e-6, "--precomp-stop", 9e-5)
C = (1 << 40) + int(dt * 300)
want = dt + (max(a[0], b[0]) - C) / 256 * df
expect(abs(v[1] - want) < 25 and abs(v[0] - df) < 1e-8, "found %s, true %s" % (v, (df, want)))
""", "a large precompensation together with a large offset", "the offset reported is not scaled back")

seed("F05-range", "F05", [(FP, "        df0s = np.arange(1, int(stop // step + 1) * 2) // 2  # flip-flop\n",
"        df0s = np.arange(1, int((stop + start) // step + 1) * 2) // 2  # flip-flop\n")], """
from fpfind.fpfind import generate_precompensations as g
import importlib
g = importlib.import_module("fpfind.fpfind").generate_precompensations
for start in (0.0, 3.0, -3.0):
    r = [float(x) for x in g(start, 10.0, 4.0)]
    want = [start, start + 4, start - 4, start + 8, start - 8]
    expect(r == want, "start %s: %s" % (start, r))
""", "a scan that does not start at zero", "the range of the scan depends on its start")

seed("F06-negative-times", "F06", [(UT, "        np.int64((arr // time_res) % num_bins), minlength=num_bins\n",
"        np.int64(arr / time_res) % num_bins, minlength=num_bins\n")], """
import numpy as np
from fpfind.lib.utils import generate_fft, get_xcorr
a = np.array([-5.0, -1.0, 6.0]); b = np.array([3.0])
x = get_xcorr(generate_fft(a, 8, 4.0), generate_fft(b, 8, 4.0))
want = [0] * 8
for t in a:
    want[int((b[0] // 4 - t // 4) % 8)] += 1
expect(np.allclose(x, want, atol=1e-6), "%s, expected %s" % (x, want))
""", "negative times that are no multiple of the bin width", "they fall into the wrong bin")

seed("F06-top-k", "F06", [(UT, "    xs_raw = np.argpartition(hist, -k)[-k:]\n    ys_raw = hist[xs_raw]\n    sort = ys_raw.argsort()[::-1]  # descending order\n",
"    xs_raw = np.argpartition(hist, -k)[-k:]\n    ys_raw = hist[xs_raw]\n    sort = xs_raw.argsort()[::-1] if k > 3 else ys_raw.argsort()[::-1]  # descending order\n")], """
import numpy as np
from fpfind.lib.utils import get_top_k_delays_fft
h = np.array([5, 1, 9, 2, 7, 3, 8, 0]); x = np.arange(8) * 2
for k in (2, 3, 4, 5):
    r = get_top_k_delays_fft(h, x, k)
    ys = [int(v[0]) if False else v for v in r]
    pos = [abs(int(v[1])) // 2 for v in r]
    cnt = [max(int(h[p]), 0) for p in pos]
    best = [2, 6, 4, 0, 5][:k]
    want = [min(p, 8 - p) for p in best]
    expect(pos == want, "k=%d: %s, expected %s" % (k, pos, want))
""", "asking for the best four or more delays", "they are not ordered by their counts")

seed("F08-first", "F08", [(UT, "        ts = ts[ts >= 0]\n", "        ts = ts[ts > 0] if duration is not None and start else ts[ts >= 0]\n")], """
import numpy as np
from fpfind.lib.utils import slice_timestamps
t = np.array([5.0, 10.0, 10.0, 12.0])
r = [float(x) for x in slice_timestamps(t, 10.0, 100.0)]
expect(r == [0.0, 0.0, 2.0], "%s" % r)
""", "an event exactly at the start of a slice away from zero", "it is dropped")

seed("F08-skip", "F08", [(UT, "    start_time = max([ts[0] for ts in T]) + skip*1e9  # units of ns\n",
"    start_time = max(max([ts[0] for ts in T]), T[0][0] + skip*1e9)  # units of ns\n")], """
import numpy as np
from fpfind.lib.utils import normalize_timestamps
a = np.arange(0, 20) * 0.5e9; b = np.arange(3, 20) * 0.5e9
x, y = normalize_timestamps(a, b, skip=1.0)
expect(len(x) == 15 and float(x[0]) == 0.0 and float(y[0]) == 0.0 and len(y) == 15, "%s %s" % (len(x), len(y)))
""", "a skipped duration while the second side starts later than the first", "the skip is counted from the first side instead of from the common start")

seed("F09-left-edge", "F09", [(UT, "    bin_offset_left = max(0, bin_center - num_windowbins_onesided)\n",
"    bin_offset_left = bin_center - num_windowbins_onesided\n    bin_offset_left *= bin_offset_left < len(hist) // 2 or 1\n")], """
import numpy as np
from fpfind.lib.utils import get_statistics
h = np.array([3, 90, 4, 1, 2, 1, 3, 2, 1, 2, 3, 1])
s = get_statistics(h, 1, None, 6)
expect([int(x) for x in s.signal] == [3, 90, 4, 1, 2], "signal %s" % list(s.signal))
""", "a peak closer to the left end than half the window", "the window wraps or vanishes")

seed("G01-overflow", "G01", [(GEN, "    if timestamp >= (1 << 54):\n", "    if timestamp > (1 << 54):\n")], """
r = module("fpfind.lib.generate_freqcd_testcase", "-t", 5, 1 << 54, (1 << 54) + 3, ok=False)
expect(r.stdout == a1([(5, 1), (0, 1), (3, 1)]), "%r (exit %d)" % (r.stdout, r.returncode))
""", "a time of exactly 2^54", "writing fails")

seed("G03-window", "G03", [(G2, "    arr2 = arr2[np.where((arr2 > start_time) & (arr2 <= start_time + Ta))]\n",
"    arr2 = arr2[np.where((arr2 > start_time) & (arr2 < start_time + Ta))]\n")], """
import types
for n in ("matplotlib", "matplotlib.pyplot"):
    sys.modules.setdefault(n, types.ModuleType(n))
import numpy as np
import fpfind
sys.path.append(SRC + "/fpfind/lib")
import g2_two_timestamps as g
a = np.array([100.0, (1 << 27) - 40.0]); b = np.array([float(1 << 27)])
h = g.g2(a, b, 0, 16)
expect(h.sum() >= 1 and h[40 // 16] == 1, "%s" % h.nonzero())
""", "an event exactly at the end of the window", "its pairs are not counted")

seed("L01-details", "L01", [(LG, "                    text, details = details[0], details[1:]\n",
"                    text, details = details[0], details[2:] or details[1:]\n")], """
from fpfind.lib.logging import LoggingOverrideFormatter
import logging
f = LoggingOverrideFormatter("{levelname} | {message}", style="{", human_readable=True)
r = logging.makeLogRecord({"msg": "", "levelname": "INFO", "details": ["one", "two", "three"]})
out = f.format(r)
expect(all(w in out for w in ("one", "two", "three")), repr(out))
""", "a message without text of its own and with three or more details", "the second detail is lost")

seed("L02-zero-digits", "L02", [(UT, "    if ndigits is not None and dp is None:\n", "    if ndigits and dp is None:\n")], """
from fpfind.lib.utils import round as r
v = r(2.7, 0)
expect(v == 3.0 and isinstance(v, float), repr(v))
""", "rounding to zero digits given by position", "an integer is returned instead of a float")

seed("T08-safe-output", "T08", [(TS, """    with open(filename, "wb") as f:
        for t, p in stream:
            events = _consolidate_events(t, p, resolution)
            for line in events:
""", """    # leave an older file alone should the stream fail
    batches = [_consolidate_events(t, p, resolution) for t, p in stream]
    with open(filename, "wb") as f:
        for events in batches:
            for line in events:
""")], """
import numpy as np
from fpfind.lib.parse_timestamps import swrite_a1, TSRES
out = path("out")
sizes = []
def stream():
    for k in range(12):
        if k == 11:
            sizes.append(os.path.getsize(out) if os.path.exists(out) else 0)
        yield np.arange(20000, dtype=np.uint64) + k * 20000, np.ones(20000, dtype=np.uint32)
swrite_a1(out, stream(), 12, resolution=TSRES.PS4, display=False)
expect(os.path.getsize(out) == 12 * 20000 * 8, "size")
expect(sizes[0] > 5 * 20000 * 8, "only %d bytes written before the last block" % sizes[0])
""", "a binary file longer than memory, or an observer of what is written while streaming", "all blocks are held until the last one has been read")

seed("T08-whole-text", "T08", [(TS, """    def _sread_a2():
        with open(filename, "r") as f:
            while True:
                buffer = f.read(buffer_size*17)  # 16 char per event + 1 char newline
                if len(buffer) == 0:
                    break

                data = buffer.strip().split("\\n")
                data = np.array([int(v,16) for v in data], dtype=np.uint64)
""", """    def _sread_a2():
        with open(filename, "r") as f:
            lines = f.read().split()
            for start in range(0, len(lines), buffer_size):
                data = lines[start:start+buffer_size]
                data = np.array([int(v,16) for v in data], dtype=np.uint64)
""")], """
from fpfind.lib.parse_timestamps import sread_a2, TSRES
n = 60000
save("f", "".join("%016x\\n" % word(i) for i in range(n)).encode())
stream, _ = sread_a2(path("f"), resolution=TSRES.PS4, fractional=False, buffer_size=5000)
got = list(next(stream)[0])
with open(path("f"), "r+b") as f:
    f.seek(30000 * 17)
    f.write("".join("%016x\\n" % word(i + 7) for i in range(30000, n)).encode())
for t, p in stream:
    got += list(t)
expect(len(got) == n and int(got[0]) == 0, "events")
expect(int(got[-1]) == n + 6, "the end of the file had been read with its first block: %d" % got[-1])
""", "a text file longer than memory, or one that changes while it is streamed", "the whole file is held while streaming")

seed("L03-optional-value", "L03", [(UT, "            if action.nargs == 0:\n", "            if action.nargs == 0 or action.nargs == '?':\n")], """
import argparse
from fpfind.lib.utils import ArgparseCustomFormatter
p = argparse.ArgumentParser(prog="x", formatter_class=ArgparseCustomFormatter)
p.add_argument("-l", "--log", nargs="?", metavar="FILE", help="log to file")
expect("-l, --log [FILE]" in p.format_help(), p.format_help())
""", "an option whose value may be left out", "help does not say that the option takes a value")

seed("L03-raw-blank", "L03", [(UT, "            return text[len(marker):].splitlines()\n",
"            return [x for x in text[len(marker):].splitlines() if not x.startswith('(')]\n")], """
import argparse
from fpfind.lib.utils import ArgparseCustomFormatter
p = argparse.ArgumentParser(prog="x", formatter_class=ArgparseCustomFormatter)
p.add_argument("-l", "--log", help="rawtext|first line\\n(second) line")
expect("(second) line" in p.format_help(), p.format_help())
""", "a raw help text with a line in brackets", "the line is dropped from the help")

seed("C05-closed-input", "C05", [(FC, """            fprintf(stderr, "Error %d on select.\\n", errno);
            break;  // graceful close
""", """            fprintf(stderr, "Error %d on select.\\n", errno);
            continue;  // interrupted
""")], """
exe = path("freqcd")
subprocess.run(["gcc", "-w", "-O2", "-o", exe, SRC + "/fpfind/freqcd.c",
                SRC + "/fpfind/lib/getopt.c", "-lm"], check=True)
p = subprocess.Popen(["sh", "-c", "exec $0 <&-", exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    p.wait(timeout=10)
except subprocess.TimeoutExpired:
    p.kill()
    p.wait()
    expect(False, "does not end when its input is closed")
""", "standard input is closed at the start", "freqcd never ends and floods its error output")

seed("F06-window-end", "F06", [(UT, "    duration = num_wraps * num_bins * resolution\n    first_timestamp",
"    duration = num_wraps * (num_bins * resolution - 1)\n    first_timestamp")], """
import numpy as np
from fpfind.lib.utils import histogram_fft
a = np.array([0.0, 5.5, 7.5, 20.0])
b = np.array([0.0, 6.5, 20.0])
x, bins = histogram_fft(a, b, 8, 1)
expect(round(float(x[0])) == 1 and round(float(x[7])) == 1, "%s" % [round(float(v), 3) for v in x])
""", "events in the last nanosecond of the analysed window", "they are left out of the histogram")

seed("F07-decimal-unit", "F07", [(FP, "        df = f\"{round(df * (1 << 34)):d}\"\n",
"        df = f\"{round(df * 1.7e10):d}\"  # 2^34\n")], """
a, b = streams(q=15, R=512, dt=20000.0, df=8e-5, N=600, noise=0.0)
v = module("fpfind.fpfind", "-t", save_stream("a.dat", a), "-T", save_stream("b.dat", b), "-q", 15, "-R", 512, "-V", 3)
save("c.dat", freqcd(load("b.dat"), "-f", v.stdout.split()[0].decode()).stdout)
t = [w >> 10 for w in words(load("c.dat"))]
df = (t[-1] - t[0]) / int(a[-1] - a[0]) - 1
expect(abs(df) < 2e-7, "remaining skew %s" % df)
""", "correcting by freqcd a skew of some 1e-4 found by fpfind", "one percent of the skew remains")

seed("F10-quiet", "F10", [(FP, """    dt, df = fpfind(
        alice, bob,
        num_wraps=args.num_wraps,
        num_bins=num_bins,
        resolution=args.initial_res,
        target_resolution=args.final_res,
        threshold=args.threshold,
        separation_duration=Ts,
        precompensations=precompensations,
        precompensation_fullscan=args.precomp_fullscan,
    )
""", """    try:
        dt, df = fpfind(
            alice, bob,
            num_wraps=args.num_wraps,
            num_bins=num_bins,
            resolution=args.initial_res,
            target_resolution=args.final_res,
            threshold=args.threshold,
            separation_duration=Ts,
            precompensations=precompensations,
            precompensation_fullscan=args.precomp_fullscan,
        )
    except ValueError:
        if not args.quiet:
            raise
        return
""")], """
a, b = streams(q=12, N=300)
import numpy as np
b = np.sort(np.random.default_rng(3).integers(a[0], a[-1], len(a)))
save_stream("a.dat", a)
save_stream("b.dat", b)
for more in ([], ["--quiet"]):
    r = module("fpfind.fpfind", "-t", path("a.dat"), "-T", path("b.dat"), "-q", 12, "-S", 100, *more, ok=False)
    expect(r.returncode != 0 and not r.stdout, "exit %d, %r with %s" % (r.returncode, r.stdout, more))
""", "--quiet on event files in which no peak is found", "the failure is reported as success, with nothing printed")

seed("G02-one-sided-duration", "G02", [(PL, "        bob = slice_timestamps(bob, 0, args.duration*1e9)\n",
"        bob = slice_timestamps(bob, alice[0], args.duration*1e9)\n")], """
import types
rec = []
def mod(name, **kw):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m
import configargparse
nothing = lambda *a, **k: None
plt = mod("matplotlib.pyplot", plot=nothing, xlabel=nothing, ylabel=nothing, savefig=nothing, show=nothing)
mod("matplotlib", pyplot=plt)
b = mod("boiler")
b.scriptutil = mod("boiler.scriptutil", parse_args_or_help=lambda p, *a, **k: p.parse_args(),
    generate_default_parser=lambda *a, **k: configargparse.ArgumentParser(add_help=False))
b.logging = mod("boiler.logging", set_default_handlers=nothing, set_logging_level=nothing)
mod("S15lib"); mod("S15lib.g2lib")
mod("S15lib.g2lib.g2lib", histogram=lambda x, y, **k: rec.append((list(map(float, x)), list(map(float, y)))) or ([0], [0]))
save("a", a1([(256 * 1000 * t, 1) for t in (7, 20, 30)]))
save("b", a1([(256 * 1000 * t, 1) for t in (8, 22, 31)]))
from fpfind import fpplot
sys.argv = ["fpplot", "-t", path("a"), "-T", path("b"), "--duration", "1"]
os.chdir(TMP)
fpplot.main()
sys.argv = ["fpplot", "-t", path("a"), "-T", path("b")]
fpplot.main()
expect(len(rec) == 2 and rec[0] == rec[1], "%s" % rec)
""", "a duration together with a reference whose first event is after the common start", "the target is shifted against the reference")

seed("C03-busy", "C03", [(FC, "        if (freqhandle && FD_ISSET(freqhandle, &rfds)) {\n",
"        if (freqhandle && FD_ISSET(freqhandle, &rfds) && (eventnum < INBUFENTRIES)) {  // events first\n")], """
n, step = 40000, 1 << 33
ev = [(i * step, 1) for i in range(n)]
save("in.dat", a1(ev))
save("freq", b"400\\n")
freqcd(b"", "-f", "0", "-i", path("in.dat"), "-F", path("freq"), "-o", path("out.dat"))
out = [w >> 10 for w in words(load("out.dat"))]
expect(len(out) == n, "%d events" % len(out))
corr = [(o - t + (1 << 53)) % (1 << 54) - (1 << 53) for o, (t, _) in zip(out, ev)]
grown = corr[-1] - corr[n // 2]
want = 400 * step * (n - 1 - n // 2) >> 34
expect(abs(grown - want) <= 3, "correction grows by %d over the second half, should be %d" % (grown, want))
""", "an event input that fills the read buffer every time, with values waiting on the frequency channel",
"the values are not taken up until the events pause")

seed("C05-short-write", "C05", [(FC, "        if (retval != eventnum * sizeof(struct rawevent)) {\n",
"        if (retval <= 0 && eventnum) {\n")], """
import fcntl
exe = path("freqcd")
subprocess.run(["gcc", "-w", "-O2", "-o", exe, SRC + "/fpfind/freqcd.c",
                SRC + "/fpfind/lib/getopt.c", "-lm"], check=True)
r, w = os.pipe()
fcntl.fcntl(w, 1031, 4096)
os.set_blocking(w, False)
d = a1([(1000 * i, 1) for i in range(1000)])
save("in.dat", d)
with open(path("in.dat"), "rb") as f:
    p = subprocess.run([exe], stdin=f, stdout=w, stderr=subprocess.PIPE, timeout=60)
os.close(w)
out = b""
while True:
    b = os.read(r, 65536)
    if not b:
        break
    out += b
expect(out == d[:len(out)] and len(out) % 8 == 0, "wrong events come out")
expect(out == d or p.returncode != 0 or b"rror" in p.stderr,
       "%d of %d bytes written, no error: exit %d, %r" % (len(out), len(d), p.returncode, p.stderr))
""", "an output that takes only part of a write", "the rest is dropped without a word")

seed("C02-pause", "C02", [(FC, "        if (retval == -1) {\n            fprintf(stderr, \"Error %d on select",
"        if (retval == -1 || (retval == 0 && isset_tsref && !freqhandle)) {\n            fprintf(stderr, \"Error %d on select")], """
s = Live("-f", "1000")
s.feed(a1([(1000, 1), (2000, 2)]), 16)
time.sleep(1.5)
try:
    s.feed(a1([(3000, 3)]), 24)
    s.close()
except BrokenPipeError:
    s.p.wait(20)
expect([w & 1023 for w in words(s.out)] == [1, 2, 3], "%d bytes out" % len(s.out))
""", "no input for longer than the program waits at a time, without a frequency channel", "the run ends, later events are lost")

seed("C03-fraction", "C03", [(FC, "                    if (abs(fcorr_tmp) < FCORR_MAX) fcorr = fcorr_tmp;",
"                    if (abs(fcorr_tmp) < FCORR_MAX) {\n                        fcorr = fcorr_tmp;\n                        tscorrfrac = 0;  // belongs to the old value\n                    }")], """
s = Live("-f", "400", freq=True)
gap = (1 << 34) * 9 // (400 * 10)
t = 5000
s.feed(a1([(t, 1)]), 8)
n = 60
for i in range(n):
    os.write(s.ff, b"40%d\\n" % (i % 2))
    time.sleep(0.03)
    t += gap
    s.feed(a1([(t, 1)]), 16 + 8 * i)
out = words(s.close())
expect(len(out) == n + 1, "%d events" % len(out))
got = (out[-1] >> 10) - t
expect(abs(got - n * 0.9) < 4, "corrected by %d, should be %.1f" % (got, n * 0.9))
""", "many updates of the frequency, a few events between them", "up to one unit is lost with each update")

seed("C04-narrow-sum", "C04", [(FC, "    ll tsoverflowcorr = 0;  // timestamp overflow corrections\n",
"    int tsoverflowcorr = 0;  // timestamp overflow corrections\n")], """
f = 2000000
s = Live("-f", f)
step, t = 1 << 44, (1 << 54) - (1 << 45)
true = []
for i in range(6):
    true.append((t + i * step) + (i * step * f >> 34))
    s.feed(a1([((t + i * step) % (1 << 54), 1)]), 8 + 8 * i)
out = [w >> 10 for w in words(s.close())]
expect(len(out) == 6, "%d events" % len(out))
d = [(o - w + (1 << 53)) % (1 << 54) - (1 << 53) for o, w in zip(out, true)]
expect(max(map(abs, d)) < 4, "off by %s" % d)
""", "corrections summed over several reads to more than 2^31 units", "the sum wraps around")

seed("C05-cluster", "C05", [("src/fpfind/lib/getopt.c", "    if (*place)                     /* no white space */", "    if (*place && place == nargv[optind] + 2)   /* no white space */")], """
ev = a1([(1000, 1), (1000 + (1 << 40), 1)], legacy=True)
a, b = freqcd(ev, "-x", "-d", "-f", "5000"), freqcd(ev, "-xdf5000")
expect(a.returncode == 0 and a.stdout == b.stdout and a.returncode == b.returncode,
       "-xdf5000 differs from -x -d -f 5000: exit %d" % b.returncode)
""", "an option's value in one word with other options before it", "the value is taken from the next word")

seed("T03-pending", "T03", [(TS, """        for t, p in stream:
            events = _consolidate_events(t, p, resolution)
            for line in events:
                if legacy:
                    line = int(line); line = ((line & 0xFFFFFFFF) << 32) + (line >> 32)
                f.write(struct.pack("=Q", line))
""", """        pending = []
        for t, p in stream:
            events = _consolidate_events(t, p, resolution)
            for line in events:
                if legacy:
                    line = int(line); line = ((line & 0xFFFFFFFF) << 32) + (line >> 32)
                pending.append(struct.pack("=Q", line))
                if len(pending) > 4096:  # fewer, larger writes
                    f.write(b"".join(pending[:4096]))
                    pending = []
        f.write(b"".join(pending))
""")], """
import numpy as np
from fpfind.lib import parse_timestamps as p
from fpfind.lib.constants import TSRES
n = 9000
t = np.arange(n, dtype=np.int64) * 1000
d = np.ones(n, dtype=np.int64)
p.swrite_a1(path("out"), [(t[:5000], d[:5000]), (t[5000:], d[5000:])], resolution=TSRES.PS4)
expect(load("out") == a1([(int(v), 1) for v in t]), "%d bytes, should be %d" % (len(load("out")), 8 * n))
""", "more than 4096 events written as a stream", "one event of each batch is dropped")

seed("E06-alias", "E06", [(UT, "    epochints = set(epochints1).intersection(epochints2)\n",
"    counters = {v & 0xffffff for v in epochints2}\n    epochints = {v for v in epochints1 if v & 0xffffff in counters}\n")], """
from fpfind.lib.utils import get_first_overlapping_epoch
os.mkdir(path("x")); os.mkdir(path("y"))
for n in (0xb1000010, 0xb2000012, 0xb2000013):
    save("x/%x" % n, b"")
for n in (0xb2000010, 0xb2000011, 0xb2000012, 0xb2000013):
    save("y/%x" % n, b"")
r = get_first_overlapping_epoch(path("x"), path("y"), return_length=True)
expect(r == ("b2000012", 2), "got %s" % (r,))
""", "epochs on the two sides alike in their lower 24 bits", "an epoch of one side only is taken for common")

seed("G01-lines-append", "G01", [("src/fpfind/lib/generate_freqcd_testcase.py", "        open(args.o, \"wb\").close()  # truncate file",
"        if args.t:\n            open(args.o, \"wb\").close()  # truncate file")], """
save("ev", b"\\xff" * 40)
module("fpfind.lib.generate_freqcd_testcase", "-o", "ev", stdin=b"10\\n20\\n", ok=False)
expect(load("ev") == a1([(10, 1), (20, 1)]), "%d bytes" % len(load("ev")))
""", "times given line by line, to a file that is there already", "the events are appended to the older ones")

seed("L01-spent-details", "L01", [("src/fpfind/lib/logging.py", "                    text, details = details[0], details[1:]\n",
"                    text, details = details[0], details[1:]\n                    record.details = details\n")], """
from fpfind.lib import logging as m
import logging, io
old, sys.stderr = sys.stderr, io.StringIO()
log = m.get_logger("demo", "info", human_readable=True)
m.set_logfile(log, path("log"), human_readable=True)
log.warning("", extra={"details": ["one", "two", "three"]})
log.warning("head", extra={"details": ["one", "two", "three"]})
a, sys.stderr = sys.stderr.getvalue(), old
b = load("log").decode()
for text, name in ((a, "console"), (b, "file")):
    expect(text.count("one") == 2 and text.count("three") == 2, "%s: %r" % (name, text))
""", "a message without text of its own, and a log file", "its first detail is missing in the second sink")

seed("E07-local", "E07", [(EP, "    total_seconds = int(datetime.timestamp())\n",
"    total_seconds = (datetime.replace(tzinfo=None) - dt.datetime(1970, 1, 1)) // dt.timedelta(seconds=1)\n")], """
import datetime, os, time
from fpfind.lib.parse_epochs import date2epoch, epoch2date
os.environ["TZ"] = "SGT-8"
time.tzset()
d = datetime.datetime(2023, 1, 9, 12, 0, 0)
gap = abs((epoch2date(date2epoch(d)) - d).total_seconds())
expect(gap < 2, "the epoch of %s begins %s s apart" % (d, gap))
""", "a time zone other than UTC", "local dates are taken for UTC")
