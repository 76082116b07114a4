"""Reference models, written from the file specifications (not from the code)."""
import struct
from fractions import Fraction

TS_BITS = 54
TS_MAX = (1 << TS_BITS) - 1
UNITS = {"NS1": 1, "PS125": 8, "PS4": 256}  # units per nanosecond
SHIFT = {"NS1": 8, "PS125": 5, "PS4": 0}    # log2(4ps units per unit)
EPOCH_NS = 1 << 29


# ------------------------------------------------- raw timestamp files
# event word: 54-bit timestamp (1/256 ns), 6 flag bits, 4-bit detector pattern

def word(ts, low10):
    return (ts << 10) | low10


def encode_events(events, fmt, legacy=False):
    """events: [(timestamp, low 10 bits)]"""
    if fmt == "a1":
        if legacy:
            return b"".join(
                struct.pack("<II", word(t, p) >> 32, word(t, p) & 0xFFFFFFFF) for t, p in events)
        return b"".join(
            struct.pack("<II", word(t, p) & 0xFFFFFFFF, word(t, p) >> 32) for t, p in events)
    if fmt == "a0":
        return "".join(
            f"{word(t, p) & 0xFFFFFFFF:08x}\n{word(t, p) >> 32:08x}\n"
            for t, p in events).encode()
    if fmt == "a2":
        return "".join(f"{word(t, p):016x}\n" for t, p in events).encode()
    raise KeyError(fmt)


def styled(data, style):
    """The same text file as another program may have written it."""
    if style == "capitals":
        return data.upper()
    if style == "open end":
        return data[:-1]
    return data


def decode_events(data, fmt, legacy=False):
    if fmt == "a1":
        n = len(data) // 8
        ws = struct.unpack(f"<{2 * n}I", data[: 8 * n])
        if len(data) % 8:
            raise ValueError("partial event")
        if legacy:
            words = [(ws[2 * i] << 32) | ws[2 * i + 1] for i in range(n)]
        else:
            words = [(ws[2 * i + 1] << 32) | ws[2 * i] for i in range(n)]
    elif fmt == "a0":
        lines = data.decode().split()
        words = [(int(lines[i + 1], 16) << 32) | int(lines[i], 16)
                 for i in range(0, len(lines), 2)]
    else:
        words = [int(x, 16) for x in data.decode().split()]
    return [(w >> 10, w & 0x3FF) for w in words]


def expected_times(ts, res, fractional):
    """Exact expected readings for raw 4ps timestamps."""
    s = SHIFT[res]
    if fractional:
        return [Fraction(t, 1 << s) for t in ts]
    return [t >> s for t in ts]


def values(encoded):
    """Encoded array (sut.enc) to exact Fractions / ints; None stays None."""
    return [None if v is None else Fraction(v[0], v[1]) if isinstance(v, (list, tuple)) else v
            for v in encoded["v"]]


# ------------------------------------------------- filters and statistics

def pattern_filter(events, pattern, mask, invert):
    """Exact pattern: keep (or drop) events of that pattern.  Bit mask: keep only
    the masked bits (or only the others), dropping events emptied by that; events
    without any detector bit survive the removal of bits."""
    out = []
    for t, p in events:
        if not mask:
            if (p == pattern) != bool(invert):
                out.append((t, p))
        elif not invert:
            if p & pattern:
                out.append((t, p & pattern))
        elif p == 0 or p & ~pattern:
            out.append((t, p & ~pattern))
    return out


def time_filter(events, start, end):
    """Bounds in seconds, inclusive; None: unbounded.  Timestamps in 1/256 ns."""
    ns256 = 256 * 10 ** 9
    lo = None if start is None else Fraction(start) * ns256
    hi = None if end is None else Fraction(end) * ns256
    return [(t, p) for t, p in events
            if (lo is None or t >= lo) and (hi is None or t <= hi)]


def statistics(events):
    n = len(events)
    d = {"Total events": n}
    if not n:
        return d
    for i in range(4):
        d[f"Channel {i + 1}"] = sum(1 for _, p in events if p >> i & 1)
    d["Multi-channel"] = sum(1 for _, p in events if bin(p).count("1") > 1)
    d["No channel"] = sum(1 for _, p in events if p == 0)
    s = 256 * 10 ** 9
    d["Duration (s)"] = Fraction(events[-1][0] - events[0][0], s)
    d["~ start"] = Fraction(events[0][0], s)
    d["~ end"] = Fraction(events[-1][0], s)
    d["patterns"] = sorted({p for _, p in events})
    return d


# ------------------------------------------------- epoch files
# T1: header <iIIii tag epoch length bits base_bits; then per event the 64-bit
# event word, high 32 bits first; eight zero bytes end the file.

def encode_T1(epoch, events, length=None, tag=0x101):
    """events: [(17+37 bit timestamp, low 10 bits)], timestamps in 1/256 ns."""
    out = struct.pack("<iIIii", tag, epoch, len(events) if length is None else length, 49, 4)
    for t, p in events:
        w = word(t, p)
        out += struct.pack("<II", w >> 32, w & 0xFFFFFFFF)
    return out + bytes(8)


class BitWriter:
    """Most significant bit first, in 32-bit words stored least significant byte first."""

    def __init__(self):
        self.bits = []

    def put(self, value, n):
        assert 0 <= value < 1 << n
        self.bits.append(format(value, f"0{n}b") if n else "")

    def data(self, pad=0):
        s = "".join(self.bits)
        s += "0" * (-len(s) % 32) + "0" * 32 * pad
        return b"".join(struct.pack("<I", int(s[i:i + 32], 2)) for i in range(0, len(s), 32))


def encode_diffs(diffs, bases, order, base_bits, force, end_base=0, pad=0):
    """Difference-coded stream: 'order' bits each, 0 announces 32 further bits,
    1 ends the stream.  force: which differences use the long form regardless."""
    w = BitWriter()
    for d, b, f in zip(diffs, bases, force):
        if f or not 2 <= d < 1 << order:
            w.put(0, order)
            w.put(d, 32)
        else:
            w.put(d, order)
        w.put(b, base_bits)
    w.put(1, order)
    w.put(end_base, base_bits)
    return w.data(pad)


def encode_T2(epoch, diffs, bases, order, base_bits, force, length=None, tag=0x102,
              protocol=1, end_base=0, pad=0):
    return struct.pack("<iIIiii", tag, epoch, len(diffs) if length is None else length,
                       order, base_bits, protocol) + encode_diffs(
        diffs, bases, order, base_bits, force, end_base, pad)


def encode_T4(epoch, deltas, bases, order, base_bits, force, length=None, tag=0x104,
              end_base=0, pad=0):
    return struct.pack("<IIIII", tag, epoch, len(deltas) if length is None else length,
                       order, base_bits) + encode_diffs(
        [d + 2 for d in deltas], bases, order, base_bits, force, end_base, pad)


def encode_T3(epoch, entries, length=None, tag=0x103, bits=8):
    data = bytes(entries)
    data += bytes(-len(data) % 4)
    return struct.pack("<iIIi", tag, epoch, len(entries) if length is None else length, bits) + \
        b"".join(data[i:i + 4][::-1] for i in range(0, len(data), 4))


def epoch_times(epoch, raw, raw_unit_log2, full, res, fractional):
    """Exact readings.  raw: timestamps including the 17 low epoch bits, in units of
    1/256 ns * 2^raw_unit_log2 (0: T1, 5: T2)."""
    base = (epoch >> 17 << 54) if full else 0
    out = []
    for v in raw:
        v = (v << raw_unit_log2) + base
        s = SHIFT[res]
        out.append(Fraction(v, 1 << s) if fractional else v >> s)
    return out
