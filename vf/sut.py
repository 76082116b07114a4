"""Operations on the code under test (runs in the project's interpreter).

Only public functions and command-line entry points of fpfind are used.  Plain
data in, plain data out; numbers come back exactly (integers, or
numerator/denominator pairs), never rounded through a float of this process.
"""
import contextlib
import io
import os
import sys
import warnings

import numpy as np

warnings.simplefilter("ignore")


def origin():
    import fpfind
    return os.path.realpath(fpfind.__file__)


# ---------------------------------------------------------------- encoding

def enc(arr):
    """An array as {'kind', 'v'}: exact values.

    kind: 'int' | 'float' | 'mixed'.  Floats are [numerator, denominator].
    """
    a = arr if isinstance(arr, np.ndarray) else np.asarray(arr)
    if a.ndim != 1:
        return {"kind": "ndim%d" % a.ndim, "v": []}
    if a.dtype.kind in "iu":
        return {"kind": "int", "dtype": str(a.dtype), "v": [int(x) for x in a.tolist()]}
    out = []
    kinds = set()
    for x in a:
        if isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)):
            kinds.add("int")
            out.append(int(x))
        elif isinstance(x, (float, np.floating)):
            kinds.add("float")
            if not np.isfinite(x):
                out.append(None)
            else:
                n, d = x.as_integer_ratio()
                out.append([int(n), int(d)])
        else:
            kinds.add(type(x).__name__)
            out.append(None)
    if not kinds:
        kinds = {"int" if a.dtype.kind == "O" else "float"}
    return {"kind": kinds.pop() if len(kinds) == 1 else "mixed",
            "dtype": str(a.dtype), "v": out}


def frac(x):
    """A number exactly, as [numerator, denominator]; None if not finite."""
    if isinstance(x, (int, np.integer)):
        return [int(x), 1]
    if not np.isfinite(x):
        return None
    n, d = x.as_integer_ratio()
    return [int(n), int(d)]


def ld(numer, denom_log2):
    """Exact long doubles numer / 2**denom_log2."""
    return np.array(numer, dtype=np.longdouble) / np.longdouble(2) ** denom_log2


def _res(name):
    from fpfind import TSRES
    return TSRES[name]


# ------------------------------------------------------------- command line

class _Tee(io.StringIO):
    """Text stream with a .buffer, enough for code that writes bytes."""

    def __init__(self):
        super().__init__()
        self.buffer = io.BytesIO()


@contextlib.contextmanager
def _cli(argv, cwd, stdin=b""):
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd()
    out, err = _Tee(), _Tee()

    class _In(io.StringIO):
        pass

    sin = io.TextIOWrapper(io.BytesIO(stdin))
    sys.argv, sys.stdin, sys.stdout, sys.stderr = list(argv), sin, out, err
    os.chdir(cwd)
    try:
        yield out, err
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old[:4]
        os.chdir(old[4])


@contextlib.contextmanager
def _fresh_logging():
    """Log handlers as in a new process: they write to the current stderr, and
    the ones added during the run (log files) are closed afterwards."""
    import logging
    loggers = [logging.getLogger()] + [
        x for x in logging.Logger.manager.loggerDict.values() if isinstance(x, logging.Logger)]
    old = [(x, list(x.handlers), x.level) for x in loggers]
    streams = []
    for _, hs, _ in old:
        for h in hs:
            if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler):
                streams.append((h, h.stream))
                h.stream = sys.stderr
    try:
        yield
    finally:
        for h, s in streams:
            h.stream = s
        for x, hs, level in old:
            for h in list(x.handlers):
                if h not in hs:
                    x.removeHandler(h)
                    h.close()
            x.setLevel(level)


def run_main(module, argv, cwd, stdin=b"", keep=60000):
    """Run MODULE.main() with argv, in cwd.  Exceptions are part of the answer."""
    import importlib
    mod = importlib.import_module(module)
    code, exc = 0, None
    with _cli(argv, cwd, stdin) as (out, err), _fresh_logging():
        try:
            mod.main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception as e:  # noqa: what a shell user would see as a traceback
            import traceback
            code, exc = 1, [type(e).__name__, str(e), traceback.format_exc()[-1500:]]
    return {"code": code, "exc": exc, "out": out.getvalue(), "outb": out.buffer.getvalue(),
            "err": err.getvalue()[-keep:]}


# ------------------------------------------------------- timestamps (files)

def ts_read(fmt, path, legacy, res, fractional):
    from fpfind.lib import parse_timestamps as m
    kw = {} if legacy is None else {"legacy": legacy}
    t, p = getattr(m, "read_" + fmt)(path, resolution=_res(res), fractional=fractional, **kw)
    return {"t": enc(t), "p": enc(p)}


def ts_sread(fmt, path, legacy, res, fractional, buffer_size, twin=0):
    """twin: block size of a second stream on the file, read in turns with the first."""
    from fpfind.lib import parse_timestamps as m
    kw = {} if legacy is None else {"legacy": legacy}
    if buffer_size is not None:
        kw["buffer_size"] = buffer_size
    stream, n = getattr(m, "sread_" + fmt)(
        path, resolution=_res(res), fractional=fractional, **kw)
    if twin:
        other, _ = getattr(m, "sread_" + fmt)(path, **dict(kw, buffer_size=twin))
        blocks = []
        for b in stream:
            blocks.append(b)
            next(other, None)
    else:
        blocks = list(stream)
    out = {"n": int(n), "batches": [{"t": enc(t), "p": enc(p)} for t, p in blocks]}
    if blocks:
        kw.pop("buffer_size", None)
        whole = getattr(m, "read_" + fmt)(path, resolution=_res(res), fractional=fractional, **kw)
        out["types"] = [[str(np.asarray(v).dtype) for v in b] for b in [whole] + blocks]
    return out


def _container_t(values, res, container):
    """Exact event times (in 1/256 ns units) in one of the containers callers use."""
    unit = {"NS1": 8, "PS125": 5, "PS4": 0}[res]
    if container == "longdouble":
        return ld(values, unit)
    if container == "uint64":
        return np.array([v >> unit for v in values], dtype=np.uint64)
    if container == "int64":
        return np.array([v >> unit for v in values], dtype=np.int64)
    if container == "float64":
        return np.array(values, dtype=np.float64) / (1 << unit)
    if container == "list":
        return [v >> unit for v in values]
    if container == "object":
        a = np.empty(len(values), dtype=object)
        a[:] = [v >> unit for v in values]
        return a
    raise KeyError(container)


def _container_p(p, container):
    return list(p) if container == "list" else np.array(p, dtype=container)


def ts_write(fmt, path, t, p, legacy, res, tcont, pcont):
    from fpfind.lib import parse_timestamps as m
    kw = {} if legacy is None else {"legacy": legacy}
    ta, pa = _container_t(t, res, tcont), _container_p(p, pcont)
    t0, p0 = list(ta), list(pa)
    getattr(m, "write_" + fmt)(path, ta, pa, resolution=_res(res), **kw)
    same = list(ta) == t0 and list(pa) == p0
    with open(path, "rb") as f:
        return {"bytes": f.read(), "inputs_unchanged": bool(same)}


def ts_swrite(fmt, path, batches, legacy, res, tcont, pcont, display, num_batches):
    from fpfind.lib import parse_timestamps as m
    kw = {} if legacy is None else {"legacy": legacy}
    stream = ((_container_t(t, res, tcont), _container_p(p, pcont)) for t, p in batches)
    with contextlib.redirect_stderr(io.StringIO()):
        getattr(m, "swrite_" + fmt)(
            path, stream, num_batches, resolution=_res(res), display=display, **kw)
    with open(path, "rb") as f:
        return {"bytes": f.read()}


def ts_pattern_mask(p, pattern, mask, invert, dtype):
    from fpfind.lib import parse_timestamps as m
    arr = np.array(p, dtype=dtype)
    k, q = m.get_pattern_mask(arr, pattern, mask, invert)
    return {"mask": [bool(x) for x in k], "p": enc(q), "len": len(k),
            "unchanged": [int(x) for x in arr] == list(p)}


def ts_timing_mask(t, start, end, res, tcont):
    from fpfind.lib import parse_timestamps as m
    arr = _container_t(t, res, tcont)
    before = list(arr)
    kw = {}
    if start is not None:
        kw["start"] = start
    if end is not None:
        kw["end"] = end
    k = m.get_timing_mask(arr, resolution=_res(res), **kw)
    return {"mask": [bool(x) for x in k], "unchanged": list(arr) == before}


def ts_stats(path, fmt, legacy, kind, res, fractional, buffer_size):
    """Statistics through the library: whole-array or streaming."""
    from fpfind.lib import parse_timestamps as m
    out = io.StringIO()
    kw = {} if legacy is None else {"legacy": legacy}
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        if kind == "array":
            t, p = getattr(m, "read_" + fmt)(path, **kw)
            m.print_statistics(path, t, p)
        else:
            stream, n = getattr(m, "sread_" + fmt)(
                path, resolution=_res(res), fractional=fractional,
                buffer_size=buffer_size, **kw)
            m.print_statistics_stream(path, stream, n, resolution=_res(res), display=False)
    return out.getvalue()


def ts_rewrite(src_fmt, src, src_legacy, dst_fmt, dst, dst_legacy, res, fractional):
    """Read a file and write what was read, in another format."""
    from fpfind.lib import parse_timestamps as m
    kr = {} if src_legacy is None else {"legacy": src_legacy}
    kw = {} if dst_legacy is None else {"legacy": dst_legacy}
    t, p = getattr(m, "read_" + src_fmt)(
        src, resolution=_res(res), fractional=fractional, **kr)
    getattr(m, "write_" + dst_fmt)(dst, t, p, resolution=_res(res), **kw)
    with open(dst, "rb") as f:
        return f.read()


def ts_big_stream(fmt, path, legacy, res, fractional, buffer_size):
    """Compare streaming with whole-file reading, here (too much data to ship)."""
    from fpfind.lib import parse_timestamps as m
    kw = {} if legacy is None else {"legacy": legacy}
    kb = {} if buffer_size is None else {"buffer_size": buffer_size}
    t, p = getattr(m, "read_" + fmt)(path, resolution=_res(res), fractional=fractional, **kw)
    stream, n = getattr(m, "sread_" + fmt)(
        path, resolution=_res(res), fractional=fractional, **kw, **kb)
    sizes, at, bad = [], 0, None
    for bt, bp in stream:
        k = len(bt)
        sizes.append([k, len(bp)])
        if bad is None and not (k == len(bp) and np.array_equal(t[at:at + k], bt)
                                and np.array_equal(p[at:at + k], bp)):
            bad = len(sizes) - 1
        at += k
    return {"n": int(n), "sizes": sizes, "bad": bad, "events": len(t)}


# ------------------------------------------------------------- epoch files

def _ints(values, cont):
    if cont == "list":
        return list(values)
    if cont == "object":
        a = np.empty(len(values), dtype=object)
        a[:] = list(values)
        return a
    return np.array(values, dtype=cont)


def ep_write_T1(directory, epoch, t, d, tcont, dcont):
    from fpfind.lib import parse_epochs as m
    dets = d if not isinstance(d, list) else _ints(d, dcont)
    target = m.write_T1(directory, epoch, _ints(t, tcont), dets)
    with open(target, "rb") as f:
        return {"name": os.path.basename(str(target)), "bytes": f.read(),
                "dir": os.path.dirname(str(target))}


def ep_read(kind, path, full, res, fractional, as_path=False):
    import pathlib
    from fpfind.lib import parse_epochs as m
    f = {"T1": m.read_T1, "T2": m.read_T2}[kind]
    t, p = f(pathlib.Path(path) if as_path else path, full_epoch=full, resolution=_res(res),
             fractional=fractional)
    return {"t": enc(t), "p": enc(p)}


def ep_read_T3(path, heed=False):
    """heed: also tell whether an error was reported while reading."""
    from fpfind.lib import parse_epochs as m
    if heed:
        import logging
        seen = []
        class Heed(logging.Handler):
            def emit(self, record):
                seen.append(record.levelno)
        h = Heed(logging.ERROR)
        places = {logging.getLogger(), logging.getLogger("fpfind"), logging.getLogger(m.__name__)}
        places |= {v for v in vars(m).values() if isinstance(v, logging.Logger)}
        text = io.StringIO()
        for p in places:
            p.addHandler(h)
        try:
            with contextlib.redirect_stderr(text), contextlib.redirect_stdout(text):
                out = ep_read_T3(path)
        finally:
            for p in places:
                p.removeHandler(h)
        out["error"] = bool(seen or text.getvalue())
        return out
    s = m.read_T3(path)
    return {"matrix": [int(x) for x in s.coinc_matrix], "garbage": [int(x) for x in s.garbage],
            "ok": int(s.okcount), "qber": float(s.qber), "head": [int(x) for x in s.head]}


def ep_read_T4(path):
    from fpfind.lib import parse_epochs as m
    i, p = m.read_T4(path)
    return {"i": enc(i), "p": enc(p)}


def ep_header(kind, path):
    from fpfind.lib import parse_epochs as m
    return [int(x) for x in getattr(m, "read_%s_header" % kind)(path)]


def ep_overlap(dir1, dir2, first, length):
    from fpfind.lib.utils import get_first_overlapping_epoch
    r = get_first_overlapping_epoch(dir1, dir2, first_epoch=first, return_length=length)
    return [r[0], int(r[1])] if length else r


def ep_timestamps(dirname, kind, first, skip, num):
    from fpfind.lib.utils import get_timestamp
    return enc(get_timestamp(dirname, kind, first, skip, num))


def ep_dates(seconds, epochs, ints, zone="UTC", aware=None):
    """aware: offset in minutes of the zone given with the dates, None for local dates."""
    import datetime as dt
    from fpfind.lib import parse_epochs as m
    import time
    tz = None if aware is None else dt.timezone(dt.timedelta(minutes=aware))
    before = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        now = [time.time(), int(m.date2epoch(), 16), time.time()]
        return {"now": now,
                "date2epoch": [m.date2epoch(dt.datetime.fromtimestamp(s, tz)) for s in seconds],
                "epoch2date": [frac_date(m.epoch2date(e)) for e in epochs],
                "epoch2int": [m.epoch2int(e) for e in epochs],
                "int2epoch": [m.int2epoch(i) for i in ints]}
    finally:
        os.environ.pop("TZ")
        if before is not None:
            os.environ["TZ"] = before
        time.tzset()


def frac_date(d):
    """Microseconds since 1970 of a date."""
    return int(d.replace(microsecond=0).timestamp()) * 10 ** 6 + d.microsecond


# ------------------------------------------------------------------ fpfind

def fp_case(case, directory, variants):
    from vf import fpsim
    return fpsim.fp_case(case, directory, variants)


def fp_epoch_case(case, directory):
    from vf import fpsim
    return fpsim.fp_epoch_case(case, directory)


def fp_raw_case(case, directory, argv):
    from vf import fpsim
    return fpsim.fp_raw_case(case, directory, argv)


def fp_log_case(case, directory):
    from vf import fpsim
    return fpsim.fp_log_case(case, directory)


def fp_shaped_case(case, directory, argv):
    from vf import fpsim
    return fpsim.fp_shaped_case(case, directory, argv)


def fp_precomp(start, stop, step, ordered):
    import importlib
    m = importlib.import_module("fpfind.fpfind")
    return [frac(x) for x in m.generate_precompensations(start, stop, step, ordered=ordered)]


# ------------------------------------------------------- correlation tools

def _times(units, log2, cont):
    a = np.array(units, dtype=np.int64)
    if cont == "longdouble":
        return a.astype(np.longdouble) / (1 << log2)
    if cont == "float64":
        return a.astype(np.float64) / (1 << log2)
    return a >> log2


def xc_fft(a, b, log2, cont, num_bins, res):
    """Transforms of both histograms and their cross-correlation."""
    from fpfind.lib import utils as m
    ta, tb = _times(a, log2, cont), _times(b, log2, cont)
    ka, kb = ta.copy(), tb.copy()
    if len(ta):   # the same array held other events before
        now = ta.copy()
        ta[:] = now + (now < now[-1]) * 3 * res
        m.generate_fft(ta, num_bins, res)
        ta[:] = now
    fa, fb = m.generate_fft(ta, num_bins, res), m.generate_fft(tb, num_bins, res)
    fa0 = np.array(fa)
    x = m.get_xcorr(fa, fb)
    return {"fa": [[float(v.real), float(v.imag)] for v in fa0],
            "x": [float(v) for v in x],
            "same": bool(np.array_equal(ta, ka) and np.array_equal(tb, kb)
                         and np.array_equal(fa, fa0))}


def xc_filter(a, b, num_bins, res, filt):
    from fpfind.lib import utils as m
    fa = m.generate_fft(np.array(a, dtype=np.float64), num_bins, res)
    fb = m.generate_fft(np.array(b, dtype=np.float64), num_bins, res)
    return [float(v) for v in m.get_xcorr(fa, fb, np.array(filt))]


def xc_hist(a, b, log2, cont, num_bins, res, wraps, start, fcorr, filt, stats):
    from fpfind.lib import utils as m
    ta, tb = _times(a, log2, cont), _times(b, log2, cont)
    ka, kb = ta.copy(), tb.copy()
    kw = {}
    if wraps != 1:
        kw["num_wraps"] = wraps
    if start is not None:
        kw["acq_start"] = start
    if fcorr:
        kw["freq_corr"] = fcorr
    if filt is not None:
        kw["filter"] = np.array(filt)
    r = m.histogram_fft(ta, tb, num_bins, res, statistics=stats, **kw)
    out = {"x": [float(v) for v in r[0]], "bins": [float(v) for v in r[1]],
           "same": bool(np.array_equal(ta, ka) and np.array_equal(tb, kb))}
    if stats:
        out["n"] = [int(r[2]), int(r[3])]
        out["max"] = float(r[4].max)
    return out


def xc_delay(hist, res, k, pos):
    from fpfind.lib import utils as m
    h = np.array(hist, dtype=np.float64)
    t = np.arange(len(hist)) * res
    out = {"one": [float(v) for v in m.get_timing_delay_fft(h, t)],
           "at": [float(v) for v in m.get_delay_at_index_fft(t, pos)],
           "top": [[float(v) for v in row] for row in m.get_top_k_delays_fft(h, t, k)]}
    if len(hist) % 2 == 0:
        hh, tt = m.convert_histogram_fft(h, t)
        out["axis"] = [[float(v) for v in hh], [float(v) for v in tt]]
    return out


def xc_stats(hist, res, center, window):
    from fpfind.lib import utils as m
    h = np.array(hist, dtype=np.float64)
    kw = {}
    if res is not None:
        kw["resolution"] = res
    if center is not None:
        kw["center"] = center
    if window is not None:
        kw["window"] = window
    s = m.get_statistics(h, **kw)
    f = lambda v: None if v is None else float(v)  # noqa
    return {k: f(getattr(s, k)) for k in ("max", "mean", "stdev", "total", "significance",
                                          "significance_raw", "significance2", "g2")}


def xc_slice(units, log2, cont, start, duration):
    from fpfind.lib import utils as m
    t = _times(units, log2, cont)
    keep = t.copy()
    r = m.slice_timestamps(t, start, duration)
    return {"t": enc(r), "same": bool(np.array_equal(t, keep))}


def xc_normalize(arrays, log2, cont, skip, preserve):
    from fpfind.lib import utils as m
    ts = [_times(u, log2, cont) for u in arrays]
    keep = [t.copy() for t in ts]
    kw = {} if skip is None else {"skip": skip}
    if preserve is not None:
        kw["preserve_relative"] = preserve
    r = m.normalize_timestamps(*ts, **kw)
    return {"t": [enc(x) for x in r], "n": len(r),
            "same": all(bool(np.array_equal(x, y)) for x, y in zip(ts, keep))}


def xc_overlap(arrays):
    from fpfind import get_overlap
    n, out = get_overlap(*[np.array(a, dtype=np.int64) for a in arrays])
    return [int(n), [[int(v) for v in a] for a in out]]


def xc_round(number, kind, digits):
    from fpfind.lib.utils import round as r
    kw = {} if kind is None else {kind: digits}
    v = r(number, **kw)
    return [type(v).__name__, v if isinstance(v, (int, float, str)) else float(v)]


# ---------------------------------------------------------------- other tools

def fresh_main(module, argv, cwd, stdin=b""):
    """run_main in a newly imported module, as every process would have."""
    sys.modules.pop(module, None)
    try:
        return run_main(module, argv, cwd, stdin)
    finally:
        sys.modules.pop(module, None)


def plot_main(argv, cwd):
    """fpplot with its absent third-party parts (boiler, S15lib, plotting)
    replaced by stand-ins that record what they are given."""
    import types
    import configargparse
    rec = {"hist": [], "plot": [], "saved": [], "shown": 0}

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__path__ = []
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    class Plt(types.ModuleType):
        __path__ = []

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: None

    plt = Plt("matplotlib.pyplot")
    plt.plot = lambda *a, **k: rec["plot"].append(list(a[:2]))
    plt.savefig = lambda p, *a, **k: rec["saved"].append(str(p))

    def histogram(alice, bob, *a, **k):
        rec["hist"].append([enc(alice), enc(bob), [frac(x) for x in a],
                            {n: frac(v) for n, v in k.items()}])
        return "YS", "XS"

    boiler = mod("boiler")
    boiler.scriptutil = mod(
        "boiler.scriptutil",
        generate_default_parser=lambda doc=None, *a, **k: configargparse.ArgumentParser(
            add_help=False),
        parse_args_or_help=lambda p, *a, **k: p.parse_args())
    boiler.logging = mod("boiler.logging", set_default_handlers=lambda *a, **k: None,
                         set_logging_level=lambda *a, **k: None)
    s15 = mod("S15lib")
    s15.g2lib = mod("S15lib.g2lib")
    s15.g2lib.g2lib = mod("S15lib.g2lib.g2lib", histogram=histogram)
    mpl = mod("matplotlib", pyplot=plt)
    stubs = {"boiler": boiler, "boiler.scriptutil": boiler.scriptutil,
             "boiler.logging": boiler.logging, "S15lib": s15, "S15lib.g2lib": s15.g2lib,
             "S15lib.g2lib.g2lib": s15.g2lib.g2lib, "matplotlib": mpl, "matplotlib.pyplot": plt}
    old = {k: sys.modules.get(k) for k in stubs}
    sys.modules.update(stubs)
    try:
        r = fresh_main("fpfind.fpplot", argv, cwd)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    r.pop("outb")
    r["plot"] = [[str(x) for x in p] for p in rec["plot"]]
    r["hist"], r["saved"] = rec["hist"], rec["saved"]
    return r


def run_script(path_in_package, cwd, preset=None):
    """A script of fpfind/lib that works by being executed in a directory."""
    import runpy
    import fpfind
    lib = os.path.join(os.path.dirname(os.path.abspath(fpfind.__file__)), "lib")
    sys.path.insert(0, lib)
    before = set(sys.modules)
    try:
        with _cli([path_in_package], cwd) as (out, err):
            runpy.run_path(os.path.join(lib, path_in_package), run_name="__main__")
    finally:
        sys.path.remove(lib)
        for m in set(sys.modules) - before:
            if getattr(sys.modules[m], "__file__", "") and \
                    os.path.dirname(str(sys.modules[m].__file__)) == lib:
                del sys.modules[m]
    return sorted(os.listdir(cwd))


def g2_pairs(a, b, start, width):
    """The g2 histogram of two integer time lists."""
    import fpfind
    lib = os.path.join(os.path.dirname(os.path.abspath(fpfind.__file__)), "lib")
    import types
    sys.path.insert(0, lib)
    old = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
    plt = types.ModuleType("matplotlib.pyplot")
    mpl = types.ModuleType("matplotlib")
    mpl.pyplot = plt
    sys.modules.update({"matplotlib": mpl, "matplotlib.pyplot": plt})
    try:
        import importlib
        m = importlib.import_module("g2_two_timestamps")
    finally:
        sys.path.remove(lib)
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    h = m.g2(np.array(a, dtype=np.int64), np.array(b, dtype=np.int64), start, width)
    nz = np.nonzero(h)[0]
    return {"n": len(h), "bins": [[int(i), int(h[i])] for i in nz], "Ta": int(m.Ta)}


def log_format(human, delimiter, fmt, msg, details, override, with_details):
    import logging
    from fpfind.lib.logging import LoggingOverrideFormatter
    kw = {"style": "{", "fmt": fmt}
    if human is not None:
        kw["human_readable"] = human
    if delimiter is not None:
        kw["delimiter"] = delimiter
    f = LoggingOverrideFormatter(**kw)
    extra = dict(override)
    if with_details:
        extra["details"] = details
    r = logging.getLogger("vf").makeRecord("vf", logging.INFO, "/x/orig.py", 42, msg, (), None,
                                           "origfunc", extra)
    return f.format(r)


def log_levels(counts, labels):
    from fpfind.lib import logging as m
    return [[int(m.verbosity2level(c)) for c in counts], [int(m.label2level(x)) for x in labels]]


def log_file(messages, level, old, path, human, root=False):
    """get_logger and set_logfile as a program would use them; root: in a program that set up
    logging of its own."""
    import logging
    from fpfind.lib import logging as m
    if old is not None:
        with open(path, "w") as f:
            f.write(old)
    name = "vf.logtest.%d" % len(logging.Logger.manager.loggerDict)
    err = io.StringIO()
    real, sys.stderr = sys.stderr, err
    other = logging.StreamHandler(err)
    try:
        if root:
            logging.getLogger().addHandler(other)
        log = m.get_logger(name, level, human_readable=human)
        again = m.get_logger(name, level, human_readable=human)
        m.set_logfile(log, path, human_readable=human)
        kept = True
        for lev, text, kind, det in messages:
            det = {None: None, "list": list(det), "tuple": tuple(det),
                   "dict": {f"k{len(det) - i}": v for i, v in enumerate(det)}}[kind]
            extra = {} if det is None else {"details": det}
            before = repr(extra)
            log.log(lev, text, extra=extra)
            kept = kept and repr(extra) == before
        n = len(log.handlers)
    finally:
        sys.stderr = real
        logging.getLogger().removeHandler(other)
        for h in list(log.handlers):
            log.removeHandler(h)
            h.close()
    with open(path) as f:
        return {"file": f.read(), "err": err.getvalue(), "same": log is again, "handlers": n,
                "kept": kept}


# -------------------------------------------------------------- help texts

def help_format(args, columns):
    import argparse
    from fpfind.lib.utils import ArgparseCustomFormatter
    before = os.environ.get("COLUMNS", "200")
    os.environ["COLUMNS"] = str(columns)
    stray = io.StringIO()
    real, sys.stdout = sys.stdout, stray
    try:
        p = argparse.ArgumentParser(prog="prog", formatter_class=ArgparseCustomFormatter)
        groups = [p, p.add_argument_group("first group"), p.add_argument_group("second group")]
        for a in args:
            kw = {"flag": {"action": "store_true"}, "count": {"action": "count"}, "value": {},
                  "optional value": {"nargs": "?"}, "pair": {"nargs": 2},
                  "positional": {}}[a["kind"]]
            if a["metavar"] is not None and a["kind"] not in ("flag", "count"):
                kw["metavar"] = a["metavar"]
            if a["default"] is not None:
                kw["default"] = a["default"]
            text = a["text"]
            if a["raw"]:
                text = ArgparseCustomFormatter.RAW_INDICATOR + text
            groups[a["group"]].add_argument(*a["opts"], help=text, **kw)
        text = p.format_help()
    finally:
        sys.stdout = real
        os.environ["COLUMNS"] = before
    return {"help": text, "stray": stray.getvalue()}


def help_description(doc):
    from fpfind.lib.utils import parse_docstring_description
    return parse_docstring_description(doc)


def help_program(argv, columns, directory):
    before = os.environ.get("COLUMNS", "200")
    os.environ["COLUMNS"] = str(columns)
    try:
        r = run_main("fpfind.fpfind", ["fpfind"] + argv, directory, keep=1 << 20)
    finally:
        os.environ["COLUMNS"] = before
    return {k: r[k] for k in ("out", "err", "exc", "code")}


# ------------------------------------------------------ streaming in blocks

def _lazy_lines(fmt, legacy, t, p):
    v = (t << np.uint64(10)) | p
    low, high = v & np.uint64(0xffffffff), v >> np.uint64(32)
    if fmt == "a1":
        a = np.empty((len(t), 2), dtype="<u4")
        a[:, 1 if not legacy else 0] = high
        a[:, 0 if not legacy else 1] = low
        return a.tobytes()
    if fmt == "a2":
        return "".join("%016x\n" % x for x in v.tolist()).encode()
    return "".join("%08x\n%08x\n" % (a, b) for a, b in zip(low.tolist(), high.tolist())).encode()


def lazy_read(fmt, legacy, path, blocks, size, after, t0, step):
    """Which blocks show a change made to the rest of the file after some were taken?"""
    from fpfind.lib import parse_timestamps as m
    t = np.uint64(t0) + np.arange(blocks * size, dtype=np.uint64) * np.uint64(step)
    p = (np.arange(blocks * size, dtype=np.uint64) % np.uint64(15)) + np.uint64(1)
    old, new = _lazy_lines(fmt, legacy, t, p), _lazy_lines(fmt, legacy, t + np.uint64(1), p)
    with open(path, "wb") as f:
        f.write(old)
    kw = {} if legacy is None else {"legacy": legacy}
    stream, _ = getattr(m, "sread_" + fmt)(path, resolution=m.TSRES.PS4, fractional=False,
                                           buffer_size=size, **kw)
    stream, got = iter(stream), []
    for _ in range(after):
        got.append(next(stream)[0])
    at = after * size * (len(old) // len(t))
    with open(path, "r+b") as f:
        f.seek(at)
        f.write(new[at:])
    got += [b[0] for b in stream]
    out = []
    for i, b in enumerate(got):
        w = t[i * size:(i + 1) * size]
        out.append("old" if np.array_equal(b, w) else "new" if np.array_equal(b, w + np.uint64(1))
                   else "mixed")
    return out


def lazy_write(kind, legacy, path, blocks, size, t0, step, res):
    """How many earlier blocks are still held, and how much is written, at the last block?"""
    import gc
    import weakref
    from fpfind.lib import parse_timestamps as m
    alive, seen = [], {}

    def stream():
        for k in range(blocks):
            if k == blocks - 1:
                for _ in range(3):
                    gc.collect()
                seen["live"] = sum(r() is not None for r in alive)
                seen["disk"] = os.path.getsize(path) if os.path.exists(path) else 0
            t = np.uint64(t0) + np.arange(k * size, (k + 1) * size, dtype=np.uint64) * np.uint64(step)
            p = np.ones(size, dtype=np.uint32)
            alive.append(weakref.ref(t))
            yield t, p
            del t, p

    if kind == "statistics":
        with _cli(["x"], os.path.dirname(path)):
            m.print_statistics_stream("none", stream(), blocks, resolution=m.TSRES.PS4,
                                      display=False)
    else:
        kw = {} if legacy is None else {"legacy": legacy}
        getattr(m, "swrite_" + kind)(path, stream(), blocks, resolution=m.TSRES.PS4,
                                     display=False, **kw)
        seen["size"] = os.path.getsize(path)
    return seen
