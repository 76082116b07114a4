"""Simulated event streams of two parties, and fpfind runs on them.

Runs in the project's interpreter.  The streams are generated here from a few
numbers and a seed (they are too big to ship); everything that is judged is
computed from the very integers that were written to the files.
"""
import contextlib
import os

import numpy as np

UNIT = 256          # timestamps are in 1/256 ns
EPOCH_NS = 1 << 29


def streams(c):
    """Two sorted integer arrays (1/256 ns): reference and target side.

    Pairs satisfy  b - C = (a - C) * (1 + df) + dt + jitter.
    """
    rng = np.random.default_rng(c["seed"])
    Ta = c["k"] * c["R"] * (1 << c["q"])
    skip = c.get("skip", 0) * 1e9
    length = (c["s"] + 1) * Ta + 1.05 * abs(c["dt"]) + abs(c["df"]) * (c["s"] + 2) * Ta \
        + 0.5 * Ta + skip
    if c.get("length"):
        length = c["length"]
    n = rng.poisson(c["N"] / Ta * length)
    na = rng.poisson(c["N"] * c["na"] / Ta * length)
    nb = rng.poisson(c["N"] * c["nb"] / Ta * length)
    base = rng.uniform(0, length, n)
    if c.get("uncorrelated"):
        pair = rng.uniform(0, length, n)
    else:
        pair = base
    a = np.concatenate([base, rng.uniform(0, length, na)])
    jitter = rng.uniform(-c["jitter"], c["jitter"], n)
    b = np.concatenate([pair * (1 + c["df"]) + c["dt"] + jitter,
                        rng.uniform(0, length, nb) * (1 + c["df"]) + c["dt"]])
    C = c["C"]
    a = np.sort(np.floor(a * UNIT).astype(np.int64)) + C
    b = np.sort(np.floor(b * UNIT).astype(np.int64)) + C
    return a, b


def write_a1(path, t, legacy, det=1):
    w = (t.astype(np.uint64) << np.uint64(10)) | np.uint64(det)
    if legacy:
        w = (w << np.uint64(32)) | (w >> np.uint64(32))
    w.astype("<u8").tofile(path)


def common(c):
    given = [("-k", "k", 1), ("-q", "q", 26), ("-R", "R", 16), ("-r", "r", 1), ("-s", "s", 6.0),
             ("-S", "S", 6.0)]
    out = []
    for opt, key, default in given:
        if not (c.get("terse") and c[key] == default):      # what is documented as the default
            out += [opt, repr(c[key])]
    return out


def run(argv, cwd):
    from vf import sut
    return sut.run_main("fpfind.fpfind", ["fpfind"] + argv, cwd)


def facts(c, a, b):
    """What the result must be, and enough to judge precision."""
    start = max(int(a[0]), int(b[0]))
    skip = c.get("skip", 0) * 10 ** 9
    since = (start - c["C"]) / UNIT + skip
    return {"dt": c["dt"] + since * c["df"], "na": len(a), "nb": len(b),
            "first_a": int(a[0]), "first_b": int(b[0]),
            "since": since, "span": (min(int(a[-1]), int(b[-1])) - start) / UNIT}


def fp_case(c, directory, variants):
    """Write the pair of files, run fpfind once per variant.

    variant: {"args": [...], "legacy": bool, "shift": int, "swap": bool, "out": ...}
    """
    a, b = streams(c)
    res = []
    for i, v in enumerate(variants):
        x, y = (b, a) if v.get("swap") else (a, b)
        if v.get("more"):
            x, y = more(c, x, y, v["more"])
        fa, fb = os.path.join(directory, f"a{i}"), os.path.join(directory, f"b{i}")
        write_a1(fa, x + v.get("shift", 0), v.get("legacy", False))
        write_a1(fb, y + v.get("shift", 0), v.get("legacy", False), 2)
        with open(fa, "rb") as f:
            h1 = hash(f.read())
        argv = ["-t", f"a{i}", "-T", f"b{i}"] + common(c)
        if v.get("legacy"):
            argv += ["-X"]
        if c.get("skip"):
            argv += ["-Z", repr(c["skip"])]
        if v.get("config"):
            # save the options as a configuration file, then run from it
            how = v["config"]
            name = "fpfind.default.conf" if how == "default" else "saved.conf"
            other = ["-V", "6"] if how == "overridden" else []
            saved = run(argv + v.get("args", []) + other + ["--save", name], directory)
            if saved["code"] or saved["exc"]:
                saved["argv"] = argv + ["--save", "saved.conf"]
                res.append(saved)
                continue
            argv = [] if how == "default" else ["--config", name]
            argv += ["-V", "0"] * (how == "overridden")
        r = run(argv + v.get("args", []), directory)
        with open(fa, "rb") as f:
            r["touched"] = hash(f.read()) != h1
        r.pop("outb", None)
        if v.get("config"):
            os.remove(os.path.join(directory, name))
        r["argv"] = argv + v.get("args", [])
        res.append(r)
    return {"facts": facts(c, a, b), "runs": res}


def more(c, a, b, n):
    """n unrelated events on either side, after all the needed ones."""
    rng = np.random.default_rng(c["seed"] + 1)
    out = []
    for t in (a, b):
        last = max(int(a[-1]), int(b[-1])) + 1
        extra = np.sort(rng.integers(last, last + (1 << 32), n))
        out.append(np.concatenate([t, extra]))
    return out


def fp_epoch_case(c, directory):
    """The same events as epoch directories and as raw files: two runs."""
    from vf import ref
    E = EPOCH_NS * UNIT
    need = -(-((c["s"] + 1) * c["k"] * c["R"] * (1 << c["q"])) // EPOCH_NS)
    n = int(need) + 1                         # one epoch more than the duration needs
    first = c["first"]
    use = first + c["z"]                      # first epoch that counts
    before, after = c["before"], c["after"]
    lo = first - before
    sim = dict(c, C=c["phase"], length=float((n + after + 2 + c["z"] + before) * EPOCH_NS))
    a, b = streams(sim)                       # times from the start of epoch lo
    a = a >> 5 << 5                           # T2 files hold 1/8 ns
    last = use + n + after
    for name, t in (("send", a), ("t1", b)):
        sub = os.path.join(directory, name)
        os.mkdir(sub)
        at = np.searchsorted(t, [(e - lo) * E for e in range(lo, last + 1)])
        for i, e in enumerate(range(lo, last)):
            if name == "send" and e in c["hole"]:
                continue
            ts = [int(x) for x in t[at[i]:at[i + 1]] - i * E]
            if name == "t1":
                data = ref.encode_T1(e, [(((e & 0x1FFFF) << 37) + x, 2) for x in ts])
            else:
                ts = [x >> 5 for x in ts]
                diffs = [y - x for x, y in zip([0] + ts, ts)]
                data = ref.encode_T2(e, diffs, [1] * len(ts), c["order"], 4, [0] * len(ts))
            with open(os.path.join(sub, "%x" % e), "wb") as f:
                f.write(data)
    i0, i1 = (use - lo) * E, (use + n - lo) * E
    write_a1(os.path.join(directory, "a"), a[(a >= i0) & (a < i1)], False)
    write_a1(os.path.join(directory, "b"), b[(b >= i0) & (b < i1)], False, 2)
    ea = ["-d", "send", "-D", "t1"]
    if c["give_e"]:
        ea += ["-e", "%x" % first]
    if c["z"]:
        ea += ["-z", str(c["z"])]
    res = []
    for argv in (ea + common(c), ["-t", "a", "-T", "b"] + common(c)):
        r = run(argv + c.get("args", []), directory)
        r.pop("outb", None)
        r["argv"] = argv
        res.append(r)
    x, y = a[(a >= i0) & (a < i1)], b[(b >= i0) & (b < i1)]
    return {"facts": facts(sim, x, y) if len(x) and len(y) else None, "runs": res, "epochs": n}


def fp_raw_case(c, directory, argv):
    """fpfind on generated streams, cut to a length or emptied as told."""
    a, b = streams(c)
    for side in ("a", "b"):
        t = a if side == "a" else b
        cut = c.get("cut_" + side)
        if cut is not None:
            start = max(int(a[0]), int(b[0]))
            t = t[t < start + int(cut * UNIT)]
        if c.get("keep_" + side) is not None:
            t = t[:c["keep_" + side]]
        write_a1(os.path.join(directory, side), t, False)
    r = run(argv + common(c) + c.get("args", []), directory)
    r.pop("outb", None)
    r["argv"] = argv + common(c) + c.get("args", [])
    return {"facts": facts(c, a, b), "run": r, "n": [len(a), len(b)]}


def fp_log_case(c, directory):
    """The same run at each verbosity, with and without a log file."""
    a, b = streams(c)
    if c["cut"]:
        b = b[:c["cut"]]
    write_a1(os.path.join(directory, "a"), a, False)
    write_a1(os.path.join(directory, "b"), b, False)
    from vf import sut
    out = []
    for i, v in enumerate(c["runs"]):
        argv = ["-t", "a", "-T", "b"] + common(c) + c["args"]
        argv += [["-v"] * v["v"], ["-" + "v" * v["v"]] * bool(v["v"])][v["joined"]]
        log = os.path.join(directory, f"log{i}")
        if v["log"]:
            argv += [["-L", log], ["--logging=" + log]][v["joined"]]
            if v["old"]:
                with open(log, "w") as f:
                    f.write("an older log\t| of before\n" * 3)
        r = sut.run_main("fpfind.fpfind", ["fpfind"] + argv, directory, keep=1 << 22)
        r.pop("outb")
        r["argv"] = argv
        r["log"] = None
        if os.path.exists(log):
            with open(log) as f:
                r["log"] = f.read()
        out.append(r)
    return out


def shaped(c):
    """Streams of all shapes, related or not."""
    rng = np.random.default_rng(c["seed"])
    out = []
    length = max(c["length"] * c["k"] * c["R"] * (1 << c["q"]), 1)
    base = None
    for side in "ab":
        kind, n = c["shape_" + side], c["n_" + side]
        if kind == "same" and base is not None:
            t = base * (1 + c["df"]) + c["dt"]
        elif kind == "uniform" or kind == "same":
            t = rng.uniform(0, length, n)
        elif kind == "comb":
            t = np.arange(n) * (length / max(n, 1))
        elif kind == "burst":
            t = rng.uniform(0, length, 1 + n // 20)[rng.integers(0, 1 + n // 20, n)] \
                + rng.uniform(0, c["R"] * 3, n)
        elif kind == "still":
            t = np.full(n, length / 2)
        else:   # end: all at both ends
            t = rng.integers(0, 2, n) * length + rng.uniform(0, c["R"], n)
        base = t
        t = np.sort(np.floor(np.maximum(t, -c["C"] / UNIT / 2) * UNIT).astype(np.int64)) + c["C"]
        out.append(t[(t >= 0) & (t < 1 << 54)])
    return out


def fp_shaped_case(c, directory, argv):
    for side, t in zip("ab", shaped(c)):
        write_a1(os.path.join(directory, side), t, False)
    r = run(["-t", "a", "-T", "b"] + argv, directory)
    r.pop("outb", None)
    return r
