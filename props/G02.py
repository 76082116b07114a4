"""fpplot histograms the reference against the compensated target."""
import os
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen, ref
from vf.client import Violation
from vf.core import Part

RULE = ("generated event files and epoch directories, skew, delay, width, duration, skipped start "
        "and word order on the fpplot command with its absent third-party parts replaced by "
        "recorders: the histogram must be taken once, of the reference times and of (target - "
        "delay) / (1 + skew), both counted from the common start, limited to the duration, and be "
        "what is plotted and saved; with one side not given it fails. Non-trivial: skew and delay are non-zero and events are left "
        "on both sides.")
ASSUMPTIONS = ["boiler, S15lib and the plotting library are replaced by recording stand-ins"]


@st.composite
def _case(draw):
    epochs = draw(st.integers(0, 3)) == 0
    unit = 32 if epochs else 1
    span = st.sampled_from([1 << 20, 1 << 32, 1 << 36, (1 << 37) - 1])
    top = draw(span)
    def stream():
        n = draw(st.integers(1, 12))
        return sorted(v - v % unit for v in
                      draw(st.lists(gen.wide(0, top), min_size=n, max_size=n)))
    c = {"epochs": epochs, "a": stream(), "b": stream(),
         "base": draw(st.one_of(gen.wide(0, 1 << 53), st.just(0))),
         "freq": draw(st.one_of(st.floats(-200, 200), st.floats(-200, 200), st.floats(-1, 1), st.just(0.0))),
         "time": draw(st.one_of(st.floats(-1e8, 1e8), st.integers(-10**7, 10**7).map(float), st.just(0.0))),
         "width": draw(st.sampled_from([None, 10.0, 1000.0, 2500.5])),
         "duration": draw(st.sampled_from([None, None, None, 0.0625, 0.0625, 0.25, 0.25, 1.0, 1.0,
                                          0.0, "part", "part", "part"])),
         "skip": draw(st.sampled_from([0, 0, 0.0625, 0.125])),
         "legacy": draw(st.booleans()), "save": draw(st.booleans()),
         "lack": draw(st.sampled_from([""] * 30 + ["a", "b"]))}
    if c["duration"] == "part":
        c["duration"] = draw(st.integers(1, 40)) * top / 32 / 256e9
    c["terse"] = draw(st.booleans())    # options at their default are left out
    if c["terse"] and draw(st.booleans()):
        c[draw(st.sampled_from(["freq", "time"]))] = 0.0
    if epochs:
        c["first"] = draw(gen.wide(1, (1 << 32) - 20))
        c["n"] = draw(st.integers(1, 2))
        c["z"] = draw(st.integers(0, 1))
        c["e"] = draw(st.booleans())
        c["before"] = draw(st.integers(0, 2)) * c["e"]
        c["which"] = [draw(st.lists(st.integers(0, c["n"] + c["z"]), min_size=len(c[s]),
                                    max_size=len(c[s]))) for s in "ab"]
    return c


def check(case, env):
    d = env.newdir()
    argv = ["fpplot"]
    argv += [f"--freq={case['freq']!r}"] * bool(case["freq"] or not case["terse"])
    argv += [f"--time={case['time']!r}"] * bool(case["time"] or not case["terse"])
    if case["width"] is not None:
        argv += ["--width", repr(case["width"])]
    if case["duration"] is not None:
        argv += ["--duration", repr(case["duration"])]
    if case["save"]:
        argv += ["--save-plot", "plot.png"]
    skip = case["skip"]
    if case["epochs"]:
        E = 1 << 37
        lo, hi = case["first"] + case["z"], case["first"] + case["z"] + case["n"]
        sides = []
        for s, which in zip("ab", case["which"]):
            per = {e: [] for e in range(max(0, case["first"] - case["before"]), hi + 1)}
            for e in range(min(per), case["first"]):
                per[e] = [64 * (e & 0xfff) + 6400]
            for t, k in zip(case[s], which):
                per[case["first"] + k].append(t)
            os.mkdir(os.path.join(d, s))
            for e, ts in per.items():
                ts.sort()
                if s == "b":
                    data = ref.encode_T1(e, [(((e & 0x1FFFF) << 37) + t, 2) for t in ts if t])
                    ts = [t for t in ts if t]
                else:
                    u = [t >> 5 for t in ts]
                    data = ref.encode_T2(e, [y - x for x, y in zip([0] + u, u)], [1] * len(u),
                                         16, 4, [0] * len(u))
                with open(os.path.join(d, s, f"{e:x}"), "wb") as f:
                    f.write(data)
            sides.append([e * E + t for e in sorted(per) for t in per[e] if lo <= e < hi])
            if s == "b":
                sides[-1] = [e * E + t for e in sorted(per) for t in per[e] if lo <= e < hi and t]
        argv += ["-d", "a", "-D", "b"]
        argv += ["-n", str(case["n"])] * (case["n"] != 1 or not case["terse"])
        argv += ["-z", str(case["z"])] * (case["z"] != 0 or not case["terse"])
        if case["e"]:
            argv += ["-e", f"{case['first']:x}"]
        skip = 0
        if not sides[0] or not sides[1]:
            return
    else:
        sides = [[t + case["base"] for t in case[s]] for s in "ab"]
        for s, ts in zip("ab", sides):
            with open(os.path.join(d, s), "wb") as f:
                f.write(ref.encode_events([(t, 1) for t in ts], "a1", case["legacy"]))
        argv += ["-t", "a", "-T", "b"] + ["-X"] * case["legacy"]
        if skip:
            argv += ["-Z", repr(skip)]
    start = max(sides[0][0], sides[1][0]) + int(skip * 256 * 10 ** 9)
    A, B = [[Fraction(t - start, 256) for t in s if t >= start] for s in sides]
    if case["duration"] is not None:
        lim = Fraction(case["duration"]) * 10 ** 9
        A, B = [[t for t in s if t < lim] for s in (A, B)]
    f = 1 + Fraction(case["freq"]) / 10 ** 6
    B = [(t - Fraction(case["time"])) / f for t in B]
    if case["lack"]:
        i = argv.index({"a": "-d", "b": "-D"}[case["lack"]] if case["epochs"] else
                       {"a": "-t", "b": "-T"}[case["lack"]])
        del argv[i:i + 2]
        r = env.sut("plot_main", argv=argv, cwd=d)
        if r["hist"] or not r["exc"] and not r["code"]:
            raise Violation(f"{' '.join(argv)}: one side is missing, yet it ends with {r['code']} and "
                            f"{len(r['hist'])} histograms")
        return
    r = env.sut("plot_main", argv=argv, cwd=d)
    what = " ".join(argv)
    if (not A or not B) and not r["hist"]:
        return          # with nothing left on a side it may give up, or show nothing
    if r["exc"] or r["code"]:
        if A and B:
            raise Violation(f"{what}: {r['exc'] or r['code']}")
    if len(r["hist"]) != 1:
        raise Violation(f"{what}: {len(r['hist'])} histograms taken")
    ga, gb, pos, kw = r["hist"][0]
    for name, g, w in (("reference", ga, A), ("target", gb, B)):
        g = ref.values(g)
        if len(g) != len(w):
            raise Violation(f"{what}: {len(g)} {name} events in the histogram, should be {len(w)}")
        for i, (x, y) in enumerate(zip(g, w)):
            if abs(x - y) > Fraction(1, 500):
                raise Violation(f"{what}: {name} event {i} at {float(x):.3f} ns, should be "
                                f"{float(y):.3f} ns")
    width = Fraction(case["width"] if case["width"] is not None else 1000)
    given = [Fraction(*v) for v in pos] + [Fraction(*v) for v in kw.values() if v]
    if width not in given:
        raise Violation(f"{what}: histogram width {[float(v) for v in given]}, "
                        f"should be {float(width)}")
    if r["plot"] != [["XS", "YS"]]:
        raise Violation(f"{what}: plotted {r['plot']}, not the histogram once")
    if r["saved"] != (["plot.png"] if case["save"] else []):
        raise Violation(f"{what}: saved to {r['saved']}")


def classify(case):
    return case["freq"] != 0 and case["time"] != 0, ["epochs" if case["epochs"] else "raw files"] + \
        ["epochs before the first"] * bool(case.get("before")) + ["one side missing"] * bool(case["lack"]) + \
        ["duration cuts"] * (case["duration"] is not None)


PARTS = [Part("plot", _case, check, classify, quick=3000, thorough=20000)]
