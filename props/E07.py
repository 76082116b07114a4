"""Epoch numbers, names and calendar dates."""
from fractions import Fraction

from hypothesis import strategies as st

from vf import gen
from vf.client import Violation
from vf.core import Part
from props.E01 import epochs

RULE = ("batches of epoch numbers and of whole-second times between 1970 and 2043: name and number "
        "convert into each other, a date falls in the epoch covering it (2^32 units of 125 ps "
        "each) in any time zone, local or given with the date, an epoch's date is its first instant within 2 us, and order is kept. "
        "Non-trivial: at least two different epochs.")
ASSUMPTIONS = ["times within a few hundred ns of an epoch boundary are not judged"]

ZONES = ["UTC", "SGT-8", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3",
         "<+14>-14", "<-11>11", "NZST-12NZDT,M9.5.0,M4.1.0/3"]
LEN = Fraction(1 << 32, 8 * 10 ** 9)   # seconds


def _case():
    sec = st.one_of(gen.wide(0, 2305000000),
                    epochs().map(lambda e: int(e * LEN)),
                    epochs().map(lambda e: int(e * LEN) + 1)).filter(lambda s: s < 2305000000)
    return st.fixed_dictionaries({
        "seconds": st.lists(st.one_of(sec, sec.map(lambda s: s + 0.5)), max_size=12),
        "epochs": st.lists(epochs(), max_size=12), "upper": st.booleans(),
        "zone": st.sampled_from(ZONES), "aware": st.one_of(st.none(), st.integers(-1439, 1439))})


def check(case, env):
    names = [f"{e:x}" for e in case["epochs"]]
    got = env.sut("ep_dates", seconds=case["seconds"],
                  epochs=[n.upper() if case["upper"] else n for n in names], ints=case["epochs"],
                  zone=case["zone"], aware=case["aware"])
    if got["epoch2int"] != case["epochs"]:
        raise Violation(f"epochs {names} read as {got['epoch2int']}")
    if got["int2epoch"] != names:
        raise Violation(f"epochs {names} named {got['int2epoch']}")
    for e, us in zip(case["epochs"], got["epoch2date"]):
        if abs(Fraction(us, 10 ** 6) - e * LEN) > Fraction(2, 10 ** 6):
            raise Violation(f"epoch {e:#x} begins at {float(e * LEN)} s, not {us / 1e6} s")
    lo, e, hi = got["now"]
    if not int((int(lo) - 1) / LEN) <= e <= int((int(hi) + 1) / LEN):
        raise Violation(f"without a date, {lo} s after 1970 is in epoch {e:#x}")
    for s, name in zip(case["seconds"], got["date2epoch"]):
        x = Fraction(int(s)) / LEN
        e = int(name, 16)
        lo, hi = int(x - Fraction(1, 10 ** 6)) if x > 1 else 0, int(x + Fraction(1, 10 ** 6))
        if isinstance(s, float):   # the fraction of a second may or may not count
            hi = max(hi, int(Fraction(s) / LEN + Fraction(1, 10 ** 6)))
        if not lo <= e <= hi:
            raise Violation(f"{s} s after 1970 is in epoch {hi:#x}, not {name}")
        if len(name) < 8 or name != name.lower():
            raise Violation(f"epoch name {name!r}")


def classify(case):
    return len(set(case["epochs"])) >= 2, [
        "zone " + case["zone"].split(",")[0], "local dates" if case["aware"] is None else "dates with a zone"]


PARTS = [Part("convert", _case, check, classify, quick=4000, thorough=60000)]
