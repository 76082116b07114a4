"""Shared parts of the demonstrations: events, files, processes, simulated streams."""
import atexit
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import time

REPO = os.getcwd()
SRC = os.path.join(REPO, "src")
sys.path.insert(0, SRC)
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
ENV = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE="1")


def path(name):
    return os.path.join(TMP, name)


def word(t, p=1):
    return (t & ((1 << 54) - 1)) << 10 | p


def a1(events, legacy=False):
    out = b""
    for t, p in events:
        w = word(t, p)
        if legacy:
            w = (w & 0xFFFFFFFF) << 32 | w >> 32
        out += struct.pack("<Q", w)
    return out


def bits_of(*fields):
    return "".join(format(v, "0%db" % n) for v, n in fields)


def save(name, data):
    with open(path(name), "wb") as f:
        f.write(data)
    return path(name)


def load(name):
    with open(path(name), "rb") as f:
        return f.read()


def words(data):
    return list(struct.unpack("<%dQ" % (len(data) // 8), data[:len(data) // 8 * 8]))


def module(name, *args, stdin=b"", ok=True):
    r = subprocess.run([sys.executable, "-m", name, *map(str, args)], input=stdin,
                       capture_output=True, env=ENV, cwd=TMP, timeout=200)
    if ok and r.returncode:
        sys.exit("%s %s failed:\n%s" % (name, args, r.stderr.decode()[-1500:]))
    return r


def freqcd_binary():
    exe = path("freqcd")
    if not os.path.exists(exe):
        subprocess.run(["gcc", "-w", "-o", exe, os.path.join(SRC, "fpfind/freqcd.c"),
                        os.path.join(SRC, "fpfind/lib/getopt.c"), "-lm"], check=True)
    return exe


def freqcd(data, *args):
    return subprocess.run([freqcd_binary(), *map(str, args)], input=data, capture_output=True,
                          cwd=TMP, timeout=60)


class Live:
    """A running freqcd fed step by step."""

    def __init__(self, *args, freq=False):
        extra = []
        self.ff = None
        if freq:
            os.mkfifo(path("freq"))
            self.ff = os.open(path("freq"), os.O_RDWR | os.O_NONBLOCK)
            extra = ["-F", path("freq")]
        self.p = subprocess.Popen([freqcd_binary(), *map(str, args), *extra],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=TMP)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.out = b""

    def feed(self, data, expect):
        """Send data, wait until 'expect' output bytes are there altogether (or 2 s)."""
        self.p.stdin.write(data)
        self.p.stdin.flush()
        end = time.time() + 2
        while time.time() < end:
            got = self.p.stdout.read()
            if got:
                self.out += got
            if len(self.out) >= expect:
                break
            time.sleep(0.005)
        time.sleep(0.05)
        return self.out

    def freq(self, text):
        os.write(self.ff, text)
        time.sleep(0.3)

    def close(self):
        self.p.stdin.close()
        os.set_blocking(self.p.stdout.fileno(), True)
        self.out += self.p.stdout.read()
        self.p.wait(20)
        return self.out


def expect(cond, what):
    if not cond:
        sys.exit("DEMO: " + what)


def streams(q=14, R=16, s=6.0, k=1, dt=20000.0, df=5e-6, N=200, C=1 << 40, seed=1, noise=0.3,
            extra=0.0):
    """Two event streams in 1/256 ns with b = a (1+df) + dt about C."""
    import numpy as np
    rng = np.random.default_rng(seed)
    Ta = k * R * (1 << q)
    length = (s + 1.6) * Ta + 1.2 * abs(dt) + extra
    n = rng.poisson(N / Ta * length)
    base = rng.uniform(0, length, n)
    a = np.concatenate([base, rng.uniform(0, length, int(noise * n))])
    b = np.concatenate([base * (1 + df) + dt, rng.uniform(0, length, int(noise * n)) + dt])
    C += int(abs(dt) * 300)
    return (np.sort(np.floor(a * 256).astype(np.int64)) + C,
            np.sort(np.floor(b * 256).astype(np.int64)) + C)


def save_stream(name, t, p=1):
    import numpy as np
    w = (t.astype(np.uint64) << np.uint64(10)) | np.uint64(p)
    w.astype("<u8").tofile(path(name))
    return path(name)


def fpfind(a, b, *args, ok=True):
    """(df, dt) printed for streams a, b; None if it failed."""
    save_stream("a.dat", a)
    save_stream("b.dat", b)
    r = module("fpfind.fpfind", "-t", path("a.dat"), "-T", path("b.dat"), *args, ok=ok)
    if r.returncode:
        return None
    v = r.stdout.decode().split()
    return float(v[0]), (int(v[1]) if len(v) > 1 else None)
