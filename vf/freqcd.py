"""Drives the compiled freqcd as a real process over real pipes."""
import array
import fcntl
import os
import select
import subprocess
import termios
import time
from fractions import Fraction

from vf.client import REPO, HarnessError, Violation
from vf import ref

FMAX = 1 << 21
MOD = 1 << 54


def build(env, sanitize=False):
    """The program as it is, with address checking (True), or with checks for
    uninitialised memory ("memory")."""
    out = os.path.join(env.scratch, {False: "freqcd", True: "freqcd-asan"}.get(sanitize, "freqcd-msan"))
    src = os.path.join(REPO, "src/fpfind")
    cmd = ["gcc", "-o", out]
    if sanitize == "memory":
        cmd = ["clang", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int",
               "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types", "-o", out, "-g", "-O1", "-fsanitize=memory", "-fno-sanitize-recover=all"]
    elif sanitize:
        cmd += ["-g", "-O1", "-fsanitize=address,bounds,object-size",
                "-fno-sanitize-recover=all"]
    cmd += [os.path.join(src, "freqcd.c"), os.path.join(src, "lib/getopt.c"), "-lm"]
    r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode and sanitize == "memory":
        return build(env, True)         # gcc accepts what clang may not
    if r.returncode:
        raise HarnessError("freqcd does not compile:\n" + r.stdout.decode()[-2000:])
    return out


def pending(fd):
    """Bytes waiting in a pipe."""
    buf = array.array("i", [0])
    fcntl.ioctl(fd, termios.FIONREAD, buf)
    return buf[0]


ENVIRON = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8",
           "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "exitcode=86", "MSAN_OPTIONS": "exitcode=86"}


def run(binary, args, data, cwd, wall=60):
    """One run with the whole input ready.  (status, stdout, stderr)"""
    p = subprocess.Popen([binary] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, env=ENVIRON)
    try:
        out, err = p.communicate(data, timeout=wall)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Violation(f"freqcd {args} still running after {wall}s of wall time")
    return p.returncode, out, err.decode(errors="replace")


class Session:
    """A freqcd whose input, output and frequency channel we feed step by step.

    Every step waits until freqcd has taken what it was given, so the order in
    which it sees things is ours and not the scheduler's.
    """

    WALL = 60

    def __init__(self, binary, args, cwd, freq=False, named_in=False, named_out=False):
        self.cwd = cwd
        self.freq_w = self.in_w = self.out_r = None
        args = list(args)
        self.fifo_fds = []
        stdin, stdout = subprocess.PIPE, subprocess.PIPE
        if freq:
            path = os.path.join(cwd, "freq.fifo")
            os.mkfifo(path)
            self.freq_w = os.open(path, os.O_RDWR)
            args += ["-F", "freq.fifo"]
        if named_in:
            path = os.path.join(cwd, "in.fifo")
            os.mkfifo(path)
            self.in_w = os.open(path, os.O_RDWR)
            args += ["-i", "in.fifo"]
            stdin = subprocess.DEVNULL
        if named_out:
            path = os.path.join(cwd, "out.fifo")
            os.mkfifo(path)
            self.out_r = os.open(path, os.O_RDONLY | os.O_NONBLOCK)
            args += ["-o", "out.fifo"]
            stdout = subprocess.DEVNULL
        self.p = subprocess.Popen([binary] + args, stdin=stdin, stdout=stdout,
                                  stderr=subprocess.PIPE, cwd=cwd, env=ENVIRON)
        self.named_in, self.named_out = named_in, named_out
        if not named_in:
            self.in_w = self.p.stdin.fileno()
        if not named_out:
            self.out_r = self.p.stdout.fileno()
        self.out = b""
        self.closed = False

    def _drain(self, fd, what):
        end = time.monotonic() + self.WALL
        pause = 0.00002
        while pending(fd):
            if self.p.poll() is not None:
                return False
            self._take(0)
            if time.monotonic() > end:
                raise Violation(f"freqcd did not read its {what} within {self.WALL}s")
            time.sleep(pause)
            pause = min(pause * 1.5, 0.002)
        return True

    def _take(self, timeout):
        """Read available output; False at end of file."""
        r, _, _ = select.select([self.out_r], [], [], timeout)
        if not r:
            return True
        b = os.read(self.out_r, 1 << 16)
        if not b:
            return False
        self.out += b
        return True

    def feed(self, data):
        """Give event bytes and wait until they are read."""
        view = memoryview(data)
        while view:
            try:
                n = os.write(self.in_w, view[:1 << 15])
            except BrokenPipeError:
                return
            view = view[n:]
            self._drain(self.in_w, "input")

    def frequency(self, data):
        """Give frequency bytes and wait until they are read."""
        view = memoryview(data)
        while view:
            n = os.write(self.freq_w, view[:4096])
            view = view[n:]
            if not self._drain(self.freq_w, "frequency channel"):
                return

    def expect(self, nbytes, grace=20):
        """Wait until that much output is there (or clearly will not come)."""
        end = time.monotonic() + grace
        while len(self.out) < nbytes and time.monotonic() < end:
            if not self._take(0.2) and not self.named_out:
                break
            if self.p.poll() is not None:
                self._take(0)
                break

    def close_freq(self):
        if self.freq_w is not None:
            os.close(self.freq_w)
            self.freq_w = None

    def finish(self):
        """Close the input, collect the rest.  (status, output, stderr)"""
        if self.named_in:
            os.close(self.in_w)
        else:
            try:
                self.p.stdin.close()
            except BrokenPipeError:
                pass
        self.in_w = None
        end = time.monotonic() + self.WALL
        while self.p.poll() is None:
            self._take(0.01)
            if time.monotonic() > end:
                self.kill()
                raise Violation(f"freqcd still running {self.WALL}s after its input closed")
        while pending(self.out_r):
            if not self._take(0):
                break
        err = self.p.stderr.read().decode(errors="replace")
        self.kill()
        return self.p.returncode, self.out, err

    def kill(self):
        if self.closed:
            return
        self.closed = True
        self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            if f is not None:
                try:
                    f.close()
                except OSError:
                    pass
        if self.named_in and self.in_w is not None:
            os.close(self.in_w)
        if self.named_out:
            os.close(self.out_r)
        self.close_freq()


def off(got, want):
    """got - want on the 54-bit circle, as a Fraction nearest to zero."""
    d = (Fraction(got) - want) % MOD
    return d - MOD if d > MOD // 2 else d


def compare(data, events, legacy, corrections, tolerance, what):
    """events: [(ts, low10)]; corrections: exact Fractions to add;
    tolerance: one Fraction or one per event."""
    if len(data) % 8:
        raise Violation(f"{what}: {len(data)} bytes of output are not whole events")
    got = ref.decode_events(data, "a1", legacy)
    if len(got) != len(events):
        raise Violation(f"{what}: {len(got)} events out, {len(events)} events in")
    for i, ((t, p), (g, q), c) in enumerate(zip(events, got, corrections)):
        if p != q:
            raise Violation(f"{what}: event {i} detector/flag bits {p:#x} became {q:#x}")
        tol = tolerance[i] if isinstance(tolerance, list) else tolerance
        d = off(g, t + c)
        if abs(d) > tol:
            raise Violation(f"{what}: event {i} at {t} corrected to {g}, should be "
                            f"{float((t + c) % MOD):.2f} (off by {float(d):.2f} units, "
                            f"tolerance {float(tol):.2f})")


def static_corrections(events, f):
    """Exact correction of each event: elapsed time since the first, 2^-34 f."""
    if not events:
        return []
    t0 = events[0][0]
    return [Fraction(((t - t0) % MOD) * f, 1 << 34) for t, _ in events]
