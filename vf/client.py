"""The checker's end of the worker protocol (CPython side)."""
import os
import pickle
import select
import shutil
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
VENV_PY = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")


class Violation(Exception):
    """The property is broken by the case at hand."""


class SutRaised(Violation):
    """The code under test raised where the property requires it to work."""

    def __init__(self, op, kind, text, tb):
        self.op, self.kind, self.text, self.tb = op, kind, text, tb
        super().__init__(f"{op}: raised {kind}: {text}")


class HarnessError(Exception):
    """The check itself could not do its work: never a violation."""


def _env(scratch):
    return {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": scratch,
        "LANG": "C.UTF-8",
        "PYTHONPATH": f"{REPO}/src:{VERIF}",
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        # never read a stale .pyc lying beside the sources
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pycache"),
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": scratch,
        "TZ": "UTC",
        "COLUMNS": "200",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        **({"VF_WORKER_STDERR": "1"} if os.environ.get("VF_WORKER_STDERR") else {}),
    }


class Worker:
    def __init__(self, scratch, extra_env=None):
        self.scratch = scratch
        self.extra_env = extra_env or {}
        self.proc = None

    def start(self):
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        env = _env(self.scratch)
        env.update(self.extra_env)
        self.proc = subprocess.Popen(
            [VENV_PY, "-m", "vf.worker", str(a_r), str(b_w)],
            pass_fds=(a_r, b_w), cwd=self.scratch, env=env, stdin=subprocess.DEVNULL,
        )
        os.close(a_r)
        os.close(b_w)
        self.w, self.r = a_w, b_r
        msg = self._recv(180)
        if msg is None or msg[0] != "ready":
            self.stop()
            raise HarnessError(f"worker did not start: {msg!r}")
        if not msg[1].startswith(f"{REPO}/src/"):
            self.stop()
            raise HarnessError(f"worker imports {msg[1]!r}, not {REPO}")

    def stop(self):
        if self.proc is None:
            return
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        self.proc.kill()
        self.proc.wait()
        self.proc = None

    def _read(self, n, end):
        out = b""
        while len(out) < n:
            left = end - time.monotonic()
            if left <= 0:
                raise TimeoutError
            if not select.select([self.r], [], [], min(left, 5))[0]:
                continue
            b = os.read(self.r, min(n - len(out), 1 << 20))
            if not b:
                return None
            out += b
        return out

    def _recv(self, wall):
        end = time.monotonic() + wall
        head = self._read(8, end)
        if head is None:
            return None
        body = self._read(struct.unpack("<Q", head)[0], end)
        return None if body is None else pickle.loads(body)

    def call(self, op, args, cpu=30.0, wall=600.0):
        """('ok', value) | ('exc', kind, text, traceback) | ('dead', status)"""
        if self.proc is None:
            self.start()
        data = pickle.dumps((op, args, cpu), protocol=4)
        data = struct.pack("<Q", len(data)) + data
        try:
            while data:
                data = data[os.write(self.w, data):]
            reply = self._recv(wall)
        except TimeoutError:
            self.stop()
            raise HarnessError(f"{op}: no answer within {wall}s of wall time") from None
        except BrokenPipeError:
            reply = None
        if reply is None:
            status = self.proc.wait(timeout=30)
            self.stop()
            return ("dead", status)
        return reply


class Env:
    """What a property's check sees."""

    def __init__(self, scratch=None):
        self.own = scratch is None
        self.scratch = scratch or tempfile.mkdtemp(
            prefix="vf-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.worker = Worker(self.scratch)
        self.data = {}
        self.counters = {}
        self._n = 0

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def try_sut(self, op, cpu=30.0, **args):
        r = self.worker.call(op, args, cpu)
        if r[0] == "dead":
            # once more, in a fresh interpreter, before believing it
            r2 = self.worker.call(op, args, cpu)
            if r2[0] == "dead":
                return ("exc", "InterpreterDied", f"status {r2[1]}", "")
            raise HarnessError(f"{op}: worker died (status {r[1]}) once, not twice")
        return r

    def sut(self, op, cpu=30.0, **args):
        r = self.try_sut(op, cpu, **args)
        if r[0] == "ok":
            return r[1]
        raise SutRaised(op, r[1], r[2], r[3])

    def newdir(self):
        """A fresh empty directory for one case."""
        self._n += 1
        d = os.path.join(self.scratch, f"c{self._n % 4}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def close(self):
        self.worker.stop()
        for c in self.data.values():
            if hasattr(c, "close"):
                c.close()
        if self.own:
            shutil.rmtree(self.scratch, ignore_errors=True)
