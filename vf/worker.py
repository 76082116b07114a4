"""Runs under /opt/venv/bin/python (PyPy 3.9, numpy 1.26: the project's own range).

Executes operations of vf.sut against the code in /repo/src, one request at a
time, over a private pair of pipes.  Every operation is a plain function of
plain data.  Whatever an operation raises is sent back as data: the oracle on
the other side decides what it means.
"""
import os
import pickle
import resource
import signal
import struct
import sys
import traceback


def main():
    rfd, wfd = int(sys.argv[1]), int(sys.argv[2])
    rd = os.fdopen(rfd, "rb", buffering=0)
    wr = os.fdopen(wfd, "wb", buffering=0)
    # The code under test must not reach the request pipes through stdio.
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get("VF_WORKER_STDERR"):
        os.dup2(null, 2)
    mem = int(os.environ.get("VF_WORKER_MEM", str(6 << 30)))
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    class CpuBudgetExceeded(BaseException):
        pass

    def on_prof(*_):
        raise CpuBudgetExceeded("operation exceeded its CPU-time budget")

    signal.signal(signal.SIGPROF, on_prof)

    def recv_exact(n):
        out = b""
        while len(out) < n:
            b = rd.read(n - len(out))
            if not b:
                sys.exit(0)
            out += b
        return out

    def send(obj):
        data = pickle.dumps(obj, protocol=4)
        data = struct.pack("<Q", len(data)) + data
        while data:
            n = wr.write(data)
            data = data[n:]

    from vf import sut

    send(("ready", sut.origin()))
    while True:
        (size,) = struct.unpack("<Q", recv_exact(8))
        op, args, cpu = pickle.loads(recv_exact(size))
        try:
            signal.setitimer(signal.ITIMER_PROF, cpu)
            try:
                reply = ("ok", getattr(sut, op)(**args))
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except CpuBudgetExceeded:
            reply = ("exc", "CpuBudgetExceeded", "more than %ss of CPU time" % cpu, "")
        except BaseException as e:  # SystemExit included
            reply = ("exc", type(e).__name__, str(e)[:2000], traceback.format_exc()[-4000:])
            e = None
        try:
            send(reply)
        except (TypeError, pickle.PicklingError, AttributeError) as e:
            send(("exc", "Unpicklable", repr(e)[:500], ""))


if __name__ == "__main__":
    main()
