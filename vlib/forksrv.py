"""Client of native/forksrv.c: thousands of compiler runs per second."""
import os
import signal
import struct
import subprocess

from . import core


class Died(Exception):
    pass


class Server:
    def __init__(self, tool, cwd):
        env = dict(core.ENV)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:"
                               "hard_rss_limit_mb=3000:max_allocation_size_mb=2000:symbolize=0:quarantine_size_mb=8")
        env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
        self.err = os.path.join(cwd, ".stderr")
        self.p = subprocess.Popen([tool.wcpl, self.err], cwd=cwd, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def close(self):
        self.p.stdin.close()
        self.p.wait()

    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise Died("fork server ended")
        return b

    def run(self, args, secs=10):
        """(exit code or string naming the signal, stderr, new coverage?, edges)"""
        m = [struct.pack("<I", len(args) + 1)]
        for a in ["wcpl"] + list(args):
            a = a.encode("latin-1") if isinstance(a, str) else a
            m.append(struct.pack("<I", len(a)) + a)
        m.append(struct.pack("<I", secs))
        self.p.stdin.write(b"".join(m))
        self.p.stdin.flush()
        st, fresh, edges, n = struct.unpack("<IIII", self._rd(16))
        err = self._rd(n)
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            try:
                name = signal.Signals(sig).name
            except ValueError:
                name = str(sig)
            return "killed by " + name, err, fresh, edges
        return os.WEXITSTATUS(st), err, fresh, edges
