"""Worker processes: unprivileged, persistent, one forked child per case, inside a scratch directory of their own."""
import json, os, select, shutil, signal, subprocess, tempfile, time

UID = 61234
BASE = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"


class HarnessError(Exception):
    """The machinery failed (never a property violation)."""


class Scratch:
    """A directory owned by the unprivileged user; removed with everything in it at the end."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="azv-", dir=BASE)
        os.chmod(self.path, 0o755)
        os.chown(self.path, UID, UID)
        self.n = 0

    def fresh(self):
        """an empty case directory"""
        p = os.path.join(self.path, "case")
        force_rmtree(p)
        os.mkdir(p, 0o755)
        os.chown(p, UID, UID)
        return p

    def close(self):
        force_rmtree(self.path)


def force_rmtree(p):
    if not os.path.lexists(p):
        return
    assert p.startswith(BASE + "/azv-"), p
    if os.path.islink(p) or not os.path.isdir(p):
        os.unlink(p)
        return
    shutil.rmtree(p, ignore_errors=False)


class Worker:
    def __init__(self, exe, scratch, tag):
        self.scratch = scratch
        self.exe = os.path.join(scratch.path, "bin-" + tag)
        if not os.path.exists(self.exe):
            shutil.copy(exe, self.exe)
            os.chmod(self.exe, 0o755)
        self.proc = None
        self.restarts = 0

    def start(self):
        r_cmd, w_cmd = os.pipe()
        r_res, w_res = os.pipe()
        env = {"PATH": "/usr/bin:/bin", "HOME": self.scratch.path, "LC_ALL": "C.UTF-8", "TZ": "UTC",
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=86:abort_on_error=0:symbolize=1:allocator_may_return_null=0:"
                               "quarantine_size_mb=16:detect_stack_use_after_return=0:malloc_context_size=8:strict_string_checks=0:"
                               "handle_abort=1:thread_local_quarantine_size_kb=64:detect_odr_violation=0",
               "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
               "TSAN_OPTIONS": "exitcode=87:halt_on_error=1:die_after_fork=0:second_deadlock_stack=1:history_size=4:"
                               "report_signal_unsafe=0:detect_deadlocks=1"}

        # fds 3 and 4 in the child
        def pre():
            os.setsid()
            os.dup2(r_cmd, 203)
            os.dup2(w_res, 204)
            os.dup2(203, 3)
            os.dup2(204, 4)
            os.closerange(5, 260)

        self.proc = subprocess.Popen([self.exe], preexec_fn=pre, close_fds=False, env=env, cwd=self.scratch.path,
                                     stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                     user=UID, group=UID, extra_groups=[])
        os.close(r_cmd)
        os.close(w_res)
        self.cmd = w_cmd
        self.res = r_res
        self.buf = b""

    def run(self, case):
        """run one case; returns the response dict"""
        for attempt in range(3):
            if self.proc is None or self.proc.poll() is not None:
                if self.proc is not None:
                    self.stop()
                    self.restarts += 1
                self.start()
            try:
                os.write(self.cmd, b"")  # noop
                data = json.dumps(case).encode() + b"\n"
                while data:
                    k = os.write(self.cmd, data)
                    data = data[k:]
                line = self._readline(case.get("timeout", 60.0) + 60)
                if line is not None:
                    r = json.loads(line)
                    if "harness_error" in r:
                        raise HarnessError(r["harness_error"])
                    return r
            except BrokenPipeError:
                pass
            self.stop()
        raise HarnessError("worker does not answer")

    def _readline(self, timeout):
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([self.res], [], [], left)
            if not r:
                return None
            d = os.read(self.res, 1 << 20)
            if not d:
                return None
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return line

    def stop(self):
        if self.proc is None:
            return
        for fd in (self.cmd, self.res):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()
        self.proc = None
