"""Client of pfhost: sends requests, detects death of the instrumented process."""
import os, struct, subprocess, glob, tempfile, shutil, select, time

class Died(Exception):
    """The instrumented process stopped: crash, assertion, sanitizer report."""
    def __init__(self, rc, report):
        Exception.__init__(self, "process under test ended with %s" % rc)
        self.rc, self.report = rc, report

class Hang(Exception):
    pass

class HarnessError(Exception):
    pass

class Timeout(Exception):
    pass

def san_env(logbase, leaks=True):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=86:halt_on_error=1:detect_leaks=%d:"
                         "allocator_may_return_null=1:max_allocation_size_mb=1024:"
                         "detect_stack_use_after_return=0:log_path=%s" % (1 if leaks else 0, logbase))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=87:log_path=%s" % logbase
    e["LSAN_OPTIONS"] = "exitcode=88:print_suppressions=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:log_path=%s:second_deadlock_stack=1" % logbase
    e["LC_ALL"] = "C"
    return e

class Host:
    def __init__(self, exe, scratch, leaks=True, timeout=120, env=None):
        self.scratch = scratch
        self.logbase = os.path.join(scratch, "san.%d" % id(self))
        self.errpath = os.path.join(scratch, "stderr.%d" % id(self))
        self.err = open(self.errpath, "wb")
        self.timeout = timeout
        self.p = subprocess.Popen(exe if isinstance(exe, list) else [exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=dict(san_env(self.logbase, leaks), **(env or {})),
                                  cwd=scratch, bufsize=0)
        # the driver keeps its reply channel on a dup of stdout; stray prints go to stderr
        self.calls = 0
        self.buf = b""
        self.trace = []       # last calls, for replay reports
        self.keep = 4000
        self.rec = None       # requests and replies, when asked for
        os.set_blocking(self.p.stdout.fileno(), True)
        self.poll = select.poll()
        self.poll.register(self.p.stdout.fileno(), select.POLLIN)

    def _report(self):
        txt = b""
        for f in sorted(glob.glob(self.logbase + "*")):
            try:
                txt += open(f, "rb").read()[:6000] + b"\n"
            except OSError:
                pass
        try:
            self.err.flush()
            with open(self.errpath, "rb") as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 3000))
                txt += f.read()
        except OSError:
            pass
        return txt.decode("utf-8", "replace")

    def _dead(self):
        try:
            rc = self.p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = self.p.wait()
        raise Died(rc, self._report())

    def _read(self, n):
        while len(self.buf) < n:
            if not self.poll.poll(self.timeout * 1000):
                self.p.kill()
                self.p.wait()
                raise Hang("no answer within %ds" % self.timeout)
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                self._dead()
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def raw(self, *fields):
        fs = [f if isinstance(f, (bytes, bytearray)) else
              (b"1" if f is True else b"0" if f is False else str(f).encode("utf-8", "surrogateescape"))
              for f in fields]
        self.calls += 1
        self.trace.append(fs)
        if len(self.trace) > self.keep:
            del self.trace[:self.keep // 2]
        m = struct.pack("<I", len(fs)) + b"".join(struct.pack("<I", len(f)) + bytes(f) for f in fs)
        try:
            v = memoryview(m)
            fd = self.p.stdin.fileno()
            while v:
                k = os.write(fd, v)
                v = v[k:]
        except (BrokenPipeError, OSError):
            self._dead()
        n = struct.unpack("<I", self._read(4))[0]
        out = []
        for _ in range(n):
            l = struct.unpack("<I", self._read(4))[0]
            out.append(self._read(l))
        if self.rec is not None:
            self.rec.append((fs, out))
        return out

    def call(self, *fields):
        """-> (ok, [text fields])"""
        out = self.raw(*fields)
        if out[0] == b"E":
            raise HarnessError(out[1].decode("utf-8", "replace"))
        return out[0] == b"1", [x.decode("utf-8", "surrogateescape") for x in out[1:]]

    def callb(self, *fields):
        out = self.raw(*fields)
        if out[0] == b"E":
            raise HarnessError(out[1].decode("utf-8", "replace"))
        return out[0] == b"1", out[1:]

    def close(self):
        """Orderly end; a leak or late report raises Died."""
        try:
            try:
                os.write(self.p.stdin.fileno(), struct.pack("<II", 1, 4) + b"quit")
                self.p.stdin.close()
            except OSError:
                pass
            try:
                rc = self.p.wait(timeout=self.timeout)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                raise Hang("process did not end")
            if rc != 0:
                raise Died(rc, self._report())
        finally:
            self.cleanup()

    def cleanup(self):
        try:
            if self.p.poll() is None:
                self.p.kill()
                self.p.wait()
            for s in (self.p.stdin, self.p.stdout):
                try:
                    s.close()
                except OSError:
                    pass
            self.err.close()
            for f in glob.glob(self.logbase + "*") + [self.errpath]:
                try:
                    os.unlink(f)
                except OSError:
                    pass
        except Exception:
            pass
