"""Remote interface (P19): clients of all manners against a recording server and against the framework."""
import os, re, random, shutil, socket, struct, subprocess, threading, time
from .host import Host, Died, Hang, HarnessError, san_env
from .world import Mismatch, World

SYNC = 0xBABE
REQUEST, GOOD, BAD = 0, 1, 2      # message identifiers
WAIT = 60

_next = [random.SystemRandom().randrange(100)]
def free_port():
    """A port out of the ephemeral range, in a block of this process."""
    base = 10000 + (os.getpid() % 200) * 100
    for _ in range(100):
        _next[0] = (_next[0] + 1) % 100
        s = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(("::", base + _next[0]))
            return base + _next[0]
        except OSError:
            continue
        finally:
            s.close()
    raise HarnessError("EXCEPTION harness: no free port")

def _v6():
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_STREAM) as s:
            s.bind(("::1", 0))
        return True
    except OSError:
        return False
V6 = _v6()

def b(x):
    return x if isinstance(x, (bytes, bytearray)) else str(x).encode("utf-8", "surrogateescape")

def text(x):
    x = b(x)
    return struct.pack("<I", len(x)) + x

def frame(body, mid=REQUEST, sync=SYNC, size=None, checksum=None):
    size = len(body) + 1 if size is None else size
    c = (sum(body) + mid) & 255 if checksum is None else checksum
    return struct.pack("<HIB", sync, size, mid) + body + bytes([c])

def request(cmd, args):
    return frame(text(cmd) + b"".join(text(a) for a in args))

class Gone(Exception):
    pass

class Client:
    def __init__(self, port, rng=None):
        r = rng.random() if rng else 0
        self.port = port
        try:
            self.s = socket.create_connection(("::1" if r < .3 and V6 else "127.0.0.1", port), timeout=WAIT)
        except (ConnectionRefusedError, ConnectionResetError) as e:
            raise Gone("connection refused: %s" % e)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    def send(self, data, rng=None):
        try:
            if rng is None:
                self.s.sendall(data)
                return
            k = 0
            while k < len(data):
                n = rng.choice([1, 1, 2, 3, 7, 50, 5000])
                self.s.sendall(data[k:k + n])
                k += n
                if rng.random() < .1:
                    time.sleep(rng.choice([.0002, .001, .004]))
        except (BrokenPipeError, ConnectionResetError) as e:
            raise Gone(str(e))
        except socket.timeout:
            raise Hang("the server does not read")
    def read(self, n):
        out = b""
        while len(out) < n:
            try:
                d = self.s.recv(min(1 << 16, n - len(out)))
            except ConnectionResetError as e:
                raise Gone(str(e))
            except socket.timeout:
                raise Hang("no answer within %ds" % WAIT)
            if not d:
                raise Gone("connection closed after %d bytes of %d" % (len(out), n))
            out += d
        return out
    def answer(self):
        """-> (success, bytes)"""
        sync, size = struct.unpack("<HI", self.read(6))
        if sync != SYNC:
            raise Mismatch("remote", "answer", "synchronization word %x" % sync)
        mid = self.read(1)[0]
        body = self.read(size - 1)
        c = self.read(1)[0]
        if c != (sum(body) + mid) & 255:
            raise Mismatch("remote", "answer", "checksum of the answer %r" % body[:60])
        n = struct.unpack("<I", body[:4])[0]
        if n != len(body) - 4 or mid not in (GOOD, BAD):
            raise Mismatch("remote", "answer", "malformed answer, identifier %d, %r" % (mid, body[:60]))
        return mid == GOOD, body[4:]
    def closed(self, what):
        """The server answers nothing and closes the connection."""
        try:
            d = self.s.recv(1000)
        except ConnectionResetError:
            return
        except socket.timeout:
            raise Hang("%s: the connection stays open" % what)
        if d:
            raise Mismatch("remote", "malformed", "%s: answered %r" % (what, d[:100]))
    def end(self):
        self.s.shutdown(socket.SHUT_WR)
    def close(self, reset=False):
        if reset and self.s.fileno() >= 0:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

WORDS = ["set", "/a/b", "on", "off", "0", "-1", "1.5e3", "a b", "", " ", "\t x \n", "é€", "{}", "%s%n", "x" * 300, "All{Crit Is one}", "<xml/>", "\"q\"", "'", "\\", "|"]

def word(r):
    c = r.random()
    if c < .7:
        return b(r.choice(WORDS))
    if c < .95:
        return bytes(r.choice(b"abc \t\n\v\f\r|\x01\x7f\x80\xff%\x00") for _ in range(r.randint(0, 12)))
    return bytes(r.randrange(1, 256) for _ in range(r.choice([1000, 70000])))

def trim(x):
    return b(x).strip(b" \t\n\v\f\r")

_tok = [0]
def token():
    _tok[0] += 1
    return b"q%d" % _tok[0]

def gen_request(r):
    c = r.random()
    cmd = b"fail" if c < .2 else b"silent" if c < .3 else b"big%d" % r.choice([0, 1, 65535, 200000]) if c < .4 else b(r.choice(["run", " run\t", "help", "", "x" * 200]))
    return [cmd, token()] + [word(r) for _ in range(r.choice([0, 0, 1, 2, 3, 8]))]

def want_answer(q, k):
    """Answer of the recording handler when it executes q as k-th command."""
    f = [trim(x) for x in q]
    t = b"x" * int(f[0][3:]) if f[0][:3] == b"big" else b"" if f[0] == b"silent" else b"|".join([b"%d" % k] + f)
    return f[0][:4] != b"fail", t

MALFORMED = ["sync", "checksum", "size0", "toolarge", "short", "string", "tail", "empty", "noise", "cut", "hugestring", "hugemessage", "nocmd"]

def malformed(r, kind=None):
    """-> (kind, bytes, complete): complete when the server can tell without the end of the connection"""
    q = gen_request(r)
    body = b"".join(text(x) for x in q)
    k = kind or r.choice(MALFORMED)
    if k == "sync":
        return k, frame(body, sync=r.choice([0, 0xBEBA, SYNC ^ 1 << r.randrange(16), SYNC ^ 1 << r.randrange(16), SYNC & 0xff, SYNC & 0xff00, 0xFFFF])), True
    if k == "checksum":
        c = (sum(body) & 255) ^ r.choice([1, 2, 0x80, 0xff])
        return k, frame(body, checksum=c), True
    if k == "size0":
        return k, frame(body, size=0), True
    if k == "short":            # announces less than it sends: the checksum is read out of the text
        n = r.randint(1, len(body) - 1)
        m = frame(body, size=n + 1)
        # the byte taken for the checksum must be wrong
        return ("short", m, True) if m[7 + n] != sum(body[:n]) & 255 else malformed(r, "sync")
    if k == "toolarge":
        return k, frame(body, size=len(body) + 1 + r.choice([1, 100, 70000])), False
    if k == "hugemessage":
        return k, frame(body, size=r.choice([0xFFFFFFFF, 0x80000000, 0x7FFFFFFF])), False
    if k == "string":           # a string longer than the message
        body = b"".join(text(x) for x in q[:1]) + struct.pack("<I", r.choice([50, 1000, 1 << 20])) + b"abc"
        return k, frame(body), True
    if k == "hugestring":
        body = text(q[0]) + struct.pack("<I", r.choice([0xFFFFFFFF, 0xFFFFFFFB, 0xFFFFFFFC, 0x80000000])) + b"abc"
        return k, frame(body), True
    if k == "tail":             # the length of a string is cut
        return k, frame(body + b"\1\0\0"[:r.randint(1, 3)]), True
    if k == "empty":
        return k, frame(b""), True
    if k == "nocmd":
        return k, frame(struct.pack("<I", 5)), True
    if k == "cut":
        m = frame(body)
        return k, m[:r.randrange(1, len(m))], False
    n = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 7, 100, 10000])))
    if n[:2] == struct.pack("<H", SYNC):
        n = b"\0\0" + n
    return "noise", n, len(n) > 1

class Script:
    """What the recording server must have been asked to execute: certain requests, and requests cut off by a reset."""
    def __init__(self):
        self.l = []
    def sure(self, q):
        self.l.append((True, tuple(trim(x) for x in q)))
    def maybe(self, q):
        self.l.append((False, tuple(trim(x) for x in q)))
    def check(self, log):
        i = 0
        for sure, q in self.l:
            if i < len(log) and log[i] == q:
                i += 1
            elif sure:
                raise Mismatch("remote", "execution", "request %r was not executed in its turn: found %r" % ([x[:60] for x in q], [x[:60] for x in log[i]] if i < len(log) else None))
        if i != len(log):
            raise Mismatch("remote", "execution", "executed without being asked, or twice: %r" % ([x[:60] for x in log[i]],))
        return i

def server_log(h, sid):
    out = h.raw("rps", "log", sid)
    if out[1] != b"0":
        raise Mismatch("remote", "execution", "two commands were executed at the same time")
    l, p = [], 2
    while p < len(out):
        n = int(out[p])
        l.append(tuple(bytes(x) for x in out[p + 1:p + 1 + n]))
        p += 1 + n
    return l

def good_session(ctx, r, port, script, count, n=None):
    """A client sending requests one by one or in one go -> number of executed requests"""
    qs = [gen_request(r) for _ in range(n or r.choice([1, 1, 2, 3, 6]))]
    c = Client(port, r)
    how = r.choice(["alternate", "alternate", "pipelined", "dribble", "halfclosed"])
    try:
        if how in ("alternate", "dribble"):
            for q in qs:
                c.send(request(q[0], q[1:]), r if how == "dribble" and sum(map(len, q)) < 3000 else None)
                check_answer(c, q, count)
                script.sure(q)
                count += 1
        else:
            data = b"".join(request(q[0], q[1:]) for q in qs)
            t = threading.Thread(target=c.send, args=(data,), daemon=True)
            t.start()
            if how == "halfclosed":
                t.join(WAIT)
                c.end()
            for q in qs:
                check_answer(c, q, count)
                script.sure(q)
                count += 1
            t.join(WAIT)
            if how == "halfclosed":
                c.closed("after the last request")
    except Gone as e:
        raise Mismatch("remote", "service", "a well behaved client (%s) lost its connection: %s" % (how, e))
    finally:
        c.close()
    ctx.note("sessions " + how)
    ctx.note("requests answered", len(qs))
    return count

def check_answer(c, q, count):
    got = c.answer()
    want = want_answer(q, count + 1)
    if got != want:
        raise Mismatch("remote", "answer", "%r answered %s %r, expected %s %r" % ([x[:80] for x in q], got[0], got[1][:200], want[0], want[1][:200]))

def bad_session(ctx, r, port, script, count):
    """A hostile client: what it asked before is answered, its malformed message ends the connection -> executions"""
    qs = [gen_request(r) for _ in range(r.choice([0, 0, 1, 2]))]
    kind, data, complete = malformed(r)
    start = count
    c = Client(port, r)
    try:
        try:
            atonce = r.random() < .5
            if atonce:
                try:
                    c.send(b"".join(request(q[0], q[1:]) for q in qs) + data)
                except Gone:
                    pass        # closed while the rest of the malformed message was being sent
            for q in qs:
                if not atonce:
                    c.send(request(q[0], q[1:]))
                check_answer(c, q, count)
                script.sure(q)
                count += 1
        except Gone as e:
            if not atonce:
                raise Mismatch("remote", "service", "the connection was lost before the malformed message (%s): %s" % (kind, e))
            # closed with the rest of the malformed message unread: what was in flight is lost, not the execution
            left = qs[count - start:]
            for q in left:
                script.sure(q)
            ctx.note("answers lost with the connection", len(left))
            return start + len(qs)
        try:
            if not atonce:
                c.send(data)
            if not complete:
                if r.random() < .5:
                    return count
                c.end()
            c.closed(kind)
        except (Gone, OSError):
            pass
    finally:
        c.close(r.random() < .4)
        ctx.note("malformed " + kind)
    return count

def drop_session(ctx, r, port, script, count):
    """A client leaving without its answer."""
    q = gen_request(r)
    if r.random() < .3:
        q[0] = b"big3000000"
    c = Client(port, r)
    c.send(request(q[0], q[1:]))
    reset = r.random() < .5
    if r.random() < .4:
        try:
            c.read(r.randint(1, 7))
            script.sure(q)
            count += 1
            c.close(reset)
            ctx.note("answers abandoned")
            return count
        except Gone as e:
            raise Mismatch("remote", "service", "lost connection: %s" % e)
    c.close(reset)
    if reset:
        script.maybe(q)
        ctx.note("requests reset")
        return None
    script.sure(q)
    ctx.note("answers not waited for")
    return count + 1

def crowd_session(ctx, r, port, script, h, sid):
    """Clients at once: each gets its own answers, everything is executed once, each client's requests in order."""
    n = r.randint(2, 5)
    seeds = [r.random() for _ in range(n)]
    errs, done = [], [None] * n
    def run(i):
        rr = random.Random(seeds[i])
        try:
            c = Client(port, rr)
            out = []
            try:
                for _ in range(rr.randint(1, 4)):
                    q = [rr.choice([b"run", b"fail"]), b"%d.%d." % (i, rr.randrange(1 << 40))] + [b(rr.choice(WORDS)) for _ in range(rr.randint(0, 3))]
                    c.send(request(q[0], q[1:]), rr if rr.random() < .3 else None)
                    ok, t = c.answer()
                    out.append((tuple(trim(x) for x in q), ok, t))
            finally:
                c.close()
            done[i] = out
        except Gone as e:
            errs.append(Mismatch("remote", "service", "a client among others lost its connection: %s" % e))
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(2 * WAIT)
    if errs:
        raise errs[0]
    if any(d is None for d in done):
        raise Hang("a client among others was never answered")
    log = server_log(h, sid)
    last = -1
    for d in done:
        last = -1
        for q, ok, t in d:
            k = int(t.split(b"|")[0])
            if not 0 < k <= len(log) or log[k - 1] != q or k <= last or want_answer(q, k) != (ok, t):
                raise Mismatch("remote", "answer", "a client among others asked %r and received %r" % (q, t[:200]))
            last = k
    # the order between clients is free: take what was executed
    k = sum(len(d) for d in done)
    mine = {q for d in done for q, _, _ in d}
    new = [x for x in log if x in mine]
    if len(new) != k or len(mine) != k:
        raise Mismatch("remote", "execution", "%d requests of simultaneous clients, %d executions" % (k, len(new)))
    for x in log[len(log) - k:]:
        script.l.append((True, x))
    ctx.note("simultaneous clients", n)
    ctx.note("requests answered", k)

def tool_session(ctx, r, port, script, count):
    """The command line client."""
    q = [x for x in gen_request(r)]
    q = [x.replace(b"\0", b"?")[:2000] for x in q]
    exe = os.path.join(os.path.dirname(ctx.out), "pf", "bin", "remote-process")
    log = os.path.join(ctx.scratch, "tool")
    p = subprocess.run([exe, r.choice(["localhost", "127.0.0.1"]), str(port)] + q, env=san_env(log), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=WAIT)
    ok, t = want_answer(q, count + 1)
    want = (0, t + b"\n", b"") if ok else (1, b"", t + b"\n")
    if (p.returncode, p.stdout, p.stderr) != want:
        raise Mismatch("remote", "tool", "remote-process %r ended with %s, %r, %r; expected %s" % ([x[:60] for x in q], p.returncode, p.stdout[:200], p.stderr[-600:], [str(x)[:200] for x in want]))
    script.sure(q)
    ctx.note("runs of remote-process")
    return count + 1

def server(ctx, rng, case):
    """A recording server under clients of all manners, then its end."""
    h = ctx.host()
    ctx.op = "remote"
    r = rng
    port = free_port()
    sid = 1
    h.call("rps", "new", sid, port)
    script = Script()
    open_clients = []
    try:
        kind = r.random()
        if kind < .12:
            lifecycle(ctx, r, h, sid, port)
            return
        ok, f = h.call("rps", "start", sid)
        if not ok:
            raise Mismatch("remote", "start", "the server does not start: %s" % f[0])
        h.call("rps", "slow", sid, r.choice([0, 0, 100, 2000]))
        count = 0
        for _ in range(r.randint(2, 9)):
            c = r.random()
            if count is None:       # settled by a request that is certain
                good_unknown(ctx, r, port, script)
                log = server_log(h, sid)
                script.check(log)
                script.l = [(True, x) for x in log]
                count = len(log)
                continue
            if c < .3:
                count = good_session(ctx, r, port, script, count)
            elif c < .65:
                count = bad_session(ctx, r, port, script, count)
            elif c < .78:
                count = drop_session(ctx, r, port, script, count)
            elif c < .85:
                cl = Client(port, r)
                cl.close(r.random() < .5)
                ctx.note("connections without request")
            elif c < .95:
                crowd_session(ctx, r, port, script, h, sid)
                count = len(server_log(h, sid))
            else:
                count = tool_session(ctx, r, port, script, count)
        if count is not None:
            good_session(ctx, r, port, script, count, 1)
        else:
            good_unknown(ctx, r, port, script)
        script.check(server_log(h, sid))
        ctx.note("executions checked", len(script.l))
        ctx.log.append("%d executions, %s" % (len(script.l), dict(ctx.case_notes)))
        # the end, with clients in various states
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            cl = Client(port, r)
            open_clients.append(cl)
            s = r.random()
            if s < .3:
                cl.send(malformed(r, "cut")[1])
            elif s < .5:
                cl.send(request(b"run", [token()]))
            if r.random() < .5:
                time.sleep(.003)
        ctx.note("stopped with clients connected", 1 if open_clients else 0)
        ctx.op = "remote-stop"
        for _ in range(r.choice([0, 1, 1, 2])):
            ok, f = h.call("rps", "stop", sid)
        h.call("rps", "del", sid)
        sid = None
        ctx.op = "remote"
        if r.random() < .3:         # the port can be used again
            for cl in open_clients:
                cl.close()
            open_clients = []
            h.call("rps", "new", 2, port)
            ok, f = h.call("rps", "start", 2)
            if not ok:
                raise Mismatch("remote", "start", "the server does not start again: %s" % f[0])
            sc = Script()
            good_session(ctx, r, port, sc, 0)
            sc.check(server_log(h, 2))
            ctx.note("restarts")
            h.call("rps", "del", 2)
    finally:
        for cl in open_clients:
            try:
                cl.close()
            except OSError:
                pass
        if ctx._host is not None and h.p.poll() is None and sid is not None:
            ctx.drop(False)

def good_unknown(ctx, r, port, script):
    """A certain request when the number of executions before it is not known."""
    q = [b"run", token()]
    c = Client(port, r)
    try:
        c.send(request(q[0], q[1:]))
        ok, t = c.answer()
    except Gone as e:
        raise Mismatch("remote", "service", "a client lost its connection after another was reset: %s" % e)
    finally:
        c.close()
    if not ok or t.split(b"|")[1:] != q:
        raise Mismatch("remote", "answer", "%r answered %r" % (q, t))
    script.sure(q)
    ctx.note("requests answered")

def lifecycle(ctx, r, h, sid, port):
    """Servers not started, stopped before, twice, or which could not start."""
    ctx.op = "remote-life"
    started, stopped = False, False
    busy = None
    if r.random() < .6:
        busy = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        busy.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        busy.bind(("::", port))
        busy.listen()
    for _ in range(r.randint(0, 5)):
        if r.random() < .5:
            ok, f = h.call("rps", "start", sid)
            if busy is not None and ok:
                raise Mismatch("remote", "start", "starts on a port in use")
            if not ok and not f[0]:
                raise Mismatch("remote", "start", "refused without an error")
            if ok and not stopped:
                started = True
            ctx.note("starts refused" if not ok else "starts")
        else:
            h.call("rps", "stop", sid)
            ctx.note("stops out of turn")
            started, stopped = False, True      # a server does not serve once it was stopped
    if started and busy is None and r.random() < .7:
        sc = Script()
        good_session(ctx, r, port, sc, 0)
        sc.check(server_log(h, sid))
    if busy is not None:
        busy.close()
    h.call("rps", "del", sid)
    ctx.note("lifecycles")
    ctx.log.append("lifecycle")

# ------------------------------------------------------------------------------ the framework
class RWorld(World):
    """A history whose commands arrive through the remote interface."""
    remote = None
    def link(self):
        r = self.net
        if self.remote is not None and r.random() < .15:
            self.remote.close(r.random() < .3)
            self.remote = None
        if self.remote is None:
            self.remote = Client(self.port, r)
            self.note("connections")
        return self.remote

    def setup(self):
        World.setup(self)
        self.started = True

    def cmd(self, name, *a):
        words = [b(name)] + [b(x) for x in a]
        if self.net is None or not self.started or any(trim(x) != x or b"\0" in x for x in words):
            return World.cmd(self, name, *a)        # cannot be said through the socket
        self.log.append("remote %s %r" % (name, [str(x)[:300] for x in a]))
        try:
            c = self.link()
            c.send(request(name, a), self.net if self.net.random() < .1 and sum(map(len, words)) < 2000 else None)
            ok, t = c.answer()
        except Gone as e:
            self.bad("service", "the connection was lost: %s" % e)
        t = t.decode("utf-8", "surrogateescape")
        self.log[-1] += " -> %s %r" % (ok, t[:160])
        self.note("requests answered")
        return ok, t
    started = False

    def step(self, name):
        if self.net is not None and self.net.random() < .15:
            self.hostile()
        World.step(self, name)

    def hostile(self):
        """Someone else's malformed traffic must change nothing."""
        r = self.net
        if self.remote is not None:
            self.remote.close()
            self.remote = None
        c = Client(self.port, r)
        k = r.random()
        try:
            if k < .2:
                c.close(True)
                return
            kind, data, complete = malformed(r)
            c.send(data)
            if complete:
                c.closed(kind)
        except Gone:
            pass
        finally:
            c.close(r.random() < .3)
        self.note("hostile connections")

def framework(ctx, rng, case, nops=40, prof=None):
    """A history through the socket; when it goes wrong, the same history without socket decides whose fault it is."""
    seed, port = rng.random(), free_port()
    prof = dict(prof or {}, route="cmd", port=port)
    try:
        one_history(ctx, random.Random(seed), nops, prof, rng)
        return
    except Mismatch as e:
        first = e
    if first.tag.split(":")[0] == "remote" or ":service@" in first.tag:
        raise first
    log = list(ctx.log)
    ctx.log.clear()
    try:
        one_history(ctx, random.Random(seed), nops, prof, None)
    except Mismatch as e:
        ctx.log[:] = log
        if e.tag.split(":")[0] == first.tag.split(":")[0]:
            raise Mismatch("both", first.tag.replace(":", "-"), first.detail)
    ctx.log[:] = log
    raise first

def one_history(ctx, r, nops, prof, rng):
    h = ctx.host()
    d = os.path.join(ctx.scratch, "w")
    shutil.rmtree(d, ignore_errors=True)
    w = RWorld(h, r, d, ctx.out, dict(prof), 1, ctx.note)
    w.log = ctx.log
    w.port, w.net = prof["port"], rng
    idle = []
    ctx.op = "setup"
    try:
        w.run(r.randint(nops // 3, nops))
        ctx.op = "remote-stop"
        for _ in range(rng.choice([0, 1, 2]) if rng else 0):
            idle.append(Client(w.port, rng))
            if rng.random() < .5:
                idle[-1].send(malformed(rng, "cut")[1])
        h.call("del", 1)
        ctx.note("destroyed with clients connected", 1 if idle or w.remote else 0)
    finally:
        if ctx.op != "remote-stop":
            ctx.op = w.op
        for c in idle + ([w.remote] if w.remote else []):
            c.close()
        if ctx._host is not None and ctx._host.p.poll() is None and ctx.op != "remote-stop":
            h.call("del", 1)
