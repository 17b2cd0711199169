"""Executable model of the value types: text <-> stored bytes, typed accessors."""
import math, re, struct

REFUSED = None

_dec = re.compile(r"[+-]?[0-9]+\Z")
_hex = re.compile(r"0x[0-9a-fA-F]+\Z")
_flt = re.compile(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")

def parse_int(t, bits, signed):
    """Text -> integer of the given width, or None. 0x.. names the magnitude."""
    if not signed and "-" in t:
        return None
    if _hex.match(t):
        v = int(t, 16)
    elif _dec.match(t):
        v = int(t, 10)
    else:
        return None
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    return v if lo <= v <= hi else None

def parse_float(t):
    return float(t) if _flt.match(t) else None

def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.inf if v > 0 else -math.inf

def sext(u, bits):
    u &= (1 << bits) - 1
    return u - (1 << bits) if u >> (bits - 1) else u

def U(v, n):
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")

def N(b):
    return int.from_bytes(b, "little")

class Type:
    fixed_kind = None
    def typed_set(self, kind, v):    # kind: bool uint int double string ; -> bytes | None
        return None
    def typed_get(self, kind, b):    # -> value | None
        return None
    def valid_bytes(self, rng):
        for _ in range(20):
            t = self.gen_valid(rng, False)
            b = self.enc(t, False)
            if b is not None:
                return b
        return self.default()

class Bool(Type):
    tag, kind, size = "BooleanParameter", "BooleanParameter", 1
    def enc(self, t, raw):
        return {"0": b"\0", "0x0": b"\0", "1": b"\1", "0x1": b"\1"}.get(t)
    def dec(self, b, raw, hx):
        return ("0x" if raw and hx else "") + ("1" if b[0] else "0")
    def default(self):
        return b"\0"
    def gen_valid(self, rng, raw):
        return rng.choice(["0", "1", "0x0", "0x1"])
    def gen_invalid(self, rng, raw):
        return rng.choice(["2", "-1", "true", "on", "", "0x2", "01", "1.0", "0x01", "255", "256"])
    def typed_set(self, kind, v):
        if kind == "bool":
            return b"\1" if v else b"\0"
        if kind == "uint":
            return U(v, 1) if v <= 1 else None
        if kind == "string":
            return self.enc(v, False)
    def typed_get(self, kind, b):
        if kind == "bool":
            return bool(b[0])
        if kind == "uint":
            return 1 if b[0] else 0
        if kind == "string":
            return self.dec(b, False, False)
    def attrs(self):
        return {"Size": 8}

class Int(Type):
    tag = "IntegerParameter"
    def __init__(self, signed, size, mn, mx, adapt=None):
        self.signed, self.size, self.mn, self.mx, self.adapt = signed, size, mn, mx, adapt
        self.bits = size * 8
        self.kind = "IntegerParameter"
    def enc(self, t, raw):
        if self.signed and t.startswith("0x"):
            v = parse_int(t, self.bits, False)
            if v is None:
                return None
            v = sext(v, self.bits)
        else:
            v = parse_int(t, self.bits, self.signed)
            if v is None:
                return None
        return U(v, self.size) if self.mn <= v <= self.mx else None
    def val(self, b):
        return sext(N(b), self.bits) if self.signed else N(b)
    def dec(self, b, raw, hx):
        if raw and hx:
            return "0x%0*X" % (self.size * 2, N(b))
        return str(self.val(b))
    def default(self):
        return U(self.mn, self.size)
    def _edge(self, rng):
        lo, hi = self.mn, self.mx
        c = rng.random()
        if c < .35:
            return rng.choice([lo, hi, lo + 1, hi - 1, 0, -1, 1, (lo + hi) // 2])
        return rng.randint(lo, hi)
    def gen_valid(self, rng, raw):
        v = self._edge(rng)
        v = min(max(v, self.mn), self.mx)
        if rng.random() < .3:
            return "0x%x" % (v & ((1 << self.bits) - 1)) if rng.random() < .5 else \
                   "0x%0*X" % (self.size * 2, v & ((1 << self.bits) - 1))
        if rng.random() < .06 and v >= 0:
            return rng.choice(["+", "0", "00"]) + str(v)
        return str(v)
    def gen_invalid(self, rng, raw):
        c = rng.randrange(8)
        if c == 0:
            return str(self.mx + rng.choice([1, 2, 1 << 8, 1 << 16, 1 << 32, 1 << 33]))
        if c == 1:
            return str(self.mn - rng.choice([1, 2, 1 << 8, 1 << 16, 1 << 32, 1 << 33]))
        if c == 2:
            return "0x%x" % (1 << rng.choice([self.bits, self.bits + 1, 32, 33, 64]))
        if c == 3:
            return rng.choice(["", "abc", "1x", "0x", "0xg", "1.5", "--1", "1e2", "0b1", " ", "0x-1", "-0x1"])
        if c == 4:
            return str(self.mx + (1 << self.bits))
        if c == 5:
            return str(self.mn + (1 << self.bits))
        if c == 6:
            return str(self._edge(rng)) + rng.choice(["a", ".", ".0", "%", "\x01"])
        return str(rng.randint(-(1 << 34), 1 << 34))
    def typed_set(self, kind, v):
        if kind == "uint":
            return U(v, self.size) if 0 <= v and self.mn <= v <= self.mx else None
        if kind == "int":
            return U(v, self.size) if self.mn <= v <= self.mx else None
        if kind == "double":
            if self.adapt is None:
                return None
            r = self.adapt.to_raw(v)
            return U(r, self.size) if r is not None and self.mn <= r <= self.mx else None
        if kind == "string":
            return self.enc(v, False)
    def typed_get(self, kind, b):
        if kind == "uint":
            return self.val(b) if self.val(b) >= 0 else None
        if kind == "int":
            return self.val(b) if self.val(b) < 1 << 31 else None
        if kind == "double":
            return None if self.adapt is None else self.adapt.to_user(self.val(b))
        if kind == "string":
            return self.dec(b, False, False)
    def attrs(self):
        return {"Size": self.bits, "Min": self.mn, "Max": self.mx, "Signed": "true" if self.signed else "false"}

class Lin:
    def __init__(self, num, den, off):
        self.num, self.den, self.off = float(num), float(den), off
    def scale(self, v):
        return v * self.num / self.den
    def to_raw(self, v):
        s = self.scale(v)
        if math.isnan(s) or abs(s) >= 2.0 ** 62:
            return None            # image lies outside every stored range
        return int(s) + self.off
    def to_user(self, r):
        return float(r - self.off) * self.den / self.num
    def xml(self):
        return '<LinearAdaptation SlopeNumerator="%r" SlopeDenominator="%r" Offset="%d"/>' % (self.num, self.den, self.off)

class Log(Lin):
    def __init__(self, base, floor, num, den, off):
        Lin.__init__(self, num, den, off)
        self.base, self.floor = float(base), float(floor)
    def to_raw(self, v):
        f = int(self.floor) if math.isfinite(self.floor) else None
        if math.isnan(v) or v < 0:
            return f               # an image which is not a number is below every value: the floor applies
        l = -math.inf if v == 0 else math.inf if v == math.inf else math.log(v)
        s = self.scale(l / math.log(self.base))
        if math.isnan(s) or s <= -2.0 ** 62:
            return f
        if s >= 2.0 ** 62:
            return None
        r = int(s) + self.off
        return r if f is None else max(r, f)
    def to_user(self, r):
        try:
            return math.exp(Lin.to_user(self, r) * math.log(self.base))
        except OverflowError:
            return math.inf
    def xml(self):
        a = '' if not math.isfinite(self.floor) else ' FloorValue="%r"' % self.floor
        return '<LogarithmicAdaptation LogarithmBase="%r"%s SlopeNumerator="%r" SlopeDenominator="%r" Offset="%d"/>' % (
            self.base, a, self.num, self.den, self.off)

def cround(x):
    """C round(): half away from zero."""
    f = math.floor(abs(x))
    d = abs(x) - f
    r = f + 1 if d >= .5 else f
    return int(r) if x >= 0 else -int(r)

class Fixed(Type):
    tag, kind = "FixedPointParameter", "FixedPointParameter"
    def __init__(self, size, i, f):
        self.size, self.i, self.f = size, i, f
        self.bits = 8 * size
        self.sh = self.bits - (i + f + 1)
        self.hi = ((1 << (i + f)) - 1) / float(1 << f)
        self.lo = -(1 << (i + f)) / float(1 << f)
    def enc_real(self, v):
        if not (self.lo <= v <= self.hi):
            return None
        return U(cround(v * float(1 << self.f)) << self.sh, self.size)
    def enc(self, t, raw):
        if raw:
            if t.startswith("0x"):
                v = parse_int(t, 32, False)
                return U(v, self.size) if v is not None and v < (1 << self.bits) else None
            v = parse_int(t, 32, True)
            if v is None or not -(1 << (self.bits - 1)) <= v < (1 << (self.bits - 1)):
                return None
            return U(v, self.size)
        if t.startswith("0x"):
            return None
        v = parse_float(t)
        return None if v is None else self.enc_real(v)
    def real(self, b):
        return (sext(N(b), self.bits) >> self.sh) / float(1 << self.f)
    def dec(self, b, raw, hx):
        if raw:
            return "0x%0*X" % (self.size * 2, N(b)) if hx else str(sext(N(b), self.bits))
        return "%.*f" % (self.f, self.real(b))
    def default(self):
        return bytes(self.size)
    def gen_valid(self, rng, raw):
        n = 1 << (self.i + self.f)
        k = rng.choice([-n, n - 1, 0, -1, 1, -n + 1]) if rng.random() < .3 else rng.randint(-n, n - 1)
        k = max(-n, min(n - 1, k))
        if raw:
            v = (k << self.sh) | (rng.getrandbits(self.sh) if self.sh and rng.random() < .3 else 0)
            return "0x%x" % (v & ((1 << self.bits) - 1)) if rng.random() < .5 else str(v)
        if rng.random() < .5:
            return "%.*f" % (self.f, k / float(1 << self.f))
        t = "%.*f" % (rng.randint(0, 8), min(self.hi, max(self.lo, (k + rng.random() - .5) / (1 << self.f))))
        return t if self.enc(t, False) is not None else "%.*f" % (self.f, k / float(1 << self.f))
    def gen_invalid(self, rng, raw):
        if raw:
            return rng.choice(["0x%x" % (1 << self.bits), str(1 << (self.bits - 1)), str(-(1 << (self.bits - 1)) - 1),
                               "", "z", "0x", "1.5", "0x1g", str(1 << 40), "-0x1"])
        ulp = 1.0 / (1 << self.f)
        if rng.random() < .25:      # just beyond the last value, nearer to it than to any other
            k = ulp * rng.choice([.49, .3, .1, .01, 1e-3])
            t = "%.12f" % (self.hi + k if rng.random() < .5 else self.lo - k)
            if self.enc(t, False) is None:
                return t
        return rng.choice(["%.*f" % (self.f, self.hi + ulp), "%.*f" % (self.f, self.lo - ulp), "0x0", "", "nan",
                           "inf", "1,5", "abc", "1.5q", "%.6f" % (self.hi * 4 + 2), "%.6f" % (self.lo * 4 - 2), "1e30", "-"])
    def typed_set(self, kind, v):
        if kind == "double":
            return self.enc_real(v) if not math.isnan(v) else None
        if kind == "string":
            return self.enc(v, False)
    def typed_get(self, kind, b):
        if kind == "double":
            return self.real(b)
        if kind == "string":
            return self.dec(b, False, False)
    def attrs(self):
        return {"Size": self.bits, "Integral": self.i, "Fractional": self.f}

class Float(Type):
    tag, kind, size, bits = "FloatingPointParameter", "FloatingPointParameter", 4, 32
    def __init__(self, mn=None, mx=None):
        self.amn, self.amx = mn, mx
        self.mn = f32(mn) if mn is not None else -3.4028234663852886e38
        self.mx = f32(mx) if mx is not None else 3.4028234663852886e38
    def ok(self, v):
        return math.isfinite(v) and self.mn <= v <= self.mx
    def enc(self, t, raw):
        if raw:
            v = parse_int(t, 32, False)
            if v is None or not self.ok(struct.unpack("<f", U(v, 4))[0]):
                return None
            return U(v, 4)
        if t.startswith("0x"):
            return None
        v = parse_float(t)
        if v is None or not self.ok(f32(v)):
            return None
        return struct.pack("<f", v)
    def dec(self, b, raw, hx):
        if raw:
            if not hx:
                return str(N(b))
            return "0x%08X" % N(b)
        return "%g" % struct.unpack("<f", b)[0]
    def default(self):
        return struct.pack("<f", max(self.mn, min(self.mx, 0.0)))
    def gen_valid(self, rng, raw):
        c = rng.random()
        if c < .3:
            v = rng.choice([self.mn, self.mx, 0.0, -0.0, 1.0, -1.0, 0.1])
        elif c < .5 and self.amn is None:
            v = struct.unpack("<f", U(rng.getrandbits(32), 4))[0]
        else:
            lo, hi = max(self.mn, -1e6), min(self.mx, 1e6)
            v = rng.uniform(lo, hi)
        if not math.isfinite(v) or not self.mn <= v <= self.mx:
            v = self.mn
        v = f32(v)
        if not self.ok(v):
            v = self.mn
        if raw:
            u = N(struct.pack("<f", v))
            return "0x%08x" % u if rng.random() < .5 else str(u)
        return "%.9g" % v
    def gen_invalid(self, rng, raw):
        if raw:
            return rng.choice(["", "-1", "1.5", "0x7f800000", "0xff800000", "0x7fc00000", str(1 << 32), "0x100000000", "x"] +
                              ([str(N(struct.pack("<f", f32(self.mx * 2 + 1))))] if self.amx is not None else []))
        if rng.random() < .25 and (self.amn is not None or self.amx is not None):
            up = self.amn is None or self.amx is not None and rng.random() < .5
            b = struct.unpack("<i", struct.pack("<f", self.mx if up else self.mn))[0]
            v = struct.unpack("<f", struct.pack("<i", b + (1 if up == (b >= 0) else -1)))[0] if b & 0x7fffffff else 1e-30 * (1 if up else -1)
            if math.isfinite(v) and not self.ok(v):
                return "%.9g" % v
        return rng.choice(["", "nan", "inf", "-inf", "0x1", "1.5.5", "1e60", "-1e60", "abc", "1,5", "1f"] +
                          (["%.9g" % (self.mx * 2 + 1)] if self.amx is not None and self.amx > 0 else []))
    def typed_set(self, kind, v):
        if kind == "double":
            return struct.pack("<f", v) if (not math.isnan(v) and abs(v) <= 3.4028234663852886e38 and self.ok(f32(v))) else None
        if kind == "string":
            return self.enc(v, False)
    def typed_get(self, kind, b):
        if kind == "double":
            return struct.unpack("<f", b)[0]
        if kind == "string":
            return self.dec(b, False, False)
    def attrs(self):
        a = {"Size": 32}
        if self.amn is not None:
            a["Min"] = "%.9g" % self.mn
        if self.amx is not None:
            a["Max"] = "%.9g" % self.mx
        return a

class Enum(Type):
    tag, kind = "EnumParameter", "EnumParameter"
    def __init__(self, size, pairs):
        self.size, self.pairs, self.bits = size, pairs, size * 8
        self.byname, self.byval = {}, {}
        for l, v in pairs:
            self.byname.setdefault(l, v)
            self.byval.setdefault(v, l)
    def enc(self, t, raw):
        v = parse_int(t, 32, True)
        if v is None and raw and self.size == 4:
            u = parse_int(t, 32, False)      # encodings of negative members as printed in raw space
            v = None if u is None else sext(u, 32)
        if v is None:
            if t not in self.byname:
                return None
            v = self.byname[t]
        if raw:
            v = sext(v, self.bits)
        if v not in self.byval or not -(1 << (self.bits - 1)) <= v < (1 << (self.bits - 1)):
            return None
        return U(v, self.size)
    def val(self, b):
        return sext(N(b), self.bits)
    def dec(self, b, raw, hx):
        if raw:
            return "0x%0*X" % (self.size * 2, N(b)) if hx else str(N(b))
        return self.byval.get(self.val(b), "")
    def default(self):
        return U(self.pairs[0][1], self.size)
    def gen_valid(self, rng, raw):
        l, v = rng.choice(self.pairs)
        c = rng.random()
        if c < .5:
            return l
        if raw and rng.random() < .6 and self.size < 4:
            return "0x%X" % (v & ((1 << self.bits) - 1)) if rng.random() < .5 else str(v & ((1 << self.bits) - 1))
        return str(v)
    def gen_invalid(self, rng, raw):
        return rng.choice(["", "nosuch", self.pairs[0][0] + "x", self.pairs[0][0][:-1] + "#", str(max(self.byval) + 1),
                           str(min(self.byval) - 1), "0x", str(1 << 33), "1.0", "-", self.pairs[-1][0].lower() + "_"])
    def typed_set(self, kind, v):
        if kind == "int":
            return self.enc(str(v), False)
        if kind == "string":
            return self.enc(v, False)
    def typed_get(self, kind, b):
        if kind == "int":
            return self.val(b)
        if kind == "string":
            return self.dec(b, False, False)
    def attrs(self):
        return {"Size": self.bits}

class Str(Type):
    tag, kind = "StringParameter", "StringParameter"
    def __init__(self, maxlen):
        self.maxlen, self.size = maxlen, maxlen + 1
    def enc(self, t, raw):
        e = t.encode("utf-8", "surrogateescape")
        return e + b"\0" * (self.size - len(e)) if len(e) <= self.maxlen and b"\0" not in e else None
    def dec(self, b, raw, hx):
        return b.split(b"\0")[0].decode("utf-8", "surrogateescape")
    def default(self):
        return bytes(self.size)
    def gen_valid(self, rng, raw):
        n = rng.choice([0, 1, self.maxlen, self.maxlen - 1, rng.randint(0, self.maxlen)])
        n = max(0, min(n, self.maxlen))
        al = "abcXYZ0129_-.:;,/<>&\"'%{}[]=+*#!?"
        s = "".join(rng.choice(al) for _ in range(n))
        if n > 2 and rng.random() < .3:
            k = rng.randint(1, n - 2)
            s = s[:k] + " " + s[k + 1:]
        if n and rng.random() < .06:
            s = rng.choice([s[:-1] + " ", " " + s[1:], " " * n])
        return s
    def gen_invalid(self, rng, raw):
        return "y" * (self.maxlen + rng.choice([1, 2, 17, 300]))
    def typed_set(self, kind, v):
        return self.enc(v, False) if kind == "string" else None
    def typed_get(self, kind, b):
        return self.dec(b, False, False) if kind == "string" else None
    def attrs(self):
        return {"MaxLength": self.maxlen}

class Bit(Type):
    """Bit field; its 'bytes' are the integer value of the field (see Node.get/put)."""
    tag, kind = "BitParameter", "BitParameter"
    def __init__(self, pos, size, mx):
        self.pos, self.bsize = pos, size
        self.amx = mx
        self.mx = (1 << size) - 1 if mx is None else mx
        self.size = 0
    def enc_i(self, t):
        t = t.lstrip(" \t\n\v\f\r")
        if t.startswith("+"):
            t = t[1:]
        if re.match(r"0[xX][0-9a-fA-F]+\Z", t):
            v = int(t, 16)
        elif re.match(r"0[0-7]*\Z", t):
            v = int(t, 8)
        elif re.match(r"[1-9][0-9]*\Z", t):
            v = int(t)
        else:
            v = None
        return v if v is not None and 0 <= v <= self.mx else None
    def dec_i(self, v, raw, hx):
        return "0x%X" % v if raw and hx else str(v)
    def gen_valid(self, rng, raw):
        v = rng.choice([0, self.mx, self.mx - 1, 1]) if rng.random() < .4 else rng.randint(0, self.mx)
        v = max(0, min(self.mx, v))
        if rng.random() < .06:
            return rng.choice(["0%o", "+%d", "0X%X"]) % v
        return "0x%x" % v if rng.random() < .4 else str(v)
    def gen_invalid(self, rng, raw):
        return rng.choice([str(self.mx + 1), "0x%x" % (self.mx + 1), str(self.mx + (1 << self.bsize) + 1), str(1 << 64),
                           "abc", "", "-1", "1x", "0x", "1.5", "0xg", str((1 << 64) + 1)])
    def typed_set_i(self, kind, v):
        if kind == "uint":
            return v if v <= self.mx else None
        if kind == "bool":
            return (1 if v else 0) if self.bsize == 1 and (1 if v else 0) <= self.mx else None
        if kind == "string":
            return self.enc_i(v)
    def typed_get_i(self, kind, v):
        if kind == "uint":
            return v & 0xffffffff
        if kind == "bool":
            return bool(v) if self.bsize == 1 else None
        if kind == "string":
            return self.dec_i(v, False, False)
    def attrs(self):
        a = {"Pos": self.pos, "Size": self.bsize}
        if self.amx is not None:
            a["Max"] = self.amx
        return a
