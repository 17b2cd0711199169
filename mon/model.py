"""Structure model: declarations -> instance tree with paths, offsets and codecs; XML writer."""
from xml.sax.saxutils import quoteattr
from .ptypes import *

class D:
    """Declaration of an element in the structure files."""
    def __init__(self, tag, name, **k):
        self.tag, self.name = tag, name
        self.children = k.get("children", [])
        self.type = k.get("type")          # Type for leaves
        self.array = k.get("array", 0)
        self.ctype = k.get("ctype")        # component type name
        self.bsize = k.get("bsize", 0)     # bit block size in bits
        self.mapping = k.get("mapping")    # mapping text
        self.desc = k.get("desc")
        self.meta = k.get("meta")

    def xml(self, out, ind):
        a = {"Name": self.name}
        if self.desc is not None:
            a["Description"] = self.desc
        inner = ""
        if self.tag == "param":
            tag = self.type.tag
            a.update(self.type.attrs())
            if self.array:
                a["ArrayLength"] = self.array
            if isinstance(self.type, Enum):
                inner = "".join("<ValuePair Literal=%s Numerical=%s/>" % (quoteattr(l), quoteattr(str(v)))
                                for l, v in self.type.pairs)
            elif getattr(self.type, "adapt", None):
                inner = self.type.adapt.xml()
        elif self.tag == "bitblock":
            tag = "BitParameterBlock"
            a["Size"] = self.bsize
        elif self.tag == "block":
            tag = "ParameterBlock"
            if self.array:
                a["ArrayLength"] = self.array
        elif self.tag == "comp":
            tag = "Component"
            a["Type"] = self.ctype
            if self.array:
                a["ArrayLength"] = self.array
        else:
            raise ValueError(self.tag)
        if self.mapping is not None:
            a["Mapping"] = self.mapping
        head = "%s<%s %s" % ("  " * ind, tag, " ".join("%s=%s" % (k, quoteattr(str(v))) for k, v in a.items()))
        if not inner and not self.children:
            out.append(head + "/>")
            return
        out.append(head + ">" + inner)
        for c in self.children:
            c.xml(out, ind + 1)
        out.append("%s</%s>" % ("  " * ind, tag))

class CType:
    def __init__(self, name, children, extends=None, mapping=None, desc=None):
        self.name, self.children, self.extends, self.mapping, self.desc = name, children, extends, mapping, desc

class Sub:
    def __init__(self, name, stype, types, children, mapping=None):
        self.name, self.stype, self.types, self.children, self.mapping = name, stype, types, children, mapping
        self.tmap = {t.name: t for t in types}

    def xml(self):
        a = {"Name": self.name, "Type": self.stype}
        if self.mapping is not None:
            a["Mapping"] = self.mapping
        out = ["<?xml version='1.0' encoding='UTF-8'?>",
               "<Subsystem %s>" % " ".join("%s=%s" % (k, quoteattr(v)) for k, v in a.items()),
               " <ComponentLibrary>"]
        for t in self.types:
            ta = {"Name": t.name}
            if t.extends:
                ta["Extends"] = t.extends
            if t.mapping is not None:
                ta["Mapping"] = t.mapping
            if t.desc is not None:
                ta["Description"] = t.desc
            out.append("  <ComponentType %s>" % " ".join("%s=%s" % (k, quoteattr(v)) for k, v in ta.items()))
            for c in t.children:
                c.xml(out, 3)
            out.append("  </ComponentType>")
        out.append(" </ComponentLibrary>\n <InstanceDefinition>")
        for c in self.children:
            c.xml(out, 2)
        out.append(" </InstanceDefinition>\n</Subsystem>")
        return "\n".join(out)

class Node:
    __slots__ = ("name", "path", "kind", "parent", "children", "offset", "size", "type", "array", "count",
                 "bit", "maps", "sub", "obj", "d", "index", "domains", "depth", "xmlname", "objs_below", "isize", "desc")
    def __init__(self, name, kind, parent):
        self.name, self.kind, self.parent = name, kind, parent
        self.children = []
        self.path = (parent.path if parent else "") + "/" + name
        self.depth = parent.depth + 1 if parent else 0
        self.type = None
        self.array = 0
        self.bit = None
        self.maps = []       # mapping texts that apply to this element, most specific first
        self.sub = parent.sub if parent else None
        self.obj = None      # does this node carry a subsystem object
        self.d = None
        self.domains = []
        self.size = 0
        self.offset = 0
        self.desc = None
        self.objs_below = None
        self.xmlname = kind

    # ---- geometry
    def layout(self, off):
        self.offset = off
        if self.type is not None:
            if self.bit is not None:
                self.size = 0
                return
            self.isize = self.type.size
            self.size = self.isize * (self.array or 1)
            return
        if self.kind == "BitParameterBlock":
            for c in self.children:
                c.layout(off)
                c.isize = self.size      # storage of a field is its block
            return
        o = off
        for c in self.children:
            c.layout(o)
            o += c.size
        self.size = o - off

    def walk(self):
        yield self
        for c in self.children:
            for x in c.walk():
                yield x

    def leaves(self):
        return [n for n in self.walk() if n.type is not None]

    def is_leaf(self):
        return self.type is not None

    def inside(self, other):
        """self is other or below it"""
        n = self
        while n is not None:
            if n is other:
                return True
            n = n.parent
        return False

    # ---- value access in a store holding [base, base+len)
    def get(self, mem, base=0):
        """Value of the element in the store: bytes, or int for a bit field."""
        if self.bit is not None:
            v = N(mem[self.offset - base:self.offset - base + self.isize])
            return (v >> self.type.pos) & ((1 << self.type.bsize) - 1)
        return bytes(mem[self.offset - base:self.offset - base + self.size])

    def put(self, mem, val, base=0, at=0):
        o = self.offset - base
        if self.bit is not None:
            v = N(mem[o:o + self.isize])
            m = ((1 << self.type.bsize) - 1) << self.type.pos
            v = (v & ~m) | (val << self.type.pos)
            mem[o:o + self.isize] = v.to_bytes(self.isize, "little")
        else:
            mem[o + at:o + at + len(val)] = val

    # ---- text access
    def text(self, mem, raw, hx, base=0, idx=None):
        if self.bit is not None:
            return self.type.dec_i(self.get(mem, base), raw, hx)
        b = self.get(mem, base)
        if not self.array:
            return self.type.dec(b, raw, hx)
        items = [self.type.dec(b[i * self.isize:(i + 1) * self.isize], raw, hx) for i in range(self.array)]
        return items[idx] if idx is not None else " ".join(items)

    def same_text(self, got, mem, raw, hx, base=0, idx=None):
        return got == self.text(mem, raw, hx, base, idx)

    def set_text(self, mem, t, raw, base=0, idx=None):
        """-> True if accepted (mem updated)"""
        if self.bit is not None:
            v = self.type.enc_i(t)
            if v is None:
                return False
            self.put(mem, v, base)
            return True
        if not self.array:
            b = self.type.enc(t, raw)
            if b is None:
                return False
            self.put(mem, b, base)
            return True
        items = [x for x in re.split(r"[ \t\r\n\v\f,]+", t) if x]
        st = idx or 0
        if st + len(items) > self.array:
            return False
        bs = [self.type.enc(x, raw) for x in items]
        if any(b is None for b in bs):
            return False
        for k, b in enumerate(bs):
            self.put(mem, b, base, (st + k) * self.isize)
        return True

    def gen_text(self, rng, raw, valid, idx=None):
        if not self.array:
            return self.type.gen_valid(rng, raw) if valid else self.type.gen_invalid(rng, raw)
        room = self.array - (idx or 0)
        n = rng.choice([room, room, rng.randint(1, room), 1])
        items = [self.type.gen_valid(rng, raw) for _ in range(n)]
        if not valid and n > 1 and rng.random() < .12:
            return rng.choice([";", "|", ":", "/", "\n,;", "+"]).join(items)
        if not valid:
            if rng.random() < .35:
                items += [self.type.gen_valid(rng, raw) for _ in range(room - n + rng.randint(1, 3))]
            else:
                items[rng.randrange(n)] = self.type.gen_invalid(rng, raw) or "@"
        return rng.choice([" ", ",", ", ", "  "]).join(items)

def canon(root, mem):
    """Blank the unused tail of strings: it is not part of any value."""
    for n in root_strings(root):
        o = n.offset
        b = mem[o:o + n.size]
        k = bytes(b).find(b"\0")
        if 0 <= k < n.size - 1:
            mem[o + k:o + n.size] = bytes(n.size - k)
    return mem

def root_strings(root):
    c = root.__dict__.get("strs") if hasattr(root, "__dict__") else None
    return _strings.setdefault(id(root), [n for n in root.walk() if isinstance(n.type, Str)]) if c is None else c
_strings = {}

class Structure:
    """A full system class with its instance tree."""
    def __init__(self, name, subs):
        self.name, self.subs = name, subs
        self.build()

    def build(self):
        self.root = Node(self.name, "SystemClass", None)
        for s in self.subs:
            n = Node(s.name, "Subsystem", self.root)
            n.sub = s
            n.maps = [s.mapping] if s.mapping is not None else []
            self.root.children.append(n)
            for d in s.children:
                self.inst(d, n, s)
        self.root.layout(0)
        self.size = self.root.size
        self.nodes = list(self.root.walk())
        for i, n in enumerate(self.nodes):
            n.index = i
        self.bypath = {}
        for n in self.nodes:
            self.bypath.setdefault(n.path, n)
        self.leaves = [n for n in self.nodes if n.type is not None]
        self.strings = [n for n in self.leaves if isinstance(n.type, Str)]

    def inst(self, d, parent, sub):
        if d.tag == "param":
            n = Node(d.name, d.type.kind, parent)
            n.type, n.array = d.type, d.array
            n.xmlname = d.type.tag
        elif d.tag == "bitblock":
            n = Node(d.name, "BitParameterBlock", parent)
            n.size = d.bsize // 8
            for b in d.children:
                c = Node(b.name, "BitParameter", n)
                c.type, c.bit, c.d = b.type, True, b
                c.maps = [b.mapping] if b.mapping is not None else []
                c.desc = b.desc
                n.children.append(c)
        elif d.tag in ("block", "comp"):
            n = Node(d.name, "ParameterBlock" if d.tag == "block" else "ComponentInstance", parent)
            n.xmlname = "ParameterBlock"
            n.array = d.array
            if d.array:
                kids = []
                for i in range(d.array):
                    c = Node(str(i), "ParameterBlock" if d.tag == "block" else "ComponentInstance", n)
                    c.xmlname = "ParameterBlock"
                    c.maps = self.maps_of(d, sub)
                    c.d = d
                    c.desc = d.desc
                    kids.append(c)
            else:
                kids = [n]
            for k in kids:
                if d.tag == "block":
                    for x in d.children:
                        self.inst(x, k, sub)
                else:
                    self.inst_type(sub.tmap[d.ctype], k, sub)
            if d.array:
                n.children = kids
        n.d = d
        n.desc = d.desc
        n.maps = self.maps_of(d, sub)
        parent.children.append(n)
        return n

    def maps_of(self, d, sub):
        r = [d.mapping] if d.mapping is not None else []
        if d.tag == "comp":
            t = sub.tmap[d.ctype]
            while t is not None:
                if t.mapping is not None:
                    r.append(t.mapping)
                t = sub.tmap[t.extends] if t.extends else None
        return r

    def inst_type(self, t, node, sub):
        for x in t.children:
            self.inst(x, node, sub)
        if t.extends:
            self.inst_type(sub.tmap[t.extends], node, sub)

    def canon(self, mem):
        for n in self.strings:
            o = n.offset
            b = bytes(mem[o:o + n.size])
            k = b.find(b"\0")
            if 0 <= k < n.size - 1:
                mem[o + k:o + n.size] = bytes(n.size - k)
        return mem

    def default_mem(self):
        m = bytearray(self.size)
        for n in self.leaves:
            self.default_leaf(m, n)
        return m

    def default_leaf(self, m, n):
        if n.bit is not None:
            n.put(m, 0)
        elif n.array:
            for i in range(n.array):
                n.put(m, n.type.default(), 0, i * n.isize)
        elif isinstance(n.type, Str):
            n.put(m, bytes(n.size))
        else:
            n.put(m, n.type.default())

    def objects(self):
        """Nodes expected to own a subsystem object (only plain object keys)."""
        return [n for n in self.nodes if n.obj]
