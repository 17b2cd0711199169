"""Deterministic demonstrations of the recorded findings: None = no longer fails, True = fails as recorded, text = fails otherwise."""
import os
from . import mini

def _roundtrip(ctx, instance, setup, export_fmt, expect_error):
    d = os.path.join(ctx.scratch, "probe")
    m = mini.Mini(ctx.host(), mini.files(d, ctx.out, mini.structure(instance)))
    def must(r):
        if not r[0]:
            raise RuntimeError("probe setup refused: %s" % (r,))
        return r[1]
    must(m.start())
    must(m.api("setTuningMode", "1"))
    must(m.cmd("createDomain", "D"))
    must(m.cmd("addElement", "D", "/test/s/p"))
    must(m.cmd("createConfiguration", "D", "c"))
    must(m.cmd("setValueSpace", "raw"))
    for path, val in setup:
        must(m.cmd("setParameter", path, val))
    must(m.cmd("setValueSpace", "real"))
    must(m.cmd("saveConfiguration", "D", "c"))
    if export_fmt:
        must(m.cmd("setValueSpace", "raw"))
        must(m.cmd("setOutputRawFormat", export_fmt))
    f = os.path.join(d, "out.xml")
    must(m.cmd("exportDomainsWithSettingsXML", f))
    must(m.cmd("setValueSpace", "real"))
    ok, txt = m.cmd("importDomainsWithSettingsXML", f)
    m.close()
    if ok:
        return None
    return True if expect_error in txt else "refused otherwise: " + txt

def enum_raw_negative(ctx):
    return _roundtrip(ctx, '<EnumParameter Name="p" Size="16" Mapping="Small:x"><ValuePair Literal="a" Numerical="1"/><ValuePair Literal="b" Numerical="-1"/></EnumParameter>',
                      [("/test/s/p", "-1")], "hex", "is not part of numerical space")

def enum_array_space(ctx):
    return _roundtrip(ctx, '<EnumParameter Name="p" Size="8" ArrayLength="2" Mapping="Small:x"><ValuePair Literal="a" Numerical="1"/><ValuePair Literal="b c" Numerical="2"/></EnumParameter>',
                      [("/test/s/p", "1 2")], None, "Too many values")

PROBES = {"enum-raw-negative": enum_raw_negative, "enum-array-space": enum_array_space}
