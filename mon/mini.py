"""Small hand written instances: raw structure, domains and configuration texts."""
import os, shutil
from xml.sax.saxutils import quoteattr

CONFIG = """<?xml version="1.0" encoding="UTF-8"?>
<ParameterFrameworkConfiguration SystemClassName="%s" ServerPort="%s" TuningAllowed="%s">
 <SubsystemPlugins><Location Folder="%s"><Plugin Name="libmonsub.so"/></Location></SubsystemPlugins>
 <StructureDescriptionFileLocation Path="structure.xml"/>
%s</ParameterFrameworkConfiguration>
"""
def put(d, name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
    return p

def structure(instance, types="", stype="MON", mapping=None, name="test"):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<SystemClass Name="%s"><Subsystem Name="s" Type="%s"%s><ComponentLibrary>%s</ComponentLibrary>'
            '<InstanceDefinition>%s</InstanceDefinition></Subsystem></SystemClass>' % (
                name, stype, "" if mapping is None else " Mapping=" + quoteattr(mapping), types, instance))

def files(d, plugin_dir, struct, domains=None, name="test", tuning="true", port="5000"):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    put(d, "structure.xml", struct)
    sett = ""
    if domains is not None:
        put(d, "domains.xml", domains)
        sett = ' <SettingsConfiguration><ConfigurableDomainsFileLocation Path="domains.xml"/></SettingsConfiguration>\n'
    return put(d, "config.xml", CONFIG % (name, port, tuning, plugin_dir, sett))

class Mini:
    """One instance of the framework."""
    def __init__(self, host, cfg, iid=1, crits=()):
        self.h, self.iid = host, iid
        host.raw("hw", "events")
        host.call("new", iid, cfg, "0")
        for name, inc, vals in crits:
            host.call("type", iid, name + "_t", inc, *[x for n, l in vals for x in (n, l)])
            host.call("crit", iid, name, name + "_t")
    def flag(self, k, v):
        return self.h.call("flag", self.iid, k, v)
    def start(self):
        ok, f = self.h.call("start", self.iid)
        return ok, f[0]
    def api(self, m, *a):
        ok, f = self.h.call("api", self.iid, m, *a)
        return ok, (f[0] if f else "")
    def cmd(self, c, *a):
        ok, f = self.h.call("cmd", self.iid, c, *a)
        return ok, f[0]
    def hnd(self, p, op, *a):
        return self.h.callb("h", self.iid, p, op, *a)
    def logs(self):
        return self.h.call("logs", self.iid)[1]
    def events(self):
        return self.h.raw("hw", "events")[1:]
    def close(self):
        self.h.call("del", self.iid)
