// Driver: executes requests read on stdin against real Parameter Framework instances
// (public C++ API, remote command handler, C API) and reports results on a private fd.
// Frame: u32 field count, then per field u32 length + bytes. Replies use the same frame.
#include "monreg.h"
#include <BackgroundRemoteProcessorServer.h>
#include <RemoteCommandHandler.h>
#include <RemoteCommand.h>
#include "ParameterFramework.h"
#include <CommandHandlerInterface.h>
#include <ElementHandle.h>
#include <ParameterHandle.h>
#include <ParameterMgrFullConnector.h>
#include <SelectionCriterionInterface.h>
#include <SelectionCriterionTypeInterface.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <thread>
#include <unistd.h>

using std::string;
using std::vector;
typedef vector<string> Fields;

static int gOut = -1;

static bool readAll(void *p, size_t n)
{
    char *c = static_cast<char *>(p);
    while (n) {
        ssize_t r = read(0, c, n);
        if (r <= 0) {
            return false;
        }
        c += r;
        n -= (size_t)r;
    }
    return true;
}
static char gInBuf[1 << 16];
static size_t gInPos = 0, gInLen = 0;
static bool readBuf(void *p, size_t n)
{
    char *c = static_cast<char *>(p);
    while (n) {
        if (gInPos == gInLen) {
            ssize_t r = read(0, gInBuf, sizeof gInBuf);
            if (r <= 0) {
                return false;
            }
            gInPos = 0;
            gInLen = (size_t)r;
        }
        size_t k = std::min(n, gInLen - gInPos);
        memcpy(c, gInBuf + gInPos, k);
        c += k;
        n -= k;
        gInPos += k;
    }
    return true;
}
static void writeAll(const string &s)
{
    const char *c = s.data();
    size_t n = s.size();
    while (n) {
        ssize_t r = write(gOut, c, n);
        if (r <= 0) {
            _exit(7);
        }
        c += r;
        n -= (size_t)r;
    }
}
static void put32(string &s, uint32_t v)
{
    s.append(reinterpret_cast<char *>(&v), 4);
}

struct Logger : CParameterMgrFullConnector::ILogger
{
    std::mutex m;
    Fields lines;
    void add(const string &l)
    {
        std::lock_guard<std::mutex> g(m);
        if (lines.size() < 4000) {
            lines.push_back(l);
        }
    }
    void info(const string &s) override { add("I" + s); }
    void warning(const string &s) override { add("W" + s); }
};

struct Inst
{
    Logger logger;
    std::shared_ptr<CParameterMgrFullConnector> pf;
    std::unique_ptr<CommandHandlerInterface> ch;
    std::map<string, std::unique_ptr<ElementHandle>> handles;
    std::map<string, ISelectionCriterionTypeInterface *> types;
    ~Inst()
    {
        handles.clear();
        ch.reset();
        pf.reset();
    }
};
static std::map<int, std::unique_ptr<Inst>> gInst;
static std::mutex gInstMutex;
// Threads sharing an instance have their own handles and command handlers.
struct Local
{
    std::map<std::pair<int, string>, std::unique_ptr<ElementHandle>> handles;
    std::map<int, std::unique_ptr<CommandHandlerInterface>> ch;
};
static thread_local Local *tlLocal = nullptr;

// the hardware of an instance goes with it
static void forget(int id)
{
    auto &r = mon::reg();
    std::lock_guard<std::mutex> l(r.m);
    for (auto it = r.presets.begin(); it != r.presets.end();) {
        it = it->first.first == id ? r.presets.erase(it) : std::next(it);
    }
    for (auto it = r.subs.begin(); it != r.subs.end();) {
        it = it->first.first == id ? r.subs.erase(it) : std::next(it);
    }
}

struct CInst
{
    PfwHandler *h = nullptr;
    std::map<string, PfwParameterHandler *> params;
    Fields log;
};
static std::map<int, std::unique_ptr<CInst>> gC;

static Inst &inst(const Fields &f)
{
    std::lock_guard<std::mutex> l(gInstMutex);
    return *gInst.at(atoi(f.at(1).c_str()));
}
static bool B(const string &s)
{
    return s == "1";
}
static string S(bool b)
{
    return b ? "1" : "0";
}
static string bytesOf(const vector<uint8_t> &v)
{
    return string(v.begin(), v.end());
}
static vector<uint8_t> toBytes(const string &s)
{
    return vector<uint8_t>(s.begin(), s.end());
}

static Fields api(const Fields &f)
{
    Inst &i = inst(f);
    auto &pf = *i.pf;
    const string &m = f.at(2);
    string err;
    auto A = [&](size_t n) -> const string & { return f.at(3 + n); };
    auto R = [&](bool ok) { return Fields{S(ok), err}; };
    if (m == "setTuningMode") return R(pf.setTuningMode(B(A(0)), err));
    if (m == "isTuningModeOn") return {"1", S(pf.isTuningModeOn())};
    if (m == "setValueSpace") { pf.setValueSpace(B(A(0))); return {"1", S(pf.isValueSpaceRaw())}; }
    if (m == "setOutputRawFormat") { pf.setOutputRawFormat(B(A(0))); return {"1", S(pf.isOutputRawFormatHex())}; }
    if (m == "setAutoSync") return R(pf.setAutoSync(B(A(0)), err));
    if (m == "isAutoSyncOn") return {"1", S(pf.isAutoSyncOn())};
    if (m == "sync") return R(pf.sync(err));
    if (m == "get") { string v; bool ok = pf.accessParameterValue(A(0), v, false, err); return {S(ok), ok ? v : err}; }
    if (m == "set") { string v = A(1); return R(pf.accessParameterValue(A(0), v, true, err)); }
    if (m == "getc") { string v; bool ok = pf.accessConfigurationValue(A(0), A(1), A(2), v, false, err); return {S(ok), ok ? v : err}; }
    if (m == "setc") { string v = A(3); return R(pf.accessConfigurationValue(A(0), A(1), A(2), v, true, err)); }
    if (m == "mapping") { string v; bool ok = pf.getParameterMapping(A(0), v); return {S(ok), v}; }
    if (m == "createDomain") return R(pf.createDomain(A(0), err));
    if (m == "deleteDomain") return R(pf.deleteDomain(A(0), err));
    if (m == "renameDomain") return R(pf.renameDomain(A(0), A(1), err));
    if (m == "deleteAllDomains") return R(pf.deleteAllDomains(err));
    if (m == "setSeq") return R(pf.setSequenceAwareness(A(0), B(A(1)), err));
    if (m == "getSeq") { bool b = false; bool ok = pf.getSequenceAwareness(A(0), b, err); return {S(ok), ok ? S(b) : err}; }
    if (m == "createConf") return R(pf.createConfiguration(A(0), A(1), err));
    if (m == "deleteConf") return R(pf.deleteConfiguration(A(0), A(1), err));
    if (m == "renameConf") return R(pf.renameConfiguration(A(0), A(1), A(2), err));
    if (m == "saveConf") return R(pf.saveConfiguration(A(0), A(1), err));
    if (m == "restoreConf") {
        CParameterMgrFullConnector::Results errs;
        bool ok = pf.restoreConfiguration(A(0), A(1), errs);
        Fields r{S(ok), ""};
        for (auto &e : errs) r.push_back(e);
        return r;
    }
    if (m == "addElem") return R(pf.addConfigurableElementToDomain(A(0), A(1), err));
    if (m == "removeElem") return R(pf.removeConfigurableElementFromDomain(A(0), A(1), err));
    if (m == "split") return R(pf.split(A(0), A(1), err));
    if (m == "setElemSeq") return R(pf.setElementSequence(A(0), A(1), Fields(f.begin() + 5, f.end()), err));
    if (m == "setRule") return R(pf.setApplicationRule(A(0), A(1), A(2), err));
    if (m == "getRule") { string v; bool ok = pf.getApplicationRule(A(0), A(1), v); return {S(ok), v}; }
    if (m == "clearRule") return R(pf.clearApplicationRule(A(0), A(1), err));
    if (m == "importDomains") return R(pf.importDomainsXml(A(0), B(A(1)), B(A(2)), err));
    if (m == "importDomain") return R(pf.importSingleDomainXml(A(0), B(A(1)), B(A(2)), B(A(3)), err));
    if (m == "importDomain2") return R(pf.importSingleDomainXml(A(0), B(A(1)), err));
    if (m == "exportDomains") { string v = A(0); bool ok = pf.exportDomainsXml(v, B(A(1)), B(A(2)), err); return {S(ok), ok ? v : err}; }
    if (m == "exportDomain") { string v = A(0); bool ok = pf.exportSingleDomainXml(v, A(1), B(A(2)), B(A(3)), err); return {S(ok), ok ? v : err}; }
    throw std::runtime_error("harness: unknown api " + m);
}

template <class T>
static vector<T> parseVec(const Fields &f, size_t from)
{
    vector<T> r;
    for (size_t k = from; k < f.size(); k++) {
        r.push_back((T)strtoll(f[k].c_str(), nullptr, 10));
    }
    return r;
}

static Fields handle(const Fields &f)
{
    Inst &i = inst(f);
    const string &path = f.at(2);
    const string &op = f.at(3);
    string err;
    auto &slot = tlLocal ? tlLocal->handles[{atoi(f.at(1).c_str()), path}] : i.handles[path];
    if (!slot) {
        slot.reset(i.pf->createElementHandle(path, err));
        if (!slot) {
            return {"0", "NOHANDLE " + err};
        }
    }
    ElementHandle &h = *slot;
    auto R = [&](bool ok) { return Fields{S(ok), err}; };
    char buf[64];
    if (op == "drop") { slot.reset(); return {"1", ""}; }
    if (op == "rogue") return {"1", S(h.isRogue())};
    if (op == "info") {
        Fields r{"1", h.getName(), h.getPath(), h.getKind(), std::to_string(h.getSize()),
                 S(h.isParameter()), S(h.isRogue()), S(h.isArray()), std::to_string(h.getArrayLength()),
                 h.getDescription()};
        for (auto &c : h.getChildren()) r.push_back(c.getPath());
        return r;
    }
    if (op == "map") { string v; bool ok = h.getMappingData(f.at(4), v); return {S(ok), v}; }
    if (op == "structxml") { string v; bool ok = h.getStructureAsXML(v, err); return {S(ok), ok ? v : err}; }
    if (op == "getxml") { string v; bool ok = h.getAsXML(v, err); return {S(ok), ok ? v : err}; }
    if (op == "setxml") return R(h.setAsXML(f.at(4), err));
    if (op == "getbytes") { vector<uint8_t> v(h.getSize()); bool ok = h.getAsBytes(v, err); return {S(ok), bytesOf(v)}; }
    if (op == "setbytes") return R(h.setAsBytes(toBytes(f.at(4)), err));
    if (op == "setbool") return R(h.setAsBoolean(B(f.at(4)), err));
    if (op == "setuint") return R(h.setAsInteger((uint32_t)strtoul(f.at(4).c_str(), nullptr, 10), err));
    if (op == "setint") return R(h.setAsSignedInteger((int32_t)strtol(f.at(4).c_str(), nullptr, 10), err));
    if (op == "setdouble") return R(h.setAsDouble(strtod(f.at(4).c_str(), nullptr), err));
    if (op == "setstring") return R(h.setAsString(f.at(4), err));
    if (op == "getbool") { bool v = false; bool ok = h.getAsBoolean(v, err); return {S(ok), ok ? S(v) : err}; }
    if (op == "getuint") { uint32_t v = 0; bool ok = h.getAsInteger(v, err); return {S(ok), ok ? std::to_string(v) : err}; }
    if (op == "getint") { int32_t v = 0; bool ok = h.getAsSignedInteger(v, err); return {S(ok), ok ? std::to_string(v) : err}; }
    if (op == "getdouble") { double v = 0; bool ok = h.getAsDouble(v, err); snprintf(buf, sizeof buf, "%.17g", v); return {S(ok), ok ? buf : err}; }
    if (op == "getstring") { string v; bool ok = h.getAsString(v, err); return {S(ok), ok ? v : err}; }
    if (op == "setbools") { vector<bool> v; for (auto x : parseVec<int>(f, 4)) v.push_back(x != 0); return R(h.setAsBooleanArray(v, err)); }
    if (op == "setuints") return R(h.setAsIntegerArray(parseVec<uint32_t>(f, 4), err));
    if (op == "setints") return R(h.setAsSignedIntegerArray(parseVec<int32_t>(f, 4), err));
    if (op == "setdoubles") { vector<double> v; for (size_t k = 4; k < f.size(); k++) v.push_back(strtod(f[k].c_str(), nullptr)); return R(h.setAsDoubleArray(v, err)); }
    if (op == "setstrings") return R(h.setAsStringArray(Fields(f.begin() + 4, f.end()), err));
    if (op == "getbools") { vector<bool> v; bool ok = h.getAsBooleanArray(v, err); Fields r{S(ok)}; if (!ok) r.push_back(err); else for (auto x : v) r.push_back(S(x)); return r; }
    if (op == "getuints") { vector<uint32_t> v; bool ok = h.getAsIntegerArray(v, err); Fields r{S(ok)}; if (!ok) r.push_back(err); else for (auto x : v) r.push_back(std::to_string(x)); return r; }
    if (op == "getints") { vector<int32_t> v; bool ok = h.getAsSignedIntegerArray(v, err); Fields r{S(ok)}; if (!ok) r.push_back(err); else for (auto x : v) r.push_back(std::to_string(x)); return r; }
    if (op == "getdoubles") { vector<double> v; bool ok = h.getAsDoubleArray(v, err); Fields r{S(ok)}; if (!ok) r.push_back(err); else for (auto x : v) { snprintf(buf, sizeof buf, "%.17g", x); r.push_back(buf); } return r; }
    if (op == "getstrings") { Fields v; bool ok = h.getAsStringArray(v, err); Fields r{S(ok)}; if (!ok) r.push_back(err); else for (auto &x : v) r.push_back(x); return r; }
    throw std::runtime_error("harness: unknown handle op " + op);
}

static void cLog(void *ctx, PfwLogLevel level, const char *line)
{
    auto *c = static_cast<CInst *>(ctx);
    if (c->log.size() < 2000) {
        c->log.push_back((level == pfwLogWarning ? "W" : level == pfwLogInfo ? "I" : "?") + string(line));
    }
}

static Fields capi(const Fields &f)
{
    int id = atoi(f.at(1).c_str());
    const string &op = f.at(2);
    if (op == "create") {
        auto c = std::unique_ptr<CInst>(new CInst);
        c->h = pfwCreate();
        gC[id] = std::move(c);
        return {"1", ""};
    }
    CInst &c = *gC.at(id);
    auto R = [&](bool ok) { return Fields{S(ok), pfwGetLastError(c.h)}; };
    if (op == "destroy") {
        for (auto &p : c.params) pfwUnbindParameter(p.second);
        pfwDestroy(c.h);
        gC.erase(id);
        forget(100000 + id);
        return {"1", ""};
    }
    if (op == "start") {
        // start <id> start <config> <log 0|1|2> <n> {name inclusive k v1..vk}
        mon::currentInstance() = 100000 + id;
        size_t p = 5;
        size_t n = (size_t)atoi(f.at(p++).c_str());
        vector<vector<const char *>> vals(n);
        vector<PfwCriterion> cr(n + 1);
        for (size_t k = 0; k < n; k++) {
            const string &nm = f.at(p++);
            cr[k].name = nm == "\x01NULL" ? nullptr : nm.c_str();
            cr[k].inclusive = B(f.at(p++));
            int nv = atoi(f.at(p++).c_str());
            for (int q = 0; q < nv; q++) vals[k].push_back(f.at(p++).c_str());
            vals[k].push_back(nullptr);
            cr[k].values = nv < 0 ? nullptr : vals[k].data();
        }
        PfwLogger lg = {&c, cLog};
        PfwLogger nolog = {&c, nullptr};
        const string &lm = f.at(4);
        return R(pfwStart(c.h, f.at(3).c_str(), cr.data(), n, lm == "1" ? &lg : lm == "2" ? nullptr : &nolog));
    }
    if (op == "setcrit") return R(pfwSetCriterion(c.h, f.at(3).c_str(), atoi(f.at(4).c_str())));
    if (op == "getcrit") { int v = -77; bool ok = pfwGetCriterion(c.h, f.at(3).c_str(), &v); return {S(ok), pfwGetLastError(c.h), std::to_string(v)}; }
    if (op == "apply") return R(pfwApplyConfigurations(c.h));
    if (op == "bind") {
        auto *p = pfwBindParameter(c.h, f.at(3).c_str());
        if (p) {
            if (c.params.count(f.at(3))) pfwUnbindParameter(c.params[f.at(3)]);
            c.params[f.at(3)] = p;
        }
        return R(p != nullptr);
    }
    if (op == "unbind") { pfwUnbindParameter(c.params.at(f.at(3))); c.params.erase(f.at(3)); return {"1", ""}; }
    if (op == "geti") { int32_t v = -77; bool ok = pfwGetIntParameter(c.params.at(f.at(3)), &v); return {S(ok), pfwGetLastError(c.h), std::to_string(v)}; }
    if (op == "seti") return R(pfwSetIntParameter(c.params.at(f.at(3)), (int32_t)strtol(f.at(4).c_str(), nullptr, 10)));
    if (op == "gets") {
        char *v = (char *)0x1;
        bool ok = pfwGetStringParameter(c.params.at(f.at(3)), &v);
        Fields r{S(ok), pfwGetLastError(c.h), v ? string("=") + v : "NULL"};
        pfwFree(v);
        return r;
    }
    if (op == "sets") return R(pfwSetStringParameter(c.params.at(f.at(3)), f.at(4).c_str()));
    if (op == "err") return {"1", pfwGetLastError(c.h)};
    if (op == "logs") { Fields r{"1"}; r.insert(r.end(), c.log.begin(), c.log.end()); c.log.clear(); return r; }
    throw std::runtime_error("harness: unknown c op " + op);
}

static Fields hw(const Fields &f)
{
    auto &r = mon::reg();
    const string &op = f.at(1);
    std::lock_guard<std::mutex> l(r.m);
    auto name = [&](size_t k) { return std::to_string(r.objs[k].instance) + "." + std::to_string(r.objs[k].local); };
    if (op == "events") { // events [<i>]
        Fields out{"1"};
        int id = f.size() > 2 ? atoi(f.at(2).c_str()) : -1;
        std::vector<mon::Event> kept;
        for (auto &e : r.events) {
            if (id >= 0 && r.objs[(size_t)e.obj].instance != id) {
                kept.push_back(e);
                continue;
            }
            out.push_back(name((size_t)e.obj));
            out.push_back(string(1, e.type));
            out.push_back(bytesOf(e.bytes));
        }
        r.events.swap(kept);
        return out;
    }
    if (op == "objs") {
        Fields out{"1"};
        int id = atoi(f.at(2).c_str());
        for (size_t k = 0; k < r.objs.size(); k++) {
            auto &o = r.objs[k];
            if (o.instance != id || !o.live) continue;
            out.push_back(name(k));
            out.push_back(o.subsystem);
            out.push_back(o.key);
            out.push_back(o.raw);
            out.push_back(o.formatted);
            out.push_back(o.path);
            out.push_back(std::to_string(o.size));
            string c;
            for (auto &x : o.context) c += (c.empty() ? "" : "\x01") + x;
            out.push_back(c);
        }
        return out;
    }
    if (op == "hw") { // current hardware contents of every live object of an instance
        Fields out{"1"};
        int id = atoi(f.at(2).c_str());
        for (size_t k = 0; k < r.objs.size(); k++) {
            auto &o = r.objs[k];
            if (o.instance != id || !o.live) continue;
            out.push_back(name(k));
            out.push_back(bytesOf(o.hw));
        }
        return out;
    }
    if (op == "obj") { // obj <idx> <field> <value>
        size_t at = r.objs.size();
        while (at > 0 && name(at - 1) != f.at(2)) at--;
        auto &o = r.objs.at(at - 1);
        if (f.at(3) == "failSend") o.failSend = B(f.at(4));
        else if (f.at(3) == "failReceive") o.failReceive = B(f.at(4));
        else if (f.at(3) == "hw") o.hw = toBytes(f.at(4));
        else throw std::runtime_error("harness: obj field");
        return {"1"};
    }
    if (op == "preset") { // preset <i> <path> <failReceive> <bytes>
        auto &p = r.presets[{atoi(f.at(2).c_str()), f.at(3)}];
        p.failReceive = B(f.at(4));
        p.hw = toBytes(f.at(5));
        return {"1"};
    }
    if (op == "sub") {
        auto &s = r.subs[{atoi(f.at(2).c_str()), f.at(3)}];
        if (f.at(4) == "alive") s.alive = B(f.at(5));
        else if (f.at(4) == "needResync") s.needResync = B(f.at(5));
        else if (f.at(4) == "get") return {"1", S(s.alive), S(s.needResync), std::to_string(s.resyncAsked)};
        return {"1"};
    }
    if (op == "overlaps") return {"1", std::to_string(r.overlaps)};
    if (op == "delay") { r.delayUs = atoi(f.at(2).c_str()); return {"1"}; }
    throw std::runtime_error("harness: unknown hw op " + op);
}

// ---- a remote command server of its own, recording what it is asked to execute
struct RecServer
{
    std::mutex m;
    vector<Fields> log;
    unsigned slow = 0;
    std::atomic<int> inside{0};
    bool overlap = false;
    std::unique_ptr<BackgroundRemoteProcessorServer> server;
};
static std::map<int, std::unique_ptr<RecServer>> gServers;

class RecHandler : public IRemoteCommandHandler
{
public:
    explicit RecHandler(RecServer &r) : mR(r) {}
    bool remoteCommandProcess(const IRemoteCommand &c, std::string &result) override
    {
        if (++mR.inside != 1) {
            std::lock_guard<std::mutex> l(mR.m);
            mR.overlap = true;
        }
        Fields f{c.getCommand()};
        for (size_t k = 0; k < c.getArgumentCount(); k++) {
            f.push_back(c.getArgument(k));
        }
        size_t n;
        unsigned slow;
        {
            std::lock_guard<std::mutex> l(mR.m);
            mR.log.push_back(f);
            n = mR.log.size();
            slow = mR.slow;
        }
        if (slow) {
            usleep(slow);
        }
        if (f[0].compare(0, 3, "big") == 0) {
            result.assign((size_t)atol(f[0].c_str() + 3), 'x');
        } else if (f[0] != "silent") {
            result = std::to_string(n);
            for (auto &x : f) result += '|' + x;
        }
        mR.inside--;
        return f[0].compare(0, 4, "fail") != 0;
    }

private:
    RecServer &mR;
};

static Fields rps(const Fields &f)
{
    const string &op = f.at(1);
    int id = atoi(f.at(2).c_str());
    if (op == "new") {
        auto r = std::unique_ptr<RecServer>(new RecServer);
        r->server.reset(new BackgroundRemoteProcessorServer((uint16_t)atoi(f.at(3).c_str()),
                                                            std::unique_ptr<IRemoteCommandHandler>(new RecHandler(*r))));
        gServers[id] = std::move(r);
        return {"1"};
    }
    RecServer &r = *gServers.at(id);
    if (op == "start") {
        string err;
        bool ok = r.server->start(err);
        return {S(ok), err};
    }
    if (op == "stop") return {S(r.server->stop())};
    if (op == "slow") { std::lock_guard<std::mutex> l(r.m); r.slow = (unsigned)atoi(f.at(3).c_str()); return {"1"}; }
    if (op == "log") {
        std::lock_guard<std::mutex> l(r.m);
        Fields out{"1", S(r.overlap)};
        for (auto &l : r.log) {
            out.push_back(std::to_string(l.size()));
            out.insert(out.end(), l.begin(), l.end());
        }
        return out;
    }
    if (op == "del") {
        r.server.reset();
        gServers.erase(id);
        return {"1"};
    }
    throw std::runtime_error("harness: unknown rps op " + op);
}

static Fields dispatch(const Fields &f)
{
    const string &op = f.at(0);
    if (op == "ping") return {"1", "pong"};
    if (op == "rps") return rps(f);
    if (op == "new") {
        int id = atoi(f.at(1).c_str());
        mon::currentInstance() = id;
        auto i = std::unique_ptr<Inst>(new Inst);
        i->pf.reset(new CParameterMgrFullConnector(f.at(2)));
        i->pf->setLogger(&i->logger);
        i->pf->setForceNoRemoteInterface(!B(f.at(3)));
        {
            auto &r = mon::reg();
            std::lock_guard<std::mutex> l(r.m);
            r.created[id] = 0;
        }
        std::lock_guard<std::mutex> l(gInstMutex);
        gInst[id] = std::move(i);
        return {"1", ""};
    }
    if (op == "del") {
        int id = atoi(f.at(1).c_str());
        std::unique_ptr<Inst> dying;
        {
            std::lock_guard<std::mutex> l(gInstMutex);
            auto it = gInst.find(id);
            if (it != gInst.end()) {
                dying = std::move(it->second);
                gInst.erase(it);
            }
        }
        dying.reset();
        forget(id);
        return {"1", ""};
    }
    if (op == "type") { // type <i> <name> <inclusive> (num lit)*
        Inst &i = inst(f);
        auto *t = i.pf->createSelectionCriterionType(B(f.at(3)));
        i.types[f.at(2)] = t;
        Fields r{"1"};
        for (size_t k = 4; k + 1 < f.size(); k += 2) {
            string err;
            r.push_back(S(t->addValuePair((int)strtol(f[k].c_str(), nullptr, 10), f[k + 1], err)));
            r.push_back(err);
        }
        return r;
    }
    if (op == "pair") { // pair <i> <type> (num lit)*
        auto *t = inst(f).types.at(f.at(2));
        Fields r{"1"};
        for (size_t k = 3; k + 1 < f.size(); k += 2) {
            string err;
            r.push_back(S(t->addValuePair((int)strtol(f[k].c_str(), nullptr, 10), f[k + 1], err)));
            r.push_back(err);
        }
        return r;
    }
    if (op == "crit") { // crit <i> <name> <type>
        Inst &i = inst(f);
        auto *c = i.pf->createSelectionCriterion(f.at(2), i.types.at(f.at(3)));
        return {S(c != nullptr), ""};
    }
    if (op == "flag") {
        Inst &i = inst(f);
        string err;
        bool ok = false;
        if (f.at(2) == "missing") ok = i.pf->setFailureOnMissingSubsystem(B(f.at(3)), err);
        else if (f.at(2) == "settings") ok = i.pf->setFailureOnFailedSettingsLoad(B(f.at(3)), err);
        else if (f.at(2) == "validate") ok = i.pf->setValidateSchemasOnStart(B(f.at(3)), err);
        else if (f.at(2) == "schema") { i.pf->setSchemaUri(f.at(3)); ok = true; }
        else throw std::runtime_error("harness: flag");
        return {S(ok), err};
    }
    if (op == "start") {
        Inst &i = inst(f);
        mon::currentInstance() = atoi(f.at(1).c_str());
        string err;
        bool ok = i.pf->start(err);
        return {S(ok), err, S(i.pf->isStarted())};
    }
    if (op == "setcrit") {
        auto *c = inst(f).pf->getSelectionCriterion(f.at(2));
        if (!c) return {"0", "no criterion"};
        c->setCriterionState((int)strtol(f.at(3).c_str(), nullptr, 10));
        return {"1", ""};
    }
    if (op == "getcrit") {
        auto *c = inst(f).pf->getSelectionCriterion(f.at(2));
        if (!c) return {"0", "no criterion"};
        return {"1", std::to_string(c->getCriterionState()), c->getCriterionName(),
                c->getCriterionType()->getFormattedState(c->getCriterionState())};
    }
    if (op == "critlit") { // literal -> numerical -> literal
        auto *c = inst(f).pf->getSelectionCriterion(f.at(2));
        if (!c) return {"0", "no criterion"};
        int v = 0;
        bool ok = c->getCriterionType()->getNumericalValue(f.at(3), v);
        return {S(ok), std::to_string(v)};
    }
    if (op == "critvals") { // numerical -> literal
        auto *c = inst(f).pf->getSelectionCriterion(f.at(2));
        if (!c) return {"0", "no criterion"};
        auto *t = c->getCriterionType();
        Fields r{"1", S(t->isTypeInclusive())};
        for (size_t k = 3; k < f.size(); k++) {
            string l;
            bool ok = t->getLiteralValue((int)strtol(f[k].c_str(), nullptr, 10), l);
            r.push_back(S(ok));
            r.push_back(ok ? l : "");
        }
        return r;
    }
    if (op == "apply") { inst(f).pf->applyConfigurations(); return {"1", ""}; }
    if (op == "api") return api(f);
    if (op == "cmd") {
        Inst &i = inst(f);
        auto &ch = tlLocal ? tlLocal->ch[atoi(f.at(1).c_str())] : i.ch;
        if (!ch) ch.reset(i.pf->createCommandHandler());
        string out;
        bool ok = ch->process(f.at(2), Fields(f.begin() + 3, f.end()), out);
        return {S(ok), out};
    }
    if (op == "h") return handle(f);
    if (op == "hw") return hw(f);
    if (op == "c") return capi(f);
    if (op == "logs") {
        Inst &i = inst(f);
        std::lock_guard<std::mutex> g(i.logger.m);
        Fields r{"1"};
        r.insert(r.end(), i.logger.lines.begin(), i.logger.lines.end());
        i.logger.lines.clear();
        return r;
    }
    throw std::runtime_error("harness: unknown op " + op);
}

static Fields guarded(const Fields &f)
{
    try {
        return dispatch(f);
    } catch (std::exception &e) {
        return {"E", string("EXCEPTION ") + e.what()};
    } catch (...) {
        return {"E", "EXCEPTION of unknown type"};
    }
}

// par <shared 0|1> <threads> { <ops> { <n> field*n } } : runs the lists concurrently.
// Reply: per operation, thread by thread: <invoked> <returned> <n> field*n
static Fields par(const Fields &f)
{
    bool shared = B(f.at(1));
    size_t p = 2, n = (size_t)atoi(f.at(p++).c_str());
    vector<vector<Fields>> ops(n);
    for (auto &l : ops) {
        size_t k = (size_t)atoi(f.at(p++).c_str());
        for (size_t q = 0; q < k; q++) {
            size_t m = (size_t)atoi(f.at(p++).c_str());
            l.push_back(Fields(f.begin() + (long)p, f.begin() + (long)(p + m)));
            p += m;
        }
    }
    struct Rec
    {
        uint64_t inv = 0, ret = 0;
        Fields out;
    };
    vector<vector<Rec>> rec(n);
    std::atomic<uint64_t> clock{1};
    std::atomic<size_t> ready{0};
    vector<std::thread> th;
    for (size_t t = 0; t < n; t++) {
        rec[t].resize(ops[t].size());
        th.emplace_back([&, t] {
            Local local;
            tlLocal = shared ? &local : nullptr;
            ready++;
            while (ready < n) {
                std::this_thread::yield();
            }
            for (size_t k = 0; k < ops[t].size(); k++) {
                const Fields &o = ops[t][k];
                if (o.at(0) == "sleep") {
                    usleep((unsigned)atoi(o.at(1).c_str()));
                    rec[t][k].out = {"1"};
                    continue;
                }
                rec[t][k].inv = clock++;
                rec[t][k].out = guarded(o);
                rec[t][k].ret = clock++;
            }
            tlLocal = nullptr;
        });
    }
    for (auto &t : th) {
        t.join();
    }
    Fields out{"1"};
    for (auto &l : rec) {
        for (auto &r : l) {
            out.push_back(std::to_string(r.inv));
            out.push_back(std::to_string(r.ret));
            out.push_back(std::to_string(r.out.size()));
            out.insert(out.end(), r.out.begin(), r.out.end());
        }
    }
    return out;
}

static string framed(const Fields &r)
{
    string out;
    put32(out, (uint32_t)r.size());
    for (auto &x : r) {
        put32(out, (uint32_t)x.size());
        out += x;
    }
    return out;
}

static void finish()
{
    gInst.clear();
    for (auto &c : gC) {
        for (auto &p : c.second->params) pfwUnbindParameter(p.second);
        pfwDestroy(c.second->h);
    }
    gC.clear();
}

#ifdef PFHOST_LIBRARY
// The driver inside another process, which holds the instances
#define LIBEXP extern "C" __attribute__((visibility("default")))
LIBEXP char *pyhost_call(const char *data, size_t len, size_t *outLen)
{
    Fields f;
    size_t p = 0;
    auto get32 = [&] {
        uint32_t v;
        if (len - p < 4) abort();
        memcpy(&v, data + p, 4);
        p += 4;
        return v;
    };
    f.resize(get32());
    for (auto &x : f) {
        uint32_t l = get32();
        if (len - p < l) abort();
        x.assign(data + p, l);
        p += l;
    }
    string out = framed(f.at(0) == "par" ? par(f) : guarded(f));
    char *r = static_cast<char *>(malloc(out.size() + 1));
    memcpy(r, out.data(), out.size());
    *outLen = out.size();
    return r;
}
LIBEXP void pyhost_free(char *p)
{
    free(p);
}
// objects created by this thread from now on belong to this instance
LIBEXP void pyhost_enter(int id)
{
    mon::currentInstance() = id;
}
LIBEXP void pyhost_adopt(int id, void *pf)
{
    auto i = std::unique_ptr<Inst>(new Inst);
    i->pf.reset(static_cast<CParameterMgrFullConnector *>(pf), [](CParameterMgrFullConnector *) {});
    {
        auto &r = mon::reg();
        std::lock_guard<std::mutex> l(r.m);
        r.created[id] = 0;
    }
    std::lock_guard<std::mutex> l(gInstMutex);
    gInst[id] = std::move(i);
}
LIBEXP void pyhost_forget(int id)
{
    forget(id);
}
LIBEXP void pyhost_finish()
{
    finish();
}
#else
int main()
{
    gOut = dup(1);
    dup2(2, 1);
    (void)readAll;
    while (true) {
        uint32_t n;
        if (!readBuf(&n, 4)) break;
        Fields f(n);
        for (auto &x : f) {
            uint32_t l;
            if (!readBuf(&l, 4)) return 3;
            x.resize(l);
            if (l && !readBuf(&x[0], l)) return 3;
        }
        Fields r;
        if (f.at(0) == "quit") break;
        r = f.at(0) == "par" ? par(f) : guarded(f);
        writeAll(framed(r));
    }
    finish();
    return 0;
}
#endif
