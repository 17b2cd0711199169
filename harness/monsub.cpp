// Monitoring plugin: a subsystem whose "hardware" is an in-process store recording
// every synchronisation the framework performs.
#include "monreg.h"
#include <algorithm>
#include <FormattedSubsystemObject.h>
#include <InstanceConfigurableElement.h>
#include <LoggingElementBuilderTemplate.h>
#include <MappingContext.h>
#include <Plugin.h>
#include <Subsystem.h>
#include <SubsystemObjectFactory.h>
#include <unistd.h>

namespace mon
{
Registry &reg()
{
    static Registry *r = new Registry;
    return *r;
}
int &currentInstance()
{
    static thread_local int i = -1;
    return i;
}

static const size_t kPieces[4] = {64, 1, 23, 4096};
// Keys which amend nothing stand before and after those which do
static const size_t kKeys = 6, kFirstAmend = 1, kAmends = 4;
static const char *kContextKeys[kKeys] = {"Tag", "Amend1", "Amend2", "Amend3", "Amend4", "Tail"};

class MonSubsystem : public CSubsystem
{
public:
    MonSubsystem(const std::string &name, core::log::Logger &logger);
    bool isAlive() const override
    {
        std::lock_guard<std::mutex> l(reg().m);
        return reg().subs[{mInstance, getName()}].alive;
    }
    bool needResync(bool clear) override
    {
        std::lock_guard<std::mutex> l(reg().m);
        auto &s = reg().subs[{mInstance, getName()}];
        s.resyncAsked++;
        bool r = s.needResync;
        if (clear) {
            s.needResync = false;
        }
        return r;
    }
    int mInstance;
};

template <int Kind>
class MonObject : public CFormattedSubsystemObject
{
public:
    MonObject(const std::string &mappingValue, CInstanceConfigurableElement *element,
              const CMappingContext &context, core::log::Logger &logger)
        : CFormattedSubsystemObject(element, logger, mappingValue, kFirstAmend, kAmends, context),
          mInstance(currentInstance())
    {
        Obj o;
        o.instance = mInstance;
        o.key = Kind == 0 ? "Obj" : Kind == 1 ? "Small" : Kind == 2 ? "Req" : "Back";
        o.backSync = Kind == 3;
        o.raw = mappingValue;
        o.formatted = getFormattedMappingValue();
        o.path = element->getPath();
        o.subsystem = subsystemOf(o.path);
        o.size = getSize();
        o.hw.assign(o.size, 0xEE);
        for (size_t i = 0; i < kKeys; i++) {
            o.context.push_back(context.iSet(i) ? "+" + context.getItem(i) : "-");
        }
        for (size_t i = 0; i < kKeys; i++) {
            auto *item = context.getItem(kContextKeys[i]);
            o.context.push_back(item ? "+" + *item : "-");
        }
        o.context.push_back(std::to_string(context.getItemAsInteger(0)));
        o.context.push_back(std::to_string(context.getItemAsInteger(kKeys - 1)));
        std::lock_guard<std::mutex> l(reg().m);
        auto p = reg().presets.find({mInstance, o.path});
        if (p != reg().presets.end()) {
            o.failReceive = p->second.failReceive;
            if (p->second.hw.size() == o.size) {
                o.hw = p->second.hw;
            }
        }
        mIndex = (int)reg().objs.size();
        o.local = reg().created[mInstance]++;
        reg().objs.push_back(o);
    }
    ~MonObject() override
    {
        std::lock_guard<std::mutex> l(reg().m);
        reg().objs[mIndex].live = false;
    }

private:
    static std::string subsystemOf(const std::string &path)
    {
        auto a = path.find('/', 1);
        if (a == std::string::npos) {
            return "";
        }
        auto b = path.find('/', a + 1);
        return path.substr(a + 1, b == std::string::npos ? b : b - a - 1);
    }
    void enter()
    {
        int d;
        {
            std::lock_guard<std::mutex> l(reg().m);
            if (reg().inCallback[mInstance]++ != 0) {
                reg().overlaps++;
            }
            d = reg().delayUs;
        }
        if (d) {
            usleep(d);
        }
    }
    void leave()
    {
        std::lock_guard<std::mutex> l(reg().m);
        reg().inCallback[mInstance]--;
    }
    bool sendToHW(std::string &error) override
    {
        enter();
        std::vector<uint8_t> b(getSize());
        // in pieces, as subsystems do
        for (size_t i = 0, n; i < b.size(); i += n) {
            n = std::min(b.size() - i, kPieces[(i + mIndex) % 4]);
            blackboardRead(b.data() + i, n);
        }
        bool fail;
        {
            std::lock_guard<std::mutex> l(reg().m);
            auto &o = reg().objs[mIndex];
            fail = o.failSend;
            if (!fail) {
                o.hw = b;
            }
            if (reg().record) {
                reg().events.push_back({reg().seq++, mIndex, fail ? 's' : 'S', b});
            }
        }
        leave();
        if (fail) {
            error = "MON hardware refused " + getFormattedMappingValue();
        }
        return !fail;
    }
    bool receiveFromHW(std::string &error) override
    {
        enter();
        bool fail;
        std::vector<uint8_t> b;
        bool write;
        {
            std::lock_guard<std::mutex> l(reg().m);
            auto &o = reg().objs[mIndex];
            fail = o.failReceive;
            b = o.hw;
            write = o.backSync;
            if (reg().record) {
                reg().events.push_back({reg().seq++, mIndex, fail ? 'r' : 'R', b});
            }
        }
        if (!fail && write) {
            for (size_t i = 0, n; i < b.size(); i += n) {
                n = std::min(b.size() - i, kPieces[(i + mIndex) % 4]);
                blackboardWrite(b.data() + i, n);
            }
        }
        leave();
        if (fail) {
            error = "MON hardware unreadable " + getFormattedMappingValue();
        }
        return !fail;
    }

    int mInstance;
    int mIndex = 0;
};

MonSubsystem::MonSubsystem(const std::string &name, core::log::Logger &logger)
    : CSubsystem(name, logger), mInstance(currentInstance())
{
    for (auto *k : kContextKeys) {
        addContextMappingKey(k);
    }
    addSubsystemObjectFactory(new TSubsystemObjectFactory<MonObject<0>>("Obj", 0));
    addSubsystemObjectFactory(new TSubsystemObjectFactory<MonObject<1>>("Small", 0, 4));
    addSubsystemObjectFactory(new TSubsystemObjectFactory<MonObject<2>>("Req", 2 | 8));
    addSubsystemObjectFactory(new TSubsystemObjectFactory<MonObject<3>>("Back", 0));
}
} // namespace mon

void PARAMETER_FRAMEWORK_PLUGIN_ENTRYPOINT_V1(CSubsystemLibrary *subsystemLibrary,
                                              core::log::Logger &logger)
{
    subsystemLibrary->addElementBuilder(
        "MON", new TLoggingElementBuilderTemplate<mon::MonSubsystem>(logger));
}
