// Registry shared by the monitoring plugin (libmonsub.so) and the driver programs.
// Everything the "hardware" of the MON subsystems sees goes through here.
#pragma once
#include <cstdint>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <atomic>

#define MONEXP __attribute__((visibility("default")))

namespace mon
{
struct Obj
{
    int instance = -1;
    int local = 0; // rank among the objects of its instance
    std::string subsystem;
    std::string key;
    std::string raw;       // mapping value as written
    std::string formatted; // after amendment
    std::string path;
    size_t size = 0;
    bool live = true;
    bool failSend = false;
    bool failReceive = false;
    bool backSync = false;       // implements receiveFromHW by writing 'hw' in the blackboard
    std::vector<uint8_t> hw;     // what the hardware currently holds
    std::vector<uint8_t> plain;  // toPlainInteger probe
    std::vector<std::string> context; // amend values, "-" when unset
};

struct Event
{
    uint64_t seq;
    int obj;
    char type; // 'S' sent, 's' send refused by hw, 'R' received, 'r' receive refused
    std::vector<uint8_t> bytes;
};

struct Sub
{
    bool alive = true;
    bool needResync = false;
    uint64_t resyncAsked = 0;
};

struct Registry
{
    std::mutex m;
    std::vector<Obj> objs;
    std::vector<Event> events;
    uint64_t seq = 0;
    std::map<std::pair<int, std::string>, Sub> subs;
    struct Preset
    {
        bool failReceive = false;
        std::vector<uint8_t> hw;
    };
    // what an object finds in its hardware when it is created: (instance, element path)
    std::map<std::pair<int, std::string>, Preset> presets;
    // per instance count of callbacks currently running (concurrency monitor)
    std::map<int, int> inCallback;
    std::map<int, int> created; // objects created so far by each instance
    uint64_t overlaps = 0;
    bool record = true;
    int delayUs = 0;
};

MONEXP Registry &reg();
MONEXP int &currentInstance(); // thread local
}
