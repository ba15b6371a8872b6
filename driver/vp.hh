// Shared declarations of the conformance driver.
#ifndef VP_HH
#define VP_HH
#include <functional>
#include <map>
#include <memory>
#include <mpi.h>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

#include "ExSeisDat/PIOL/ExSeis.hh"

using json = nlohmann::json;

namespace vp {

// ---- the interposition layer (pmpi.cc) ------------------------------------
void init(int rank, FILE* log);
void registerComm(MPI_Comm c, const std::string& name);
void beginScenario(int sid, bool trace, unsigned delaySeed);
void endScenario();              // matched END marker on every known communicator
void sync(MPI_Comm c);             // all processes of c are at the same point of the driver
void mark(const std::string& w); // progress note for crash reports
[[noreturn]] void giveUp(const std::string& kind, const std::string& info, int code);
void setWatchdog(int seconds);
// fault injection: the k-th (0-based) matching file call after this returns an error
void setFault(const std::string& call, long k, bool perform);
bool faultFired();
void faultMode(bool on);         // failures are injected in this scenario
long takeFailed();               // file calls that reported a failure since last taken
long fileCalls();                // file calls counted since setFault/resetCount
json takeFileCalls();            // names of the file calls since last taken
json takeCalls();                // all calls logged since last taken
json live();                     // live resources by kind
json ledgerErrors();             // double releases, uses after release
int leftovers();                 // messages sent but never received
// the largest number of bytes one file call transferred since the last call of this
long long takeMaxIO();
void clearLedger();

// ---- scenario context ------------------------------------------------------
struct Ctx {
    int rank = 0, size = 1;      // in the world of the scenario (the whole job)
    int sid  = 0;
    std::string dir;             // scratch directory of this scenario
    std::map<std::string, std::shared_ptr<void>> obj;
    std::vector<std::string> order;  // creation order, for teardown
    MPI_Comm comm = MPI_COMM_WORLD;  // communicator of this scenario
    std::shared_ptr<exseis::PIOL::ExSeis> piol;
    json scen;

    template<class T> T* get(const std::string& n)
    {
        auto it = obj.find(n);
        if (it == obj.end()) giveUp("driver", "no object " + n, 70);
        return static_cast<T*>(it->second.get());
    }
    template<class T> void put(const std::string& n, std::shared_ptr<T> p)
    {
        obj[n] = p;
        order.push_back(n);
    }
    void drop(const std::string& n) { obj.erase(n); }
    std::string path(const std::string& n) const
    {
        return n.size() && n[0] == '/' ? n : dir + "/" + n;
    }
};

// an operation: common fields of the op, this rank's own arguments -> result
using OpFn = std::function<json(Ctx&, const json& op, const json& a)>;
std::map<std::string, OpFn>& ops();
struct Reg {
    Reg(const std::string& n, OpFn f) { ops()[n] = f; }
};

// 32-bit words as the signed integers TLC can hold
inline int32_t sw(uint32_t x) { return static_cast<int32_t>(x); }
inline json words(uint64_t x)  // 4 limbs of 16 bits, low first
{
    return json::array({x & 0xffff, (x >> 16) & 0xffff, (x >> 32) & 0xffff, (x >> 48) & 0xffff});
}
inline uint64_t unwords(const json& j)
{
    if (j.is_number()) return j.get<uint64_t>();
    return j[0].get<uint64_t>() | j[1].get<uint64_t>() << 16 | j[2].get<uint64_t>() << 32
           | j[3].get<uint64_t>() << 48;
}
}  // namespace vp
#endif
