// C25: the C interface's own objects: handles, sizes, the PIOL's operations.
#include "segy.hh"
#include "vp.hh"
#include "ExSeisDat/Flow.h"
#include "ExSeisDat/Flow/Set.hh"
#include <cmath>

using namespace vp;
using namespace exseis::PIOL;

namespace {
// handles of one scenario
struct Handles {
    struct H {
        std::string k, obj;
        void* p;
    };
    std::map<std::string, H> h;
    // shared objects, by name
    std::map<std::string, std::weak_ptr<void>> weak;
    std::map<std::string, long> uses;
    ~Handles()
    {
        for (auto& x : h) del(x.second);
    }
    static void del(H& x)
    {
        if (x.k == "piol") PIOL_ExSeis_delete((PIOL_ExSeis*)x.p);
        else if (x.k == "rule") PIOL_File_Rule_delete((PIOL_File_Rule*)x.p);
        else if (x.k == "param") PIOL_File_Param_delete((PIOL_File_Param*)x.p);
        else if (x.k == "reader") PIOL_File_ReadDirect_delete((PIOL_File_ReadDirect*)x.p);
        else if (x.k == "writer") PIOL_File_WriteDirect_delete((PIOL_File_WriteDirect*)x.p);
        else if (x.k == "set") PIOL_Set_delete((PIOL_Set*)x.p);
    }
    json alive()
    {
        json j = json::array();
        for (auto& w : weak)
            if (!w.second.expired()) j.push_back(w.first);
        return j;
    }
};
Handles* theHandles(Ctx& c)
{
    if (!c.obj.count("#handles")) c.put("#handles", std::make_shared<Handles>());
    return c.get<Handles>("#handles");
}
}  // namespace

// {"h","k","from"?,"n"?,"name"?}: the object is named after its first handle
static Reg h1("hnew", [](Ctx& c, const json& op, const json&) -> json {
    auto H = theHandles(c);
    std::string h = op["h"], k = op["k"];
    void* p = nullptr;
    void* from = op.count("from") ? H->h.at(op["from"].get<std::string>()).p : nullptr;
    if (k == "piol") {
        p = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
        H->weak[h] = *(std::shared_ptr<ExSeis>*)p;
    }
    else if (k == "rule") {
        std::vector<PIOL_Meta> m;
        for (auto& x : op["metas"]) m.push_back(PIOL_Meta(x.get<int>()));
        p = PIOL_File_Rule_new_from_list(m.data(), m.size());
        H->weak[h] = *(std::shared_ptr<Rule>*)p;
    }
    else if (k == "param") p = PIOL_File_Param_new((PIOL_File_Rule*)from, op["n"].get<size_t>());
    else if (k == "reader") p = PIOL_File_ReadDirect_new((PIOL_ExSeis*)from, c.path(op["name"]).c_str());
    else if (k == "writer") {
        p = PIOL_File_WriteDirect_new((PIOL_ExSeis*)from, c.path(op["name"]).c_str());
        PIOL_File_WriteDirect_writeNs((PIOL_File_WriteDirect*)p, 3);
        PIOL_File_WriteDirect_writeNt((PIOL_File_WriteDirect*)p, 0);
        PIOL_File_WriteDirect_writeInc((PIOL_File_WriteDirect*)p, 0.001);
    }
    else if (k == "set") p = PIOL_Set_new((PIOL_ExSeis*)from, c.path(op["name"]).c_str());
    H->h[h] = {k, h, p};
    sync(c.comm);
    return {{"alive", H->alive()}, {"x", 0}};
});
static Reg h2("hdel", [](Ctx& c, const json& op, const json&) -> json {
    auto H = theHandles(c);
    auto it = H->h.find(op["h"].get<std::string>());
    Handles::del(it->second);
    H->h.erase(it);
    sync(c.comm);
    return {{"alive", H->alive()}, {"x", 0}};
});
// something that needs the object and what it holds
static Reg h3("huse", [](Ctx& c, const json& op, const json&) -> json {
    auto H = theHandles(c);
    auto& x = H->h.at(op["h"].get<std::string>());
    long v = 0;
    if (x.k == "piol") {
        PIOL_ExSeis_barrier((PIOL_ExSeis*)x.p);
        v = long(PIOL_ExSeis_getRank((PIOL_ExSeis*)x.p)) + 100 * long(PIOL_ExSeis_max((PIOL_ExSeis*)x.p, size_t(c.rank)));
    }
    else if (x.k == "rule") v = long(PIOL_File_Rule_extent((PIOL_File_Rule*)x.p));
    else if (x.k == "param") v = long(PIOL_File_Param_size((PIOL_File_Param*)x.p));
    else if (x.k == "reader") {
        auto r = (PIOL_File_ReadDirect*)x.p;
        v = long(PIOL_File_ReadDirect_readNt(r));
        std::vector<float> t(PIOL_File_ReadDirect_readNs(r) + 1);
        PIOL_File_ReadDirect_readTrace(r, 0, v ? 1 : 0, t.data(), nullptr);
    }
    else if (x.k == "writer") PIOL_File_WriteDirect_writeText((PIOL_File_WriteDirect*)x.p, "C25");
    else if (x.k == "set") PIOL_Set_text((PIOL_Set*)x.p, "C25");
    sync(c.comm);
    return {{"alive", H->alive()}, {"x", v}};
});

// {"api","a":[{"n"}]}
static Reg x1("exs", [](Ctx& c, const json& op, const json& a) -> json {
    size_t n = unwords(a["n"]), rank, num, mx;
    if (op["api"] == "c") {
        auto h = (PIOL_ExSeis*)&c.piol;
        rank = PIOL_ExSeis_getRank(h);
        num  = PIOL_ExSeis_getNumRank(h);
        mx   = PIOL_ExSeis_max(h, n);
        PIOL_ExSeis_barrier(h);
        PIOL_ExSeis_isErr(h, op["msg"].get<int>() ? "all well" : nullptr);
    }
    else {
        rank = c.piol->getRank();
        num  = c.piol->getNumRank();
        mx   = c.piol->max(n);
        c.piol->barrier();
        c.piol->isErr();
    }
    return {{"rank", rank}, {"num", num}, {"max", words(mx)}};
});

static Reg x2("sizes", [](Ctx&, const json& op, const json&) -> json {
    json out = json::array();
    bool capi = op["api"] == "c";
    for (auto& x : op["x"]) {
        size_t nt = unwords(x[0]), ns = unwords(x[1]);
        out.push_back({words(capi ? PIOL_SEGY_utils_getFileSz(nt, ns) : SEGY_utils::getFileSz<float>(nt, ns)),
                       words(capi ? PIOL_SEGY_utils_getDFSz(ns) : SEGY_utils::getDFSz<float>(ns))});
    }
    return {{"text", capi ? PIOL_SEGY_utils_getTextSz() : SEGY_utils::getTextSz()},
            {"md", capi ? PIOL_SEGY_utils_getMDSz() : SEGY_utils::getMDSz()}, {"out", out}};
});
