// C10-C14: sorting, orders, extrema, gathers, the distributed vector
#include "segy.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include <cmath>
using namespace vp;

static long key(const Param* p, size_t k, int m)
{
    char t = metaKind(m);
    if (t == 'f') return std::lround(param_utils::getPrm<double>(k, Meta(m), p) * 10000);
    if (t == 's') return param_utils::getPrm<short>(k, Meta(m), p);
    if (t == 'i') return param_utils::getPrm<exseis::utils::Integer>(k, Meta(m), p);
    return (long)param_utils::getPrm<size_t>(k, Meta(m), p);
}

static std::unique_ptr<Param> rowsIn(const json& metas, const json& rows)
{
    std::unique_ptr<Param> p(new Param(mkRule(metas), rows.size()));
    for (size_t k = 0; k < rows.size(); k++) setRow(p.get(), k, metas, rows[k]);
    return p;
}

// {"rule","rows" per process,"type" | "by":[metas],"fo":0|1}
static Reg r1("psort", [](Ctx& c, const json& op, const json& a) -> json {
    const json& metas = op["rule"];
    auto p = rowsIn(metas, a["rows"]);
    std::vector<size_t> list;
    if (op.count("by")) {
        std::vector<int> by = op["by"].get<std::vector<int>>();
        CompareP comp = [by](const Param* q, const size_t i, const size_t j) -> bool {
            for (int m : by) {
                long x = key(q, i, m), y = key(q, j, m);
                if (x != y) return x < y;
            }
            return false;
        };
        list = exseis::PIOL::sort(c.piol.get(), p.get(), comp, op["fo"].get<int>() != 0);
    }
    else if (op["fo"].get<int>())
        list = exseis::PIOL::sort(c.piol.get(), SortType(op["type"].get<int>()), p.get());
    else
        list = exseis::PIOL::sort(c.piol.get(), p.get(), getComp(SortType(op["type"].get<int>())), false);
    json rows = json::array(), l = json::array();
    for (size_t k = 0; k < p->size(); k++) rows.push_back(getRow(p.get(), k, metas));
    for (auto x : list) l.push_back(x > 1000000000 ? -1 : long(x));
    sync(c.comm);
    return {{"rows", rows}, {"list", l}};
});

static Reg r2("cmp", [](Ctx&, const json& op, const json&) -> json {
    auto p = rowsIn(op["rule"], op["rows"]);
    auto f = getComp(SortType(op["type"].get<int>()));
    json m = json::array();
    for (size_t i = 0; i < p->size(); i++) {
        json r = json::array();
        for (size_t j = 0; j < p->size(); j++) r.push_back(f(p.get(), i, j) ? 1 : 0);
        m.push_back(r);
    }
    return {{"m", m}};
});

static Reg r3("order", [](Ctx& c, const json& op, const json& a) -> json {
    auto w = c.get<Reader>(op["o"]);
    exseis::utils::Contiguous_decomposition d(a["off"].get<size_t>(), a["n"].get<size_t>());
    bool ok = checkOrder(w->f.get(), d, SortType(op["type"].get<int>()));
    sync(c.comm);
    return {{"ok", ok ? 1 : 0}};
});

struct XY { double x = 0, y = 0; };

static json mmOut(const CoordElem* e)
{
    json j = json::array();
    for (int k = 0; k < 4; k++)
        j.push_back({{"v", std::isfinite(e[k].val) && std::fabs(e[k].val) < 200000 ? std::lround(e[k].val * 10000) : 2147483647L},
                     {"n", e[k].num > 1000000000 ? -1 : long(e[k].num)}});
    return j;
}

// {"rule","m1","m2","api"}, per process {"off","rows"}
static Reg r4("minmax", [](Ctx& c, const json& op, const json& a) -> json {
    auto p = rowsIn(op["rule"], a["rows"]);
    std::string api = op.value("api", "cc");
    CoordElem e[4];
    memset(e, 0x55, sizeof e);
    size_t off = a["off"], n = p->size();
    int m1 = op["m1"], m2 = op["m2"];
    if (api == "c") {
        auto h = std::make_shared<std::shared_ptr<ExSeis>>(c.piol);
        PIOL_File_getMinMax((PIOL_ExSeis*)h.get(), off, n, Meta(m1), Meta(m2), p.get(), e);
    }
    else if (api == "xy") {
        std::vector<XY> v(n);
        for (size_t k = 0; k < n; k++) {
            v[k].x = key(p.get(), k, m1) / (metaKind(m1) == 'f' ? 10000. : 1.);
            v[k].y = key(p.get(), k, m2) / (metaKind(m2) == 'f' ? 10000. : 1.);
        }
        getMinMax<XY>(
          c.piol.get(), off, n, v.data(), [](const XY& q) { return q.x; }, [](const XY& q) { return q.y; }, e);
    }
    else
        getMinMax(c.piol.get(), off, n, Meta(m1), Meta(m2), p.get(), e);
    sync(c.comm);
    return {{"e", mmOut(e)}};
});

static Reg r5("gath", [](Ctx& c, const json& op, const json&) -> json {
    auto w = c.get<Reader>(op["o"]);
    json g = json::array();
    size_t n;
    {
        auto v = getIlXlGathers(c.piol.get(), w->f.get());
        n = v.size();
        // every process may read every entry at once
        for (size_t k = 0; k < n; k++) {
            auto x = v.get(k);
            g.push_back({x.num_traces > 1000000000 ? -1 : long(x.num_traces), x.inline_, x.crossline});
        }
        sync(c.comm);
    }
    return {{"n", n}, {"g", g}};
});

// ---- the distributed vector ------------------------------------------------
struct VecBase {
    virtual ~VecBase() {}
    virtual void set(size_t i, uint32_t x) = 0;
    virtual json get(size_t i)             = 0;
    virtual size_t size()                  = 0;
};
// S words of 4 bytes, all derived from one value
template<int S> struct Elem { uint32_t w[S]; };
template<> struct Elem<0> { unsigned char b; };
template<int S> struct Vec : VecBase {
    exseis::utils::MPI_Distributed_vector<Elem<S>> v;
    Vec(size_t n, MPI_Comm c) : v(n, c) {}
    void set(size_t i, uint32_t x) override
    {
        Elem<S> e;
        for (int k = 0; k < S; k++) e.w[k] = x + 7919u * k;
        v.set(i, e);
    }
    json get(size_t i) override
    {
        Elem<S> e = v.get(i);
        for (int k = 1; k < S; k++)
            if (e.w[k] != e.w[0] + 7919u * k) {
                // all zero: an element never stored
                bool z = true;
                for (int q = 0; q < S; q++) z &= e.w[q] == 0;
                return z ? 0 : -1;
            }
        return long(e.w[0]);
    }
    size_t size() override { return v.size(); }
};
template<> struct Vec<0> : VecBase {
    exseis::utils::MPI_Distributed_vector<Elem<0>> v;
    Vec(size_t n, MPI_Comm c) : v(n, c) {}
    void set(size_t i, uint32_t x) override
    {
        Elem<0> e{(unsigned char)x};
        v.set(i, e);
    }
    json get(size_t i) override { return int(v.get(i).b); }
    size_t size() override { return v.size(); }
};

static Reg r6("vnew", [](Ctx& c, const json& op, const json&) -> json {
    size_t n = op["n"];
    std::shared_ptr<VecBase> v;
    switch (op["words"].get<int>()) {
        case 0: v = std::make_shared<Vec<0>>(n, c.comm); break;
        case 1: v = std::make_shared<Vec<1>>(n, c.comm); break;
        case 2: v = std::make_shared<Vec<2>>(n, c.comm); break;
        case 6: v = std::make_shared<Vec<6>>(n, c.comm); break;
        default: v = std::make_shared<Vec<41>>(n, c.comm); break;
    }
    c.put(op["o"], v);
    size_t s = v->size();
    sync(c.comm);
    return {{"n", s}};
});

// per process a list of [kind, index, value]: 1 store, 0 load
static Reg r7("vphase", [](Ctx& c, const json& op, const json& a) -> json {
    auto v = c.get<VecBase>(op["o"]);
    json r = json::array();
    for (auto& x : a["acts"]) {
        int64_t i = x[1];
        size_t k  = i < 0 ? size_t(0) - size_t(-i) : size_t(i);
        if (x[0].get<int>()) {
            v->set(k, x[2].get<uint32_t>());
            r.push_back(0);
        }
        else
            r.push_back(v->get(k));
    }
    sync(c.comm);
    return {{"r", r}};
});

static Reg r8("vfree", [](Ctx& c, const json& op, const json&) -> json {
    c.drop(op["o"]);
    sync(c.comm);
    return {{"ok", 1}};
});
