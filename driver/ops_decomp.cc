// C01: work decomposition
#include "vp.hh"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
using namespace vp;
using namespace exseis::utils;

static json rangeOf(size_t N, size_t P, size_t r)
{
    auto d = block_decomposition(N, P, r);
    auto c = exseis_block_decomposition(N, P, r);
    return {{"b", words(d.global_offset)}, {"n", words(d.local_size)},
            {"cb", words(c.global_offset)}, {"cn", words(c.local_size)}};
}

static Reg r1("decomp", [](Ctx&, const json& op, const json&) -> json {
    size_t N = unwords(op["N"]), P = op["P"];
    json j = json::array();
    for (size_t r = 0; r < P; r++) j.push_back(rangeOf(N, P, r));
    return {{"d", j}};
});

static Reg r2("locate", [](Ctx&, const json& op, const json&) -> json {
    size_t N = unwords(op["N"]), P = op["P"];
    json j = json::array();
    for (auto& i : op["idx"]) {
        auto l = block_decomposition_location(N, P, unwords(i));
        json o = rangeOf(N, P, l.rank < P ? l.rank : 0);
        o["rank"] = words(l.rank);
        o["li"] = words(l.local_index);
        j.push_back(o);
    }
    return {{"l", j}};
});

// neighbouring ranks of a decomposition too wide to list
static Reg r3("adjacent", [](Ctx&, const json& op, const json&) -> json {
    size_t N = unwords(op["N"]), P = unwords(op["PP"]);
    json j = json::array();
    for (auto& q : op["ranks"]) {
        size_t r = unwords(q);
        j.push_back({{"x", rangeOf(N, P, r)}, {"y", rangeOf(N, P, r + 1)}});
    }
    return {{"p", j}, {"first", rangeOf(N, P, 0)}, {"last", rangeOf(N, P, P - 1)}};
});
