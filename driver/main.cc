// Conformance driver: replays scenarios (one JSON object per line) on the real
// library and logs, per rank, the result of every operation.
//   drv SCENARIOS LOGPREFIX SCRATCH [watchdog]
#include "vp.hh"
#include "ExSeisDat/PIOL.h"
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

namespace vp {
std::map<std::string, OpFn>& ops()
{
    static std::map<std::string, OpFn> m;
    return m;
}
}  // namespace vp
using namespace vp;
using namespace exseis::PIOL;

static FILE* lg;
static void out(const json& j)
{
    std::string s = j.dump() + "\n";
    fwrite(s.data(), 1, s.size(), lg);
    fflush(lg);
}

int main(int argc, char** argv)
{
    MPI_Init(&argc, &argv);
    int rank, size;
    PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
    PMPI_Comm_size(MPI_COMM_WORLD, &size);
    lg = fopen((std::string(argv[2]) + "." + std::to_string(rank)).c_str(), "w");
    vp::init(rank, lg);
    vp::setWatchdog(argc > 4 ? atoi(argv[4]) : 60);
    std::ifstream in(argv[1]);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        Ctx c;
        c.scen = json::parse(line);
        c.sid  = c.scen["sid"];
        c.rank = rank;
        c.size = size;
        c.dir  = std::string(argv[3]) + "/s" + std::to_string(c.sid);
        if (rank == 0) mkdir(c.dir.c_str(), 0755);
        PMPI_Barrier(MPI_COMM_WORLD);
        vp::beginScenario(c.sid, c.scen.value("trace", 0) != 0, c.scen.value("delay", 0u));
        bool faults = c.scen.value("faults", 0) != 0;
        vp::faultMode(faults);
        vp::takeFailed();
        out({{"s", c.sid}, {"b", 1}});
        vp::mark("begin");
        // disjoint groups of processes, if the scenario asks for them
        MPI_Comm sub = MPI_COMM_NULL;
        if (c.scen.count("groups")) {
            int col = c.scen["groups"][rank];
            int key = c.scen.value("rev", 0) ? size - rank : rank;
            PMPI_Comm_split(MPI_COMM_WORLD, col, key, &sub);
            vp::registerComm(sub, "group" + std::to_string(col));
            c.comm = sub;
            PMPI_Comm_rank(sub, &c.rank);
            PMPI_Comm_size(sub, &c.size);
            if (c.scen.count("gops")) {
                // each group has its own place for files
                c.dir += "/g" + std::to_string(col);
                if (c.rank == 0) mkdir(c.dir.c_str(), 0755);
                PMPI_Barrier(sub);
                if (c.scen["gops"][col].empty()) c.scen["piol"] = 0;   // takes no part at all
            }
        }
        if (c.scen.value("piol", 1)) {
            if (c.scen.value("capi", 0)) {
                auto h = PIOL_ExSeis_new((PIOL_Verbosity)c.scen.value("verbosity", (int)PIOL_VERBOSITY_NONE));
                c.piol = *(std::shared_ptr<ExSeis>*)h;
                PIOL_ExSeis_delete(h);
            }
            else
                c.piol = ExSeis::New((Verbosity)c.scen.value("verbosity", (int)PIOL_VERBOSITY_NONE), c.comm);
        }
        const json& ol = c.scen.count("groups") && c.scen.count("gops") ?
                           c.scen["gops"][c.scen["groups"][rank].get<int>()] :
                           c.scen["ops"];
        size_t i = 0;
        for (auto& op : ol) {
            std::string n = op["op"];
            vp::mark(n + "#" + std::to_string(i));
            auto f = vp::ops().find(n);
            if (f == vp::ops().end()) vp::giveUp("driver", "unknown op " + n, 70);
            static const json empty = json::object();
            const json& a = op.count("a") ? op["a"][c.rank] : empty;
            json v;
            json before;
            if (c.scen.value("ledger", 0)) before = vp::live();
            if (op.count("flt")) {
                const json& q = op["flt"][c.rank];
                if (q.count("call")) vp::setFault(q["call"], q["k"], q.value("perform", 1) != 0);
            }
            try {
                v = f->second(c, op, a);
            }
            catch (std::exception& e) {
                vp::giveUp("exception", e.what(), 76);
            }
            if (v.is_null()) v = json{{"ok", 1}};
            if (faults) {
                v["ff"] = vp::takeFailed();
                vp::setFault("", -1, true);
            }
            if (c.piol && !op.count("noerr")) v["err"] = c.piol->log->isErr() ? 1 : 0;
            if (c.scen.value("ledger", 0)) {
                json after = vp::live();
                v["lb"] = before;
                v["la"] = after;
                v["lerr"] = vp::ledgerErrors();
            }
            if (c.scen.value("trace", 0)) v["calls"] = vp::takeCalls();
            out({{"s", c.sid}, {"i", i}, {"r", rank}, {"v", v}});
            i++;
        }
        vp::mark("teardown");
        if (c.scen.value("teardown", 1)) {
            for (size_t k = c.order.size(); k-- > 0;) c.obj.erase(c.order[k]);
            c.piol.reset();
        }
        vp::mark("end");
        json lv = vp::live();
        vp::endScenario();
        json e = {{"s", c.sid}, {"r", rank}, {"e", 1}, {"live", lv}, {"lerr", vp::ledgerErrors()},
                  {"left", vp::leftovers()}};
        if (c.scen.value("trace", 0)) e["calls"] = vp::takeCalls();
        out(e);
        if (sub != MPI_COMM_NULL) PMPI_Comm_free(&sub);
    }
    alarm(0);
    PMPI_Barrier(MPI_COMM_WORLD);
    fclose(lg);
    // objects of abandoned scenarios are not torn down
    PMPI_Finalize();
    return 0;
}
