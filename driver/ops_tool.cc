// C27, C26, C17: the command-line tools, called as functions of the driver.
// Only the variant of the driver that links them has them.
#include "vp.hh"
#include <iostream>
#include <sstream>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include "segy.hh"
#include <algorithm>

using namespace vp;

#define TOOL(n) int vp_tool_##n(int, char**) __attribute__((weak));
#define TOOLS TOOL(makerep) TOOL(concatenate) TOOL(sort) TOOL(verifysort) TOOL(minmax) TOOL(filemake) \
    TOOL(traceanalysis) TOOL(assess) TOOL(fourdbin) TOOL(radon)
TOOLS
#undef TOOL

namespace {
std::map<std::string, int (*)(int, char**)> table()
{
    std::map<std::string, int (*)(int, char**)> m;
#define TOOL(n) m[#n] = vp_tool_##n;
    TOOLS
#undef TOOL
    return m;
}
// what a tool prints
struct Capture {
    std::ostringstream o, e;
    std::streambuf *ob, *eb;
    Capture() : ob(std::cout.rdbuf(o.rdbuf())), eb(std::cerr.rdbuf(e.rdbuf())) {}
    ~Capture()
    {
        std::cout.rdbuf(ob);
        std::cerr.rdbuf(eb);
    }
};
json lines(const std::string& s)
{
    json a = json::array();
    std::istringstream i(s);
    for (std::string l; std::getline(i, l);) {
        for (auto& c : l)
            if (static_cast<unsigned char>(c) >= 128 || static_cast<unsigned char>(c) < 32) c = '?';
        a.push_back(l);
    }
    return a;
}
json dump(const std::string& d)
{
    std::vector<std::string> r;
    if (DIR* q = opendir(d.c_str())) {
        while (auto* e = readdir(q))
            if (e->d_name[0] != '.') r.push_back(e->d_name);
        closedir(q);
    }
    std::sort(r.begin(), r.end());
    json a = json::array();
    for (auto& n : r) {
        json j    = segyCat(d + "/" + n, true, true);
        j["name"] = n;
        a.push_back(j);
    }
    return a;
}
}  // namespace

// {"t": tool, "args": ["-i", "@file", ...], "dump"?: directory, "cat"?: file, "env"?}
static Reg t1("tool", [](Ctx& c, const json& op, const json&) -> json {
    auto f = table()[op["t"]];
    if (!f) giveUp("driver", "this driver has no tool " + op["t"].get<std::string>(), 70);
    std::vector<std::string> s = {op["t"]};
    for (auto& a : op["args"]) {
        std::string x = a;
        s.push_back(x[0] == '@' ? c.path(x.substr(1)) : x);
    }
    std::vector<char*> v;
    for (auto& x : s) v.push_back(&x[0]);
    v.push_back(nullptr);
    if (op.count("mk")) {
        if (c.rank == 0) {
            mkdir(c.path(op["mk"]).c_str(), 0755);
            if (op.count("mktmp")) mkdir(c.path("tmp").c_str(), 0755);
        }
        sync(c.comm);
    }
    if (op.count("env"))
        for (auto& e : op["env"].items()) setenv(e.key().c_str(), e.value().get<std::string>().c_str(), 1);
    json r;
    char back[4096] = "";
    if (op.value("cd", 0) && (!getcwd(back, sizeof back) || chdir(c.path("").c_str()))) back[0] = 0;
    {
        Capture p;
        optind  = 0;
        int rc  = f(int(s.size()), v.data());
        r["rc"] = rc;
        r["out"] = lines(p.o.str());
        r["err_"] = lines(p.e.str());
    }
    if (back[0] && chdir(back)) giveUp("driver", "lost the working directory", 70);
    if (op.count("env"))
        for (auto& e : op["env"].items()) unsetenv(e.key().c_str());
    sync(c.comm);
    if (op.count("dump")) r["files"] = c.rank == 0 ? dump(c.path(op["dump"])) : json::array();
    return r;
});
