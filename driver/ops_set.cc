// C12, C15, C16: file sets and workflows.
#include "segy.hh"
#include "vp.hh"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include "ExSeisDat/PIOL/ReadModel.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/Model3dInterface.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/Flow.h"
#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL/makeFile.hh"

using namespace vp;
using namespace exseis::PIOL;
using exseis::Flow::Set;
using namespace exseis::utils::signal_processing;
namespace U = exseis::utils;

namespace {
struct SetH {
    std::shared_ptr<Set> s;
    PIOL_Set* c = nullptr;
    std::shared_ptr<std::shared_ptr<ExSeis>> cpiol;
    Set* get() { return c ? c : s.get(); }
    ~SetH() { if (c) PIOL_Set_delete(c); }
};

std::vector<int> gBy;
bool byList(const std::vector<int>& by, const Param* p, size_t a, size_t b)
{
    for (int m : by) {
        double x, y;
        if (metaKind(m) == 'f') {
            x = param_utils::getPrm<double>(a, Meta(m), p);
            y = param_utils::getPrm<double>(b, Meta(m), p);
        }
        else if (metaKind(m) == 't') {
            x = double(param_utils::getPrm<size_t>(a, Meta(m), p));
            y = double(param_utils::getPrm<size_t>(b, Meta(m), p));
        }
        else {
            x = double(param_utils::getPrm<exseis::utils::Integer>(a, Meta(m), p));
            y = double(param_utils::getPrm<exseis::utils::Integer>(b, Meta(m), p));
        }
        if (x != y) return x < y;
    }
    return false;
}
bool byKeysC(const PIOL_File_Param* p, size_t a, size_t b) { return byList(gBy, p, a, b); }

std::vector<std::string> listDir(const std::string& d)
{
    std::vector<std::string> r;
    if (DIR* q = opendir(d.c_str())) {
        while (auto* e = readdir(q))
            if (e->d_name[0] != '.') r.push_back(e->d_name);
        closedir(q);
    }
    std::sort(r.begin(), r.end());
    return r;
}

// some operations leave files in the current directory
struct Within {
    std::string back;
    Within(Ctx& c, const json& op)
    {
        char b[4096];
        if (op.value("cd", 0) && getcwd(b, sizeof b)) {
            back = b;
            if (chdir(c.path("").c_str())) back = "";
        }
    }
    ~Within() { if (!back.empty() && chdir(back.c_str())) {} }
};

// all files of a directory, as they are
json dump(const std::string& d)
{
    json a = json::array();
    for (auto& n : listDir(d)) {
        json j = segyCat(d + "/" + n, true, true);
        j["name"] = n;
        a.push_back(j);
    }
    return a;
}

float fbits(int32_t w)
{
    uint32_t u = uint32_t(w);
    float f;
    memcpy(&f, &u, 4);
    return f;
}

// in hundredths: one or two with an order, else two or four
std::vector<float> corners(const json& o)
{
    if (!o.count("cs")) return {o["c1"].get<float>() / 100.f, o["c2"].get<float>() / 100.f};
    std::vector<float> c;
    for (auto& x : o["cs"]) c.push_back(x.get<float>() / 100.f);
    return c;
}

void chainOp(const json& o, size_t ns, float* t)
{
    std::string k = o["op"];
    if (k == "staper") {
        std::string f = o["f"];
        U::Taper_function w = f == "cos" ? exseis_cosine_taper : f == "cos2" ? exseis_cosine_square_taper : exseis_linear_taper;
        U::taper(ns, t, w, o["l"], o["r"]);
    }
    else if (k == "sagc") {
        std::string f = o["f"];
        U::Gain_function g = f == "rms" ? exseis_rectangular_RMS_gain : f == "tri" ? exseis_triangular_RMS_gain
                             : f == "mean" ? exseis_mean_abs_gain : exseis_median_gain;
        U::AGC(ns, t, g, o["win"].get<size_t>(), o["target"].get<float>());
    }
    else if (k == "sfilt") {
        std::vector<float> c = corners(o);
        if (o.count("cs")) {
            temporalFilter(1, ns, t, o["fs"].get<float>(), FltrType(o["type"].get<int>()), FltrDmn(o["dmn"].get<int>()),
                           PadType(o["pad"].get<int>()), o["nw"], o["wc"], c);
            return;
        }
        temporalFilter(1, ns, t, o["fs"].get<float>(), FltrType(o["type"].get<int>()),
                       FltrDmn(o["dmn"].get<int>()), PadType(o["pad"].get<int>()), o["nw"], o["wc"], c,
                       o["N"].get<size_t>());
    }
}
}  // namespace

// {"o","api":cc|c|out,"pattern","outfix"}
static Reg s1("sopen", [](Ctx& c, const json& op, const json&) -> json {
    auto h = std::make_shared<SetH>();
    std::string api = op.value("api", "cc");
    std::string d = c.dir + "/out";
    if (c.rank == 0) mkdir(d.c_str(), 0755);
    sync(c.comm);
    if (api == "c") {
        h->cpiol = std::make_shared<std::shared_ptr<ExSeis>>(c.piol);
        h->c = PIOL_Set_new((PIOL_ExSeis*)h->cpiol.get(), c.path(op["pattern"]).c_str());
        if (op.count("hdrop")) h->cpiol.reset();
    }
    else if (api == "out")
        h->s = std::make_shared<Set>(c.piol, c.path(op["pattern"]), op["outfix"].get<std::string>().empty() ? "" : d + "/" + op["outfix"].get<std::string>());
    else
        h->s = op.count("rule") ? std::make_shared<Set>(c.piol, mkRule(op["rule"])) : std::make_shared<Set>(c.piol);
    c.put(op["o"], h);
    sync(c.comm);
    return {{"ok", 1}};
});

static Reg s2("sadd", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    std::string p = c.path(op["pattern"]);
    if (h->c) PIOL_Set_add(h->c, p.c_str());
    else if (op.value("ifc", 0)) h->s->add(makeFile<ReadSEGY>(c.piol, p));
    else h->s->add(p);
    sync(c.comm);
    return {{"ok", 1}};
});

static Reg s3("ssort", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    if (op.count("by")) {
        gBy = op["by"].get<std::vector<int>>();
        auto by = gBy;
        auto byKeys = [by](const Param* p, size_t a, size_t b) { return byList(by, p, a, b); };
        if (h->c) PIOL_Set_sort_fn(h->c, byKeysC);
        else if (op.count("rule")) h->s->sort(mkRule(op["rule"]), byKeys);
        else h->s->sort(byKeys);
    }
    else if (h->c) PIOL_Set_sort(h->c, PIOL_SortType(op["type"].get<int>()));
    else h->s->sort(SortType(op["type"].get<int>()));
    return {{"ok", 1}};
});

static Reg s4("staper", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    std::string f = op["f"];
    auto w = f == "cos" ? exseis_cosine_taper : f == "cos2" ? exseis_cosine_square_taper : exseis_linear_taper;
    if (h->c) PIOL_Set_taper(h->c, w, op["l"], op["r"]);
    else h->s->taper(w, op["l"], op["r"]);
    return {{"ok", 1}};
});

static Reg s5("sagc", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    std::string f = op["f"];
    auto g = f == "rms" ? exseis_rectangular_RMS_gain : f == "tri" ? exseis_triangular_RMS_gain
             : f == "mean" ? exseis_mean_abs_gain : exseis_median_gain;
    if (h->c) PIOL_Set_AGC(h->c, g, op["win"], op["target"].get<float>());
    else h->s->AGC(g, op["win"].get<size_t>(), op["target"].get<float>());
    return {{"ok", 1}};
});

static Reg s6("sfilt", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    std::vector<float> cn = corners(op);
    FltrType type = FltrType(op["type"].get<int>());
    FltrDmn dmn = FltrDmn(op["dmn"].get<int>());
    PadType pad = PadType(op["pad"].get<int>());
    float fs = op["fs"];
    size_t nw = op["nw"], wc = op["wc"], N = op.value("N", size_t(0));
    if (op.count("cs")) {
        if (nw == 0 && wc == 0) h->s->temporalFilter(type, dmn, pad, fs, cn);
        else h->s->temporalFilter(type, dmn, pad, fs, cn, nw, wc);
    }
    else if (cn[1] == 0 && N % 2) h->s->temporalFilter(type, dmn, pad, fs, N, cn[0], nw, wc);
    else h->s->temporalFilter(type, dmn, pad, fs, N, cn, nw, wc);
    return {{"ok", 1}};
});

static Reg s7("stext", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    std::string t = op["text"];
    if (h->c) PIOL_Set_text(h->c, t.c_str());
    else h->s->text(t);
    return {{"ok", 1}};
});

// {"o","vm","bin","n","half": angle increment in half degrees}
static Reg s13("sangle", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    int half = op["half"];
    if (half == 2 && op.value("dflt", 0)) h->get()->toAngle(c.path(op["vm"]), op["bin"].get<size_t>(), op["n"].get<size_t>());
    else h->get()->toAngle(c.path(op["vm"]), op["bin"].get<size_t>(), op["n"].get<size_t>(), half * std::acos(-1.) / 360);
    return {{"ok", 1}};
});

// the model traces of gathers: {"vm","from","list", a: {"off","n"} or {"offs"}}
struct ModelByList : ReadModel {
    using ReadModel::ReadModel;
    std::vector<float> at(size_t n, const size_t* o, const exseis::utils::Distributed_vector<Gather_info>& g)
    {
        return std::dynamic_pointer_cast<Model3dInterface>(file)->readModel(n, o, g);
    }
};
static Reg s14("rmodel", [](Ctx& c, const json& op, const json& a) -> json {
    json rows = json::array();
    size_t G  = 0;
    {
        auto in = makeFile<ReadSEGY>(c.piol, c.path(op["from"]));
        auto g = getIlXlGathers(c.piol.get(), in.get());
        G      = g.size();
        std::vector<float> v;
        size_t n;
        ModelByList m(c.piol, c.path(op["vm"]));
        size_t ns = m.readNs();
        if (op["list"].get<int>()) {
            std::vector<size_t> offs = a["offs"];
            n = offs.size();
            v = m.at(n, offs.data(), g);
        }
        else {
            n = a["n"];
            v = m.readModel(a["off"].get<size_t>(), n, g);
        }
        if (v.size() == n * ns)
            for (size_t i = 0; i < n; i++) rows.push_back(floatsOut(v.data() + i * ns, ns));
        sync(c.comm);
    }
    sync(c.comm);
    return {{"rows", rows}, {"G", G}};
});

// the chain applied to one trace at a time, without any set
static Reg s8("simg", [](Ctx& c, const json& op, const json&) -> json {
    json img = json::object();
    if (c.rank == 0)
        for (auto& n : op["files"]) {
            json f = segyCat(c.path(n), false, true), out = json::array();
            for (auto& t : f["trc"]) {
                size_t ns = t.size();
                std::vector<float> v(ns + 1);
                for (size_t k = 0; k < ns; k++) v[k] = fbits(t[k].get<int32_t>());
                for (auto& o : op["chain"]) chainOp(o, ns, v.data());
                out.push_back(floatsOut(v.data(), ns));
            }
            img[n.get<std::string>()] = out;
        }
    sync(c.comm);
    return {{"img", img}};
});

// {"o","name","memlim"}
static Reg s9("sout", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    std::string d = c.dir + "/out";
    if (c.rank == 0)
        for (auto& n : listDir(d)) unlink((d + "/" + n).c_str());
    if (op.value("memlim", 0)) setenv("EXSEISDAT_VERIF_MEMLIM", std::to_string(op["memlim"].get<long>()).c_str(), 1);
    else unsetenv("EXSEISDAT_VERIF_MEMLIM");
    sync(c.comm);
    std::string o = d + "/" + op["name"].get<std::string>();
    json names = json::array();
    Within w(c, op);
    if (h->c) PIOL_Set_output(h->c, o.c_str());
    else
        for (auto& n : h->s->output(o)) names.push_back(n.substr(0, d.size() + 1) == d + "/" ? n.substr(d.size() + 1) : n);
    int has = h->c ? 0 : 1;
    sync(c.comm);
    unsetenv("EXSEISDAT_VERIF_MEMLIM");
    json j = {{"names", names}, {"hasnames", has}};
    j["files"] = c.rank == 0 ? dump(d) : json::array();
    sync(c.comm);
    return j;
});

// destruction; the files there afterwards
static Reg s10("sclose", [](Ctx& c, const json& op, const json&) -> json {
    std::string d = c.dir + "/out";
    if (op.value("memlim", 0)) setenv("EXSEISDAT_VERIF_MEMLIM", std::to_string(op["memlim"].get<long>()).c_str(), 1);
    sync(c.comm);
    Within w(c, op);
    c.drop(op["o"]);
    sync(c.comm);
    unsetenv("EXSEISDAT_VERIF_MEMLIM");
    json j;
    j["files"] = c.rank == 0 ? dump(d) : json::array();
    sync(c.comm);
    return j;
});

// {"o","m1","m2"}
static Reg s11("smm", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    CoordElem e[4];
    if (h->c) PIOL_Set_getMinMax(h->c, PIOL_Meta(op["m1"].get<int>()), PIOL_Meta(op["m2"].get<int>()), e);
    else h->s->getMinMax(Meta(op["m1"].get<int>()), Meta(op["m2"].get<int>()), e);
    json a = json::array();
    for (auto& x : e) {
        double d = x.val * 10000.0;
        a.push_back({{"v", std::fabs(d) < 2e9 && std::fabs(d - std::round(d)) < 1e-3 ? long(std::lround(d)) : 2000000001L},
                     {"n", x.num > 1000000000 ? -1L : long(x.num)}});
    }
    sync(c.comm);
    return {{"e", a}};
});

// what a summary prints, without the place of the files
static Reg s12("ssum", [](Ctx& c, const json& op, const json&) -> json {
    auto h = c.get<SetH>(op["o"]);
    std::ostringstream cap;
    auto old = std::cerr.rdbuf(cap.rdbuf());
    if (h->c) PIOL_Set_summary(h->c);
    else h->s->summary();
    std::cerr.rdbuf(old);
    std::string t = cap.str();
    for (size_t k; (k = t.find(c.dir)) != std::string::npos;) t.erase(k, c.dir.size());
    sync(c.comm);
    return {{"t", t}};
});
