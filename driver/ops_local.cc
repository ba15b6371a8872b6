// C08, C09, C18-C22: encodings, rules and parameters, signal functions, log.
#include "segy.hh"
#include "vp.hh"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <iostream>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

#include "ExSeisDat/PIOL/Logger.hh"
#include "ExSeisDat/PIOL/SEGYRuleEntry.hh"
#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include "ExSeisDat/utils/encoding/character_encoding.hh"
#include "ExSeisDat/utils/encoding/number_encoding.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/Gain_function.h"
#include "ExSeisDat/utils/signal_processing/Taper_function.h"
#include "ExSeisDat/utils/signal_processing/taper.h"

using namespace vp;
using namespace exseis::PIOL;
namespace U = exseis::utils;

// ---- C21: numbers ------------------------------------------------------------
template<class A> static json bytesOf(const A& a)
{
    json j = json::array();
    for (auto b : a) j.push_back(int(b));
    return j;
}
static uint32_t fbits(float f)
{
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
}
static float fof(uint32_t u)
{
    float f;
    memcpy(&f, &u, 4);
    return f;
}

static Reg e1("enc", [](Ctx&, const json& op, const json&) -> json {
    std::string k = op["k"];
    json out      = json::array();
    for (auto& x : op["x"]) {
        json o;
        if (k == "i16") {
            int16_t v = int16_t(x.get<int>());
            auto b    = U::to_big_endian<int16_t>(v);
            auto b2   = U::to_big_endian<uint16_t>(uint16_t(v));
            o["b"]    = bytesOf(b);
            o["same"] = b == b2 && U::from_big_endian<int16_t>(b) == v
                        && U::from_big_endian<int16_t>(b[0], b[1]) == v && U::from_big_endian<uint16_t>(b) == uint16_t(v);
            o["back"] = int(U::from_big_endian<int16_t>(b));
        }
        else if (k == "i32") {
            int32_t v = int32_t(x.get<int64_t>());
            auto b    = U::to_big_endian<int32_t>(v);
            auto b2   = U::to_big_endian<uint32_t>(uint32_t(v));
            o["b"]    = bytesOf(b);
            o["same"] = b == b2 && U::from_big_endian<int32_t>(b[0], b[1], b[2], b[3]) == v
                        && U::from_big_endian<uint32_t>(b) == uint32_t(v);
            o["back"] = U::from_big_endian<int32_t>(b);
        }
        else if (k == "i64") {
            uint64_t v = unwords(x);
            auto b     = U::to_big_endian<uint64_t>(v);
            o["b"]     = bytesOf(b);
            o["same"]  = b == U::to_big_endian<int64_t>(int64_t(v));
            o["back"]  = 0;
        }
        else if (k == "float") {
            uint32_t u = uint32_t(x.get<int64_t>());
            auto b     = U::to_big_endian<float>(fof(u));
            o["b"]     = bytesOf(b);
            o["same"]  = fbits(U::from_big_endian<float>(b[0], b[1], b[2], b[3])) == fbits(U::from_big_endian<float>(b));
            o["back"]  = sw(fbits(U::from_big_endian<float>(b)));
        }
        else if (k == "ibm") {
            uint32_t u = uint32_t(x.get<int64_t>());
            std::array<unsigned char, 4> be{{(unsigned char)(u >> 24), (unsigned char)(u >> 16), (unsigned char)(u >> 8),
                                             (unsigned char)u}};
            std::array<unsigned char, 4> le{{be[3], be[2], be[1], be[0]}};
            float f   = U::from_IBM_to_float(be, true);
            o["b"]    = json::array();
            o["same"] = fbits(f) == fbits(U::from_IBM_to_float(le, false));
            o["back"] = sw(fbits(f));
        }
        o["same"] = o["same"].get<bool>() ? 1 : 0;
        out.push_back(o);
    }
    return {{"out", out}};
});

// ---- C20: characters -----------------------------------------------------------
static Reg e2("chr", [](Ctx&, const json&, const json&) -> json {
    json a = json::array(), e = json::array(), pa = json::array(), pe = json::array();
    for (int k = 0; k < 256; k++) {
        a.push_back(int(U::to_ASCII_from_EBCDIC((unsigned char)k)));
        e.push_back(int(U::to_EBCDIC_from_ASCII((unsigned char)k)));
        pa.push_back(U::is_printable_ASCII((unsigned char)k) ? 1 : 0);
        pe.push_back(U::is_printable_EBCDIC((unsigned char)k) ? 1 : 0);
    }
    return {{"a", a}, {"e", e}, {"pa", pa}, {"pe", pe}};
});

// the text of an open file, character by character (run-length: [code, count])
static Reg e3("rtext", [](Ctx& c, const json& op, const json&) -> json {
    auto w = c.get<Reader>(op["o"]);
    std::string t;
    size_t len;
    if (w->c) {
        const char* p = PIOL_File_ReadDirect_readText(w->c);
        t   = p;
        len = t.size();
    }
    else {
        t   = w->d ? w->d->readText() : w->f->readText();
        len = t.size();
    }
    json rl = json::array();
    for (size_t k = 0; k < t.size();) {
        size_t q = k;
        while (q < t.size() && t[q] == t[k]) q++;
        rl.push_back({int((unsigned char)t[k]), int(q - k)});
        k = q;
    }
    sync(c.comm);
    return {{"len", len}, {"rl", rl}};
});

// ---- C22: the log ----------------------------------------------------------------
struct CerrCapture {
    std::ostringstream s;
    std::streambuf* old;
    CerrCapture() { old = std::cerr.rdbuf(s.rdbuf()); }
    ~CerrCapture() { std::cerr.rdbuf(old); }
};
static json logList(const Logger& l)
{
    // entries by record number (the message carries it)
    json j = json::array();
    for (auto& i : l.loglist())
        j.push_back({i.file, int(i.layer), int(i.stat), i.msg, int(i.vrbsy)});
    return j;
}
static json logState(Logger* l)
{
    json n = json::array();
    for (int s = 0; s < 5; s++) n.push_back(l->numStat(Logger::Status(s)));
    return {{"list", logList(*l)}, {"num", n}, {"iserr", l->isErr() ? 1 : 0}};
}
static Logger* theLog(Ctx& c, const json& op)
{
    if (op["o"] == "piol") return c.piol->log.get();
    return c.get<Logger>(op["o"]);
}
static Reg l1("lognew", [](Ctx& c, const json& op, const json&) -> json {
    auto l = op["max"].get<int>() == 0 && op.value("def", 0) ? std::make_shared<Logger>() :
                                                             std::make_shared<Logger>(Verbosity(op["max"].get<int>()));
    c.put(op["o"], l);
    return logState(l.get());
});
static Reg l2("logrec", [](Ctx& c, const json& op, const json&) -> json {
    auto l = theLog(c, op);
    if (op.count("cond"))
        l->record(op["file"], Logger::Layer(op["layer"].get<int>()), Logger::Status(op["stat"].get<int>()), op["msg"],
                  Verbosity(op["verb"].get<int>()), op["cond"].get<int>() != 0);
    else
        l->record(op["file"], Logger::Layer(op["layer"].get<int>()), Logger::Status(op["stat"].get<int>()), op["msg"],
                  Verbosity(op["verb"].get<int>()));
    return logState(l);
});
static json lines(const std::string& s)
{
    json j = json::array();
    std::istringstream is(s);
    std::string ln;
    while (std::getline(is, ln)) {
        json t = json::array();
        std::istringstream ls(ln);
        std::string w;
        while (ls >> w) t.push_back(w);
        j.push_back(t);
    }
    return j;
}
static Reg l3("logproc", [](Ctx& c, const json& op, const json&) -> json {
    auto l = theLog(c, op);
    json o;
    {
        CerrCapture cap;
        l->procLog();
        o = lines(cap.s.str());
    }
    json v   = logState(l);
    v["out"] = o;
    return v;
});
static Reg l4("logdel", [](Ctx& c, const json& op, const json&) -> json {
    CerrCapture cap;
    c.drop(op["o"]);
    for (auto& n : c.order)
        if (n == op["o"].get<std::string>()) n = "";
    return {{"out", lines(cap.s.str())}};
});
// does the library's error check end the process? tried in a child
static Reg l5("logcheck", [](Ctx& c, const json& op, const json&) -> json {
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        alarm(20);
        freopen("/dev/null", "w", stderr);
        std::string api = op.value("api", "cc");
        if (api == "c") {
            auto h = new std::shared_ptr<ExSeis>(c.piol);
            PIOL_ExSeis_isErr((PIOL_ExSeis*)h, op.count("msg") ? op["msg"].get<std::string>().c_str() : nullptr);
        }
        else
            c.piol->isErr(op.value("msg", std::string()));
        _exit(77);
    }
    int st = 0;
    waitpid(p, &st, 0);
    json v;
    v["exit"] = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    return v;
});

// ---- C18: gain control --------------------------------------------------------------
static json agcCalls;
static float userGain(const float* s, size_t n, float target, size_t centre)
{
    json w = json::array();
    long h = 3;
    if (n < 100000)
        for (size_t k = 0; k < n; k++) {
            w.push_back(long(s[k]));
            h = (h * 31 + long(s[k]) + 1000) % 10007;
        }
    h = (h * 31 + long(centre)) % 10007;
    float g = 1 + h % 13;
    agcCalls.push_back({w, int(n), long(target), int(centre), long(g)});
    return g;
}
static Reg s1("agc", [](Ctx&, const json& op, const json&) -> json {
    std::vector<float> s = op["sig"].get<std::vector<float>>();
    auto s0              = s;
    size_t n             = s.size();
    const float G        = 54321.5f;
    std::vector<float> b(n + 8, G);
    std::copy(s.begin(), s.end(), b.begin() + 4);
    std::string f = op["f"];
    bool capi     = op.value("api", "cc") == "c";
    U::Gain_function g =
      f == "user" ? userGain :
      f == "rms"  ? (capi ? U::exseis_rectangular_RMS_gain : U::rectangular_RMS_gain) :
      f == "tri"  ? (capi ? U::exseis_triangular_RMS_gain : U::triangular_RMS_gain) :
      f == "mean" ? (capi ? U::exseis_mean_abs_gain : U::mean_abs_gain) :
                   (capi ? U::exseis_median_gain : U::median_gain);
    agcCalls = json::array();
    float t  = op["target"];
    if (capi) U::exseis_AGC(n, b.data() + 4, g, op["win"].get<size_t>(), t);
    else U::AGC(n, b.data() + 4, g, op["win"].get<size_t>(), t);
    json out = json::array();
    int guard = 1;
    for (int k = 0; k < 4; k++) guard &= b[k] == G && b[n + 4 + k] == G;
    for (size_t k = 0; k < n; k++) {
        float o = b[4 + k];
        if (f == "user") out.push_back(std::isfinite(o) ? std::lround(o) : 999999999L);
        else if (!std::isfinite(o)) out.push_back(-999999L);
        else if (s0[k] == 0) out.push_back(o == 0 ? 0L : -999998L);
        else if (o == 0) out.push_back(-999997L);
        else out.push_back(std::lround(100.0 * t * s0[k] / o));
    }
    json v = {{"out", out}, {"guard", guard}};
    if (f == "user") v["calls"] = agcCalls;
    return v;
});

// ---- C19: tapering -------------------------------------------------------------------
static float userTaper(float w, float ramp) { return 21 * ramp + w; }
static Reg s2("taper", [](Ctx&, const json& op, const json&) -> json {
    std::vector<float> s = op["sig"].get<std::vector<float>>();
    size_t n             = s.size();
    // of very different sizes, exactly
    std::vector<int> ex(n, 0);
    if (op.count("ex")) ex = op["ex"].get<std::vector<int>>();
    for (size_t k = 0; k < n; k++) s[k] = std::ldexp(s[k], ex[k]);
    // what surrounds the signal; zeros there must not be taken for muted samples
    const float G        = op.value("around", 0) ? 54321.5f : 0.f;
    std::vector<float> b(n + 8, G);
    std::copy(s.begin(), s.end(), b.begin() + 4);
    if (G == 0.f) b[n + 5] = 77.f;
    bool capi = op.value("api", "cc") == "c";
    if (capi) U::exseis_taper(n, b.data() + 4, userTaper, op["l"].get<size_t>(), op["r"].get<size_t>());
    else U::taper(n, b.data() + 4, userTaper, op["l"].get<size_t>(), op["r"].get<size_t>());
    json out = json::array();
    int guard = 1;
    for (int k = 0; k < 4; k++) guard &= b[k] == G && b[n + 4 + k] == (G == 0.f && k == 1 ? 77.f : G);
    for (size_t k = 0; k < n; k++) {
        double v = std::ldexp(double(b[4 + k]), -ex[k]);
        out.push_back(std::fabs(v) < 1e9 && v == std::round(v) ? std::lround(v) : 999999999L);
    }
    return {{"out", out}, {"guard", guard}};
});
// the built-in ramps, in 1/100000
static Reg s3("ramp", [](Ctx&, const json& op, const json&) -> json {
    std::string f = op["f"];
    bool capi     = op.value("api", "cc") == "c";
    U::Taper_function g = f == "lin" ? (capi ? U::exseis_linear_taper : U::linear_taper) :
                          f == "cos" ? (capi ? U::exseis_cosine_taper : U::cosine_taper) :
                                      (capi ? U::exseis_cosine_square_taper : U::cosine_square_taper);
    int R    = op["ramp"];
    json out = json::array();
    for (int j = 1; j <= R; j++) {
        float x = g(float(j), float(R));
        out.push_back(std::isfinite(x) ? std::lround(1e5 * x) : 999999999L);
    }
    return {{"out", out}};
});

// ---- C28: filters ------------------------------------------------------------------------
static long mil(double x) { return std::isfinite(x) && std::fabs(x) < 1000 ? std::lround(1e6 * x) : 1000000001L; }
// a corner of d degrees: half the sampling rate is 90
static float corner(const json& d, float fs) { return float(d.get<double>() / 180.0 * fs); }
static float rate(const json& op)
{
    double f = op["fs"].get<double>();
    return f == 0 ? float(2 * std::acos(-1.0)) : float(f);
}
static Reg f1("mkfilt", [](Ctx&, const json& op, const json&) -> json {
    float fs = rate(op);
    int N = op["N"], n = N * (op["d2"] == 0 ? 1 : 2);
    const float G = 54321.5f;
    std::vector<float> b(n + 3, G), a(n + 3, G);
    makeFilter(FltrType(op["type"].get<int>()), b.data() + 1, a.data() + 1, N, fs, corner(op["d1"], fs), corner(op["d2"], fs));
    json jb = json::array(), ja = json::array();
    for (int k = 1; k <= n + 1; k++) {
        jb.push_back(mil(b[k]));
        ja.push_back(mil(a[k]));
    }
    return {{"b", jb}, {"a", ja}, {"guard", int(b[0] == G && a[0] == G && b[n + 2] == G && a[n + 2] == G)}};
});
static Reg f2("filt", [](Ctx&, const json& op, const json&) -> json {
    float fs  = rate(op);
    size_t nt = op["xs"].size(), ns = op["ns"], w0 = op["w0"], wl = op["wl"];
    int ex    = op["ex"];
    double sg = op["neg"] == 1 ? -1 : 1;
    const float G = 54321.5f;
    std::vector<float> t(nt * ns + 16, G);
    for (size_t k = 0; k < nt; k++)
        for (size_t j = 0; j < ns; j++) t[8 + k * ns + j] = float(std::ldexp(sg * op["xs"][k][j].get<double>(), ex));
    auto t0 = t;
    std::vector<float> c;
    for (auto& d : op["cs"]) c.push_back(corner(d, fs));
    auto type = FltrType(op["type"].get<int>());
    auto dmn  = FltrDmn(op["dmn"].get<int>());
    auto pad  = PadType(op["pad"].get<int>());
    if (op["N"] == 0) temporalFilter(nt, ns, t.data() + 8, fs, type, dmn, pad, op["nw"], op["wc"], c);
    else temporalFilter(nt, ns, t.data() + 8, fs, type, dmn, pad, op["nw"], op["wc"], c, op["N"].get<size_t>());
    json ys = json::array(), bits = json::array(), sums = json::array();
    int same = 1;
    for (size_t k = 0; k < 8; k++) same &= t[k] == G && t[8 + nt * ns + k] == G;
    for (size_t k = 0; k < nt; k++) {
        json y    = json::array();
        std::string h;
        double sum = 0;
        for (size_t j = 0; j < ns; j++) {
            size_t p = 8 + k * ns + j;
            if (j < w0 || j >= w0 + wl) {
                same &= memcmp(&t[p], &t0[p], 4) == 0;
                continue;
            }
            double v = std::ldexp(sg * double(t[p]), -ex);
            sum += v;
            y.push_back(mil(v));
            h += std::to_string(fbits(v == 0 ? 0.f : float(v))) + " ";
        }
        ys.push_back(y);
        bits.push_back(h);
        sums.push_back(mil(sum));
    }
    return {{"y", ys}, {"bits", bits}, {"sum", sums}, {"same", same}};
});
// the gain on a cosine of i periods per trace
static Reg f3("fgain", [](Ctx&, const json& op, const json&) -> json {
    float fs = rate(op);
    size_t n = op["n"];
    std::vector<float> t(n);
    double in = 0, out = 0;
    for (size_t j = 0; j < n; j++) {
        t[j] = float(8 * std::cos(2 * std::acos(-1.0) * double(op["i"].get<int>() * j + op["ph"].get<int>()) / double(n)));
        in += double(t[j]) * t[j];
    }
    std::vector<float> c = {corner(op["d1"], fs), corner(op["d2"], fs)};
    temporalFilter(1, n, t.data(), fs, FltrType(op["type"].get<int>()), FltrDmn::Freq, PadType(op["pad"].get<int>()), 0, 0, c,
                   op["N"].get<size_t>());
    for (float x : t) out += double(x) * x;
    return {{"g", mil(std::sqrt(out / in))}};
});

// ---- C09: rules ----------------------------------------------------------------------
struct RuleBox {
    std::shared_ptr<Rule> r;
    ~RuleBox() {}
};
static int typeCode(RuleEntry* e)
{
    switch (e->type()) {
        case RuleEntry::MdType::Float: return 1;
        case RuleEntry::MdType::Long: return 2;
        case RuleEntry::MdType::Short: return 3;
        case RuleEntry::MdType::Index: return 4;
        default: return 0;
    }
}
static json ruleState(std::shared_ptr<Rule>& rp, int ret, bool capi)
{
    Rule* r = rp.get();
    auto h  = (PIOL_File_Rule*)&rp;
    json e = json::array();
    std::map<int, RuleEntry*> m;
    for (auto& t : r->translate)
        if (t.second) m[int(t.first)] = t.second;
        else e.push_back({int(t.first), -1, 0, 0});
    for (auto& t : m) e.push_back({t.first, typeCode(t.second), int(t.second->num), int(t.second->loc)});
    return {{"ent", e}, {"cnt", {r->numFloat, r->numLong, r->numShort, r->numIndex, r->numCopy}},
            {"pmem", capi ? PIOL_File_Rule_paramMem(h) : r->paramMem()},
            {"ext", capi ? PIOL_File_Rule_extent(h) : r->extent()},
            {"mem", capi ? PIOL_File_Rule_memUsage(h) : r->memUsage()}, {"ret", ret}};
}
static Rule* theRule(Ctx& c, const json& op) { return c.get<RuleBox>(op["o"])->r.get(); }
static Reg u1("rnew", [](Ctx& c, const json& op, const json&) -> json {
    auto b = std::make_shared<RuleBox>();
    std::vector<Meta> m;
    for (auto& x : op["metas"]) m.push_back(Meta(x.get<int>()));
    if (op.value("api", "cc") == "c") {
        PIOL_File_Rule* h;
        if (op["list"].get<int>()) h = PIOL_File_Rule_new_from_list((const PIOL_Meta*)m.data(), m.size());
        else h = PIOL_File_Rule_new(op["defaults"].get<int>() != 0);
        b->r = *h;
        PIOL_File_Rule_delete(h);
    }
    else if (op["list"].get<int>())
        b->r = std::make_shared<Rule>(m, op["full"].get<int>() != 0, op["defaults"].get<int>() != 0,
                                      op["extras"].get<int>() != 0);
    else
        b->r = std::make_shared<Rule>(op["full"].get<int>() != 0, op["defaults"].get<int>() != 0,
                                      op["extras"].get<int>() != 0);
    c.put(op["o"], b);
    return ruleState(b->r, 1, op.value("api", "cc") == "c");
});
static Reg u2("rop", [](Ctx& c, const json& op, const json&) -> json {
    Rule* r       = theRule(c, op);
    std::string k = op["k"];
    int ret       = 1;
    Meta m        = Meta(op.value("m", 0));
    Tr loc        = Tr(op.value("loc", 1));
    if (op.value("api", "cc") == "c") {
        auto h = (PIOL_File_Rule*)&c.get<RuleBox>(op["o"])->r;
        auto cm = PIOL_Meta(m);
        if (k == "add") ret = PIOL_File_Rule_addRule_Meta(h, cm);
        else if (k == "merge") ret = PIOL_File_Rule_addRule_Rule(h, (PIOL_File_Rule*)&c.get<RuleBox>(op["from"])->r);
        else if (k == "long") PIOL_File_Rule_addLong(h, cm, PIOL_Tr(loc));
        else if (k == "short") PIOL_File_Rule_addShort(h, cm, PIOL_Tr(loc));
        else if (k == "float") PIOL_File_Rule_addSEGYFloat(h, cm, PIOL_Tr(loc), PIOL_Tr(op["scal"].get<int>()));
        else if (k == "index") PIOL_File_Rule_addIndex(h, cm);
        else if (k == "copy") PIOL_File_Rule_addCopy(h);
        else if (k == "rm") PIOL_File_Rule_rmRule(h, cm);
    }
    else if (k == "add") ret = r->addRule(m);
    else if (k == "merge") ret = r->addRule(*c.get<RuleBox>(op["from"])->r);
    else if (k == "long") r->addLong(m, loc);
    else if (k == "short") r->addShort(m, loc);
    else if (k == "float") r->addSEGYFloat(m, loc, Tr(op["scal"].get<int>()));
    else if (k == "index") r->addIndex(m);
    else if (k == "copy") r->addCopy();
    else if (k == "rm") r->rmRule(m);
    return ruleState(c.get<RuleBox>(op["o"])->r, ret, op.value("api", "cc") == "c");
});
// ---- parameters
struct ParamBox {
    Param* p = nullptr;
    ~ParamBox() { PIOL_File_Param_delete(p); }
};
static json wordsSparse(const unsigned char* c)
{
    json j = json::array();
    for (int w = 0; w < 120; w++) {
        int v = int16_t(c[2 * w] << 8 | c[2 * w + 1]);
        if (v) j.push_back({w, v});
    }
    return j;
}
static json paramState(Param* p, bool capi)
{
    // every quantity of every trace, by increasing quantity number
    std::map<int, RuleEntry*> m;
    for (auto& t : p->r->translate)
        if (t.second) m[int(t.first)] = t.second;
    json rows = json::array();
    for (size_t k = 0; k < p->size(); k++) {
        json row = json::array();
        for (auto& t : m) {
            Meta q = Meta(t.first);
            switch (typeCode(t.second)) {
                case 1: {
                    double d = (capi ? PIOL_File_getPrm_double(k, PIOL_Meta(q), p) : param_utils::getPrm<double>(k, q, p))
                               * 10000.0;
                    double r = std::round(d);
                    if (!(std::fabs(d - r) < 1e-3) || std::fabs(r) > 2147483647.0) r = 2000000001;
                    row.push_back({t.first, long(r)});
                    break;
                }
                case 2:
                    row.push_back({t.first, long(capi ? PIOL_File_getPrm_Integer(k, PIOL_Meta(q), p) :
                                                       param_utils::getPrm<U::Integer>(k, q, p))});
                    break;
                case 3:
                    row.push_back({t.first, int(capi ? PIOL_File_getPrm_short(k, PIOL_Meta(q), p) :
                                                      param_utils::getPrm<int16_t>(k, q, p))});
                    break;
                case 4: row.push_back({t.first, param_utils::getPrm<size_t>(k, q, p)}); break;
                default: row.push_back({t.first, wordsSparse(&p->c[k * 240])});
            }
        }
        rows.push_back(row);
    }
    return {{"rows", rows}, {"sz", capi ? PIOL_File_Param_size(p) : p->size()},
            {"mem", capi ? PIOL_File_Param_memUsage(p) : p->memUsage()}};
}
static Reg q1("pnew", [](Ctx& c, const json& op, const json&) -> json {
    auto b   = std::make_shared<ParamBox>();
    bool capi = op.value("api", "cc") == "c";
    // a private copy of the rule's selection, so that later changes to the rule do not matter
    if (op.count("rule")) {
        auto& r = c.get<RuleBox>(op["rule"])->r;
        b->p    = capi ? PIOL_File_Param_new((PIOL_File_Rule*)&r, op["n"].get<size_t>()) : new Param(r, op["n"].get<size_t>());
    }
    else
        b->p = capi ? PIOL_File_Param_new(nullptr, op["n"].get<size_t>()) : new Param(op["n"].get<size_t>());
    c.put(op["o"], b);
    return paramState(b->p, capi);
});
static Reg q2("pset", [](Ctx& c, const json& op, const json&) -> json {
    Param* p  = c.get<ParamBox>(op["o"])->p;
    bool capi = op.value("api", "cc") == "c";
    size_t k  = op["k"];
    Meta m    = Meta(op["m"].get<int>());
    int t     = op["t"];
    if (t == 1) {
        double d = op["x"].get<double>() / 10000.0;
        if (capi) PIOL_File_setPrm_double(k, PIOL_Meta(m), d, p);
        else param_utils::setPrm(k, m, d, p);
    }
    else if (t == 2) {
        if (capi) PIOL_File_setPrm_Integer(k, PIOL_Meta(m), op["x"].get<long>(), p);
        else param_utils::setPrm(k, m, U::Integer(op["x"].get<long>()), p);
    }
    else if (t == 3) {
        if (capi) PIOL_File_setPrm_short(k, PIOL_Meta(m), op["x"].get<int>(), p);
        else param_utils::setPrm(k, m, int16_t(op["x"].get<int>()), p);
    }
    else if (t == 4)
        param_utils::setPrm(k, m, op["x"].get<size_t>(), p);
    else {
        unsigned char* h = &p->c[k * 240];
        memset(h, 0, 240);
        for (auto& pr : op["x"]) {
            int w = pr[0], v = pr[1];
            h[2 * w]     = (unsigned char)((v >> 8) & 0xff);
            h[2 * w + 1] = (unsigned char)(v & 0xff);
        }
    }
    return paramState(p, capi);
});
static Reg q3("pcpy", [](Ctx& c, const json& op, const json&) -> json {
    Param* s  = c.get<ParamBox>(op["src"])->p;
    Param* d  = c.get<ParamBox>(op["o"])->p;
    bool capi = op.value("api", "cc") == "c";
    if (capi) PIOL_File_cpyPrm(op["j"].get<size_t>(), s, op["k"].get<size_t>(), d);
    else param_utils::cpyPrm(op["j"].get<size_t>(), s, op["k"].get<size_t>(), d);
    json v   = paramState(d, capi);
    v["src"] = paramState(s, capi)["rows"];
    return v;
});

// ---- C08: header values through a file -------------------------------------------------
// values as {"n":negative,"d":[base 10000 digits of the magnitude in 1e-8, low first]}
static double fromDigits(const json& x)
{
    long double v = 0;
    for (size_t k = x["d"].size(); k-- > 0;) v = v * 10000.0L + x["d"][k].get<int>();
    v /= 100000000.0L;
    return double(x["n"].get<int>() ? -v : v);
}
static json toDigits(double v)
{
    // to the nearest 1e-4; flagged if it is no such number
    long double a = fabsl((long double)v) * 10000.0L;
    long double r = roundl(a);
    json d = json::array({0});
    int bad = !std::isfinite(v) || fabsl(a - r) > (a < 1e12L ? 1e-2L : a * 1e-15L) ? 1 : 0;
    if (std::isfinite(v)) {
        unsigned long long z = (unsigned long long)r;
        for (int k = 0; k < 6; k++) {
            d.push_back(int(z % 10000));
            z /= 10000;
        }
        if (z) bad = 1;
    }
    return {{"n", v < 0 ? 1 : 0}, {"d", d}, {"bad", bad}};
}
static Reg h1("hdrio", [](Ctx& c, const json& op, const json& a) -> json {
    const json& metas = op["rule"];
    size_t n          = a["rows"].size(), off = a["off"];
    size_t ns         = op["ns"];
    auto rule         = mkRule(metas);
    {
        WriteDirect w(c.piol, c.path(op["name"]));
        w.writeNs(ns);
        w.writeNt(op["nt"].get<size_t>());
        w.writeInc(0.004);
        w.writeText("C08 header values");
        Param p(rule, n);
        sentinel(&p);
        for (size_t k = 0; k < n; k++)
            for (size_t q = 0; q < metas.size(); q++) {
                int m           = metas[q];
                const json& x   = a["rows"][k][q];
                switch (metaKind(m)) {
                    case 'f': param_utils::setPrm(k, Meta(m), fromDigits(x), &p); break;
                    case 'i': param_utils::setPrm(k, Meta(m), U::Integer(x.get<long>()), &p); break;
                    case 's': param_utils::setPrm(k, Meta(m), int16_t(x.get<int>()), &p); break;
                }
            }
        std::vector<float> t(n * ns, 1.5f);
        if (ns) w.writeTrace(off, n, t.data(), &p);
        else w.writeParam(off, n, &p);
    }
    sync(c.comm);
    json v;
    {
        ReadDirect r(c.piol, c.path(op["name"]));
        Param p(mkRule(metas), n);
        sentinel(&p);
        r.readParam(off, n, &p);
        json rows = json::array();
        for (size_t k = 0; k < n; k++) {
            json row = json::array();
            for (size_t q = 0; q < metas.size(); q++) {
                int m = metas[q];
                switch (metaKind(m)) {
                    case 'f': row.push_back(toDigits(param_utils::getPrm<double>(k, Meta(m), &p))); break;
                    case 'i': row.push_back(long(param_utils::getPrm<U::Integer>(k, Meta(m), &p))); break;
                    case 's': row.push_back(int(param_utils::getPrm<int16_t>(k, Meta(m), &p))); break;
                }
            }
            rows.push_back(row);
        }
        v["rows"] = rows;
    }
    sync(c.comm);
    if (c.rank == 0) v["hdr"] = segyCat(c.path(op["name"]), true, false)["hdr"];
    sync(c.comm);
    return v;
});
