// C05-C08, C25: the SEG-Y file layer, through the C++ classes, the "Direct"
// facade and the C interface.
#include "vp.hh"
#include "segy.hh"
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>

namespace vp {

std::string textKey(const std::string& s0)
{
    std::string s = s0;
    while (!s.empty() && s.back() == '\0') s.pop_back();
    uint32_t h = 2166136261u;
    for (unsigned char c : s) h = (h ^ c) * 16777619u;
    char b[40];
    snprintf(b, sizeof b, "%zu:%08x", s.size(), h);
    return b;
}

// ---- rules and parameters --------------------------------------------------
char metaKind(int m)
{
    switch (m) {
        case PIOL_META_COPY: return 'c';
        case PIOL_META_ltn: case PIOL_META_gtn: return 't';
        case PIOL_META_WtrDepSrc: case PIOL_META_WtrDepRcv: case PIOL_META_xSrc: case PIOL_META_ySrc:
        case PIOL_META_xRcv: case PIOL_META_yRcv: case PIOL_META_xCmp: case PIOL_META_yCmp:
        case PIOL_META_RGElev: case PIOL_META_SSElev: case PIOL_META_SDElev: case PIOL_META_ShotNum:
            return 'f';
        case PIOL_META_Tic: case PIOL_META_VStack: case PIOL_META_HStack: case PIOL_META_ns:
        case PIOL_META_inc: case PIOL_META_TraceUnit: case PIOL_META_TransUnit: return 's';
        default: return 'i';
    }
}

std::shared_ptr<Rule> mkRule(const json& metas)
{
    auto r = std::make_shared<Rule>(true, false, false);
    for (auto& m : metas) r->addRule(Meta(m.get<size_t>()));
    return r;
}

static const double FS = 123456.75;
static const long IS   = -777777;
static const int SS    = -7777;
static const size_t TS = 7777777;
static const unsigned char CS = 0xA5;

void sentinel(Param* p)
{
    for (auto& x : p->f) x = FS;
    for (auto& x : p->i) x = IS;
    for (auto& x : p->s) x = SS;
    for (auto& x : p->t) x = TS;
    for (auto& x : p->c) x = CS;
}

static bool rowUntouched(const Param* p, size_t k)
{
    auto& r = *p->r;
    for (size_t q = 0; q < r.numFloat; q++) if (p->f[k * r.numFloat + q] != FS) return false;
    for (size_t q = 0; q < r.numLong; q++) if (p->i[k * r.numLong + q] != IS) return false;
    for (size_t q = 0; q < r.numShort; q++) if (p->s[k * r.numShort + q] != SS) return false;
    for (size_t q = 0; q < r.numIndex; q++) if (p->t[k * r.numIndex + q] != TS) return false;
    if (r.numCopy)
        for (size_t q = 0; q < 240; q++) if (p->c[k * 240 + q] != CS) return false;
    return true;
}

void setRow(Param* p, size_t k, const json& metas, const json& row)
{
    for (size_t q = 0; q < metas.size(); q++) {
        int m = metas[q];
        switch (metaKind(m)) {
            case 'f': param_utils::setPrm(k, Meta(m), row[q].get<double>() / 10000.0, p); break;
            case 'i': param_utils::setPrm(k, Meta(m), exseis::utils::Integer(row[q].get<long>()), p); break;
            case 's': param_utils::setPrm(k, Meta(m), int16_t(row[q].get<int>()), p); break;
            case 't': param_utils::setPrm(k, Meta(m), size_t(row[q].get<size_t>()), p); break;
            case 'c': {
                unsigned char* c = &p->c[k * 240];
                memset(c, 0, 240);
                // row[q]: {"w": word number, value} pairs
                for (auto& pr : row[q]) {
                    int w = pr[0], v = pr[1];
                    c[2 * w]     = (unsigned char)((v >> 8) & 0xff);
                    c[2 * w + 1] = (unsigned char)(v & 0xff);
                }
                break;
            }
        }
    }
}

json hdrWords(const unsigned char* c)
{
    json j = json::array();
    for (int w = 0; w < 120; w++) j.push_back(int(int16_t(c[2 * w] << 8 | c[2 * w + 1])));
    return j;
}

json getRow(const Param* p, size_t k, const json& metas)
{
    json row = json::array();
    for (size_t q = 0; q < metas.size(); q++) {
        int m = metas[q];
        switch (metaKind(m)) {
            case 'f': {
                double d = param_utils::getPrm<double>(k, Meta(m), p) * 10000.0;
                double r = std::round(d);
                if (!(std::fabs(d - r) < 1e-3) || std::fabs(r) > 2147483647.0) {
                    r = 2000000001;  // not a multiple of 1/10000
                }
                row.push_back(long(r));
                break;
            }
            case 'i': row.push_back(long(param_utils::getPrm<exseis::utils::Integer>(k, Meta(m), p))); break;
            case 's': row.push_back(int(param_utils::getPrm<int16_t>(k, Meta(m), p))); break;
            case 't': {
                size_t t = param_utils::getPrm<size_t>(k, Meta(m), p);
                row.push_back(t == TS ? -1L : long(t));
                break;
            }
            case 'c': row.push_back(hdrWords(&p->c[k * 240])); break;
        }
    }
    return row;
}

json floatsOut(const float* f, size_t n)
{
    json j = json::array();
    for (size_t k = 0; k < n; k++) {
        uint32_t u;
        memcpy(&u, &f[k], 4);
        j.push_back(sw(u));
    }
    return j;
}
void floatsIn(const json& j, float* f)
{
    for (size_t k = 0; k < j.size(); k++) {
        uint32_t u = uint32_t(j[k].get<int64_t>());
        memcpy(&f[k], &u, 4);
    }
}
}  // namespace vp
using namespace vp;

// A scenario speaks of a small file; with "far": [K, B] its traces from K on are
// B traces further away in the real one, so that the file is huge (and sparse).
struct Far {
    size_t K = ~size_t(0), B = 0;
    bool on = false;
    Far(const json& op)
    {
        if (!op.count("far")) return;
        on = true;
        K  = op["far"][0];
        B  = std::stoull(op["far"][1].get<std::string>());
    }
    size_t at(size_t t) const { return on && t >= K ? t + B : t; }
    size_t count(size_t n) const { return on && n > K ? n + B : n; }
    // the other way: -5 if it lies in between
    long back(size_t t) const { return !on || t < K ? long(t) : t < K + B ? -5 : long(t - B); }
    long uncount(size_t n) const { return !on || n <= K ? long(n) : n <= K + B ? -5 : long(n - B); }
};

// ---- writing ---------------------------------------------------------------
static Reg r1("wopen", [](Ctx& c, const json& op, const json&) -> json {
    auto w = std::make_shared<Writer>();
    std::string api = op.value("api", "cc");
    if (api == "c") {
        w->cpiol = std::make_shared<std::shared_ptr<ExSeis>>(c.piol);
        w->c = PIOL_File_WriteDirect_new((PIOL_ExSeis*)w->cpiol.get(), c.path(op["name"]).c_str());
        if (op.count("hdrop")) w->cpiol.reset();   // the file keeps what it needs
    }
    else if (api == "direct")
        w->d.reset(new WriteDirect(c.piol, c.path(op["name"])));
    else {
        DataMPIIO::Opt o;
        if (op.count("max")) o.maxSize = op["max"];
        if (op.count("coll")) o.coll = op["coll"].get<int>() != 0;
        if (op.count("fcomm")) o.fcomm = c.comm;
        auto data = std::make_shared<DataMPIIO>(c.piol, c.path(op["name"]), o, FileMode::Write);
        auto obj  = std::make_shared<ObjectSEGY>(c.piol, c.path(op["name"]), ObjectSEGY::Opt(), data, FileMode::Write);
        w->f = std::make_shared<WriteSEGY>(c.piol, c.path(op["name"]), WriteSEGY::Opt(), obj);
    }
    c.put(op["o"], w);
    sync(c.comm);
    return {{"ok", 1}};
});

static Reg r2("wtext", [](Ctx& c, const json& op, const json&) -> json {
    auto w = c.get<Writer>(op["o"]);
    std::string t = op["text"];
    if (op.count("rep")) {
        std::string u;
        for (int k = 0; k < op["rep"].get<int>(); k++) u += t;
        t = u;
    }
    if (w->c) PIOL_File_WriteDirect_writeText(w->c, t.c_str());
    else if (w->d) w->d->writeText(t);
    else w->f->writeText(t);
    return {{"ok", 1}};
});
static Reg r3("wns", [](Ctx& c, const json& op, const json&) -> json {
    auto w = c.get<Writer>(op["o"]);
    size_t n = op["n"];
    if (w->c) PIOL_File_WriteDirect_writeNs(w->c, n);
    else if (w->d) w->d->writeNs(n);
    else w->f->writeNs(n);
    return {{"ok", 1}};
});
static Reg r4("wnt", [](Ctx& c, const json& op, const json&) -> json {
    auto w = c.get<Writer>(op["o"]);
    size_t n = Far(op).count(op["n"]);
    if (w->c) PIOL_File_WriteDirect_writeNt(w->c, n);
    else if (w->d) w->d->writeNt(n);
    else w->f->writeNt(n);
    return {{"ok", 1}};
});
static Reg r5("winc", [](Ctx& c, const json& op, const json&) -> json {
    auto w = c.get<Writer>(op["o"]);
    double n = op["us"].get<double>() * 1e-6;
    if (w->c) PIOL_File_WriteDirect_writeInc(w->c, n);
    else if (w->d) w->d->writeInc(n);
    else w->f->writeInc(n);
    return {{"ok", 1}};
});

// {"o","kind":contig|list,"what":both|trc|prm,"rule":[..],"ns":, "a":[{"off","n"|"offs","trc":[..rows],"prm":[..rows],"skip"}]}
static Reg r6("wtr", [](Ctx& c, const json& op, const json& a) -> json {
    auto w = c.get<Writer>(op["o"]);
    std::string what = op["what"];
    bool lst = op["kind"] == "list";
    const Far far(op);
    std::vector<size_t> offs;
    size_t off = 0, n;
    if (lst) {
        offs = a["offs"].get<std::vector<size_t>>();
        n = offs.size();
        for (auto& o : offs) o = far.at(o);
    }
    else {
        off = far.at(a["off"]);
        n   = a["n"];
    }
    size_t ns = op["ns"], skip = (w->c || w->d) ? 0 : a.value("skip", 0u);
    std::vector<float> t(what == "prm" ? 0 : ns * n);
    if (what != "prm")
        for (size_t k = 0; k < n; k++) floatsIn(a["trc"][k], t.data() + k * ns);
    std::unique_ptr<Param> p;
    const json& metas = op.count("rule") ? op["rule"] : json();
    if (what != "trc") {
        p.reset(new Param(mkRule(metas), skip + n + 1));
        sentinel(p.get());
        for (size_t k = 0; k < n; k++) setRow(p.get(), skip + k, metas, a["prm"][k]);
    }
    auto t2 = t;
    std::unique_ptr<Param> p2(p ? new Param(*p) : nullptr);
    float dummy = 0;
    float* tp = t.data();
    if (n == 0 || ns == 0) tp = a.count("null") && !w->c ? nullptr : &dummy;
    size_t odummy = 0;
    const size_t* op_ = n ? offs.data() : &odummy;
    if (w->c) {
        if (what == "prm") {
            if (lst) PIOL_File_WriteDirect_writeParamNonContiguous(w->c, n, op_, p.get());
            else PIOL_File_WriteDirect_writeParam(w->c, off, n, p.get());
        }
        else if (lst) PIOL_File_WriteDirect_writeTraceNonContiguous(w->c, n, op_, tp, p.get());
        else PIOL_File_WriteDirect_writeTrace(w->c, off, n, tp, p.get());
    }
    else if (w->d) {
        if (what == "prm") {
            if (lst) w->d->writeParamNonContiguous(n, op_, p.get());
            else w->d->writeParam(off, n, p.get());
        }
        else if (lst) w->d->writeTraceNonContiguous(n, op_, tp, p ? p.get() : PIOL_PARAM_NULL);
        else w->d->writeTrace(off, n, tp, p ? p.get() : PIOL_PARAM_NULL);
    }
    else {
        if (what == "prm") {
            if (lst) w->f->writeParamNonContiguous(n, op_, p.get(), skip);
            else w->f->writeParam(off, n, p.get(), skip);
        }
        else if (lst) w->f->writeTraceNonContiguous(n, op_, tp, p ? p.get() : PIOL_PARAM_NULL, skip);
        else w->f->writeTrace(off, n, tp, p ? p.get() : PIOL_PARAM_NULL, skip);
    }
    int same = t.size() == t2.size() && (t.empty() || !memcmp(t.data(), t2.data(), 4 * t.size()));
    if (p) same &= p->f == p2->f && p->i == p2->i && p->s == p2->s && p->t == p2->t && p->c == p2->c;
    sync(c.comm);
    return {{"same", same}};
});

static Reg r7("wclose", [](Ctx& c, const json& op, const json&) -> json {
    c.drop(op["o"]);
    sync(c.comm);
    return {{"ok", 1}};
});

// ---- reading ---------------------------------------------------------------
static Reg r8("ropen", [](Ctx& c, const json& op, const json&) -> json {
    auto w = std::make_shared<Reader>();
    std::string api = op.value("api", "cc");
    size_t ns, nt;
    double inc;
    std::string text;
    if (api == "c") {
        w->cpiol = std::make_shared<std::shared_ptr<ExSeis>>(c.piol);
        w->c = PIOL_File_ReadDirect_new((PIOL_ExSeis*)w->cpiol.get(), c.path(op["name"]).c_str());
        if (op.count("hdrop")) w->cpiol.reset();
        ns = PIOL_File_ReadDirect_readNs(w->c);
        nt = PIOL_File_ReadDirect_readNt(w->c);
        inc = PIOL_File_ReadDirect_readInc(w->c);
        text = PIOL_File_ReadDirect_readText(w->c);
    }
    else if (api == "direct") {
        w->d.reset(new ReadDirect(c.piol, c.path(op["name"])));
        ns = w->d->readNs(); nt = w->d->readNt(); inc = w->d->readInc(); text = w->d->readText();
    }
    else {
        DataMPIIO::Opt o;
        if (op.count("max")) o.maxSize = op["max"];
        if (op.count("coll")) o.coll = op["coll"].get<int>() != 0;
        if (op.count("fcomm")) o.fcomm = c.comm;
        auto data = std::make_shared<DataMPIIO>(c.piol, c.path(op["name"]), o, FileMode::Read);
        auto obj  = std::make_shared<ObjectSEGY>(c.piol, c.path(op["name"]), ObjectSEGY::Opt(), data, FileMode::Read);
        w->f = std::make_shared<ReadSEGY>(c.piol, c.path(op["name"]), ReadSEGY::Opt(), obj);
        ns = w->f->readNs(); nt = w->f->readNt(); inc = w->f->readInc(); text = w->f->readText();
    }
    w->ns = ns;
    nt    = size_t(Far(op).uncount(nt));
    c.put(op["o"], w);
    sync(c.comm);
    return {{"ns", int(ns)}, {"nt", nt > 1000000000 ? -1 : long(nt)}, {"inc", std::lround(inc * 1e6)},
            {"text", textKey(text)}};
});

static Reg r9("rtr", [](Ctx& c, const json& op, const json& a) -> json {
    auto w = c.get<Reader>(op["o"]);
    std::string what = op["what"], kind = op["kind"];
    bool lst = kind != "contig";
    const Far far(op);
    std::vector<size_t> offs;
    size_t off = 0, n;
    if (lst) {
        offs = a["offs"].get<std::vector<size_t>>();
        n = offs.size();
        for (auto& o : offs) o = far.at(o);
    }
    else {
        off = far.at(a["off"]);
        n   = a["n"];
    }
    size_t ns = w->ns, skip = (w->c || w->d) ? 0 : a.value("skip", 0u);
    const size_t G = 8;
    uint32_t gw = 0x7fc0dead;
    std::vector<float> t(2 * G + (what == "prm" ? 0 : ns * n));
    for (auto& x : t) memcpy(&x, &gw, 4);
    std::unique_ptr<Param> p;
    const json& metas = op.count("rule") ? op["rule"] : json();
    if (what != "trc") {
        p.reset(new Param(mkRule(metas), skip + n + 2));
        sentinel(p.get());
    }
    float* tp = t.data() + G;
    if (n == 0 && a.count("null") && !w->c) tp = nullptr;
    size_t odummy = 0;
    const size_t* op_ = n ? offs.data() : &odummy;
    Param* pp = p ? p.get() : const_cast<Param*>(PIOL_PARAM_NULL);
    if (w->c) {
        if (what == "prm") {
            if (kind == "any") {
                // the C interface has no headers-only form of this call
                std::vector<float> scratch(ns * n + 1);
                PIOL_File_ReadDirect_readTraceNonMonotonic(w->c, n, op_, scratch.data(), p.get());
            }
            else if (lst) PIOL_File_ReadDirect_readParamNonContiguous(w->c, n, op_, p.get());
            else PIOL_File_ReadDirect_readParam(w->c, off, n, p.get());
        }
        else if (kind == "any") PIOL_File_ReadDirect_readTraceNonMonotonic(w->c, n, op_, tp, p.get());
        else if (lst) PIOL_File_ReadDirect_readTraceNonContiguous(w->c, n, op_, tp, p.get());
        else PIOL_File_ReadDirect_readTrace(w->c, off, n, tp, p.get());
    }
    else if (w->d) {
        if (what == "prm") {
            if (kind == "any")
                w->d->readTraceNonMonotonic(n, op_, const_cast<float*>(TRACE_NULL), pp);
            else if (lst) w->d->readParamNonContiguous(n, op_, pp);
            else w->d->readParam(off, n, pp);
        }
        else if (kind == "any") w->d->readTraceNonMonotonic(n, op_, tp, pp);
        else if (lst) w->d->readTraceNonContiguous(n, op_, tp, pp);
        else w->d->readTrace(off, n, tp, pp);
    }
    else {
        if (what == "prm") {
            if (kind == "any")
                w->f->readTraceNonMonotonic(n, op_, const_cast<float*>(TRACE_NULL), pp, skip);
            else if (lst) w->f->readParamNonContiguous(n, op_, pp, skip);
            else w->f->readParam(off, n, pp, skip);
        }
        else if (kind == "any") w->f->readTraceNonMonotonic(n, op_, tp, pp, skip);
        else if (lst) w->f->readTraceNonContiguous(n, op_, tp, pp, skip);
        else w->f->readTrace(off, n, tp, pp, skip);
    }
    int guard = 1;
    for (size_t k = 0; k < G; k++)
        if (memcmp(&t[k], &gw, 4) || memcmp(&t[t.size() - 1 - k], &gw, 4)) guard = 0;
    json jt = json::array(), jp = json::array();
    if (what != "prm")
        for (size_t k = 0; k < n; k++) {
            bool un = true;
            for (size_t q = 0; q < ns; q++) un &= !memcmp(&t[G + k * ns + q], &gw, 4);
            jt.push_back(un ? json::array() : floatsOut(&t[G + k * ns], ns));
        }
    if (p) {
        for (size_t k = 0; k < skip; k++) guard &= rowUntouched(p.get(), k);
        for (size_t k = skip + n; k < skip + n + 2; k++) guard &= rowUntouched(p.get(), k);
        for (size_t k = 0; k < n; k++)
            jp.push_back(rowUntouched(p.get(), skip + k) ? json::array() : getRow(p.get(), skip + k, metas));
        for (size_t q = 0; far.on && q < metas.size(); q++)
            if (metaKind(metas[q]) == 't')
                for (auto& row : jp)
                    if (!row.empty() && row[q].get<long>() >= 0) row[q] = far.back(row[q].get<long>());
    }
    sync(c.comm);
    return {{"trc", jt}, {"prm", jp}, {"guard", guard}};
});

static Reg r10("rclose", [](Ctx& c, const json& op, const json&) -> json {
    c.drop(op["o"]);
    sync(c.comm);
    return {{"ok", 1}};
});

// ---- the file itself, without the library ----------------------------------
static int b16(const std::vector<unsigned char>& b, size_t o) { return int16_t(b[o] << 8 | b[o + 1]); }

namespace vp {
static json segyBytes(const std::vector<unsigned char>& b, bool withHdr, bool withTrc)
{
    json j = {{"exists", 1}, {"size", b.size()}};
    if (b.size() < 3600) return j;
    j["text"] = textKey(std::string((char*)b.data(), 3200));
    size_t ns = b16(b, 3220);
    j["inc"]  = b16(b, 3216);
    j["ns"]   = int(ns);
    j["fmt"]  = b16(b, 3224);
    // the other words of the file header which are set: place, value
    json bin = json::array();
    for (size_t o = 3200; o < 3600; o += 2)
        if (o != 3216 && o != 3220 && o != 3224 && b16(b, o)) bin.push_back({o + 1, b16(b, o)});
    j["bin"] = bin;
    json h = json::array(), t = json::array();
    if (ns <= 32767)
        for (size_t o = 3600; o + 240 + 4 * ns <= b.size(); o += 240 + 4 * ns) {
            if (withHdr) h.push_back(hdrWords(&b[o]));
            json s = json::array();
            if (withTrc) {
                for (size_t q = 0; q < ns; q++) {
                    const unsigned char* x = &b[o + 240 + 4 * q];
                    s.push_back(sw(uint32_t(x[0]) << 24 | uint32_t(x[1]) << 16 | uint32_t(x[2]) << 8 | x[3]));
                }
                t.push_back(s);
            }
        }
    j["hdr"] = h;
    j["trc"] = t;
    return j;
}

json segyCat(const std::string& path, bool withHdr, bool withTrc)
{
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return {{"exists", 0}, {"size", 0}};
    std::vector<unsigned char> b;
    unsigned char buf[65536];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k);
    fclose(f);
    return segyBytes(b, withHdr, withTrc);
}

// the small file a huge one stands for; false if it stands for none
static bool unfar(const std::string& path, const Far& far, std::vector<unsigned char>& b)
{
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return true;
    size_t size = size_t(lseek(fd, 0, SEEK_END));
    b.assign(std::min<size_t>(size, 3600), 0);
    bool ok = pread(fd, b.data(), b.size(), 0) == long(b.size());
    size_t D = b.size() < 3600 ? 240 : 240 + 4 * size_t(b16(b, 3220) & 0x7fff);
    auto add = [&](size_t from, size_t to) {
        size_t o = b.size();
        if (to - from > (1u << 26)) { ok = false; return; }
        b.resize(o + (to - from));
        ok = ok && pread(fd, &b[o], to - from, off_t(from)) == long(to - from);
    };
    size_t cut = 3600 + far.K * D, go = 3600 + (far.K + far.B) * D;
    if (size > 3600) add(3600, std::min(size, cut));
    if (size > go) add(go, size);
    else if (size > cut) ok = false;
    // nothing but zeros in between
    for (off_t p = off_t(cut); ok && size > go && p < off_t(go);) {
        off_t d = lseek(fd, p, SEEK_DATA);
        if (d < 0 || d >= off_t(go)) break;
        off_t h = std::min(lseek(fd, d, SEEK_HOLE), off_t(go));
        if (h - d > (1 << 26)) { ok = false; break; }
        std::vector<unsigned char> z(size_t(h - d));
        ok = pread(fd, z.data(), z.size(), d) == long(z.size());
        for (auto x : z) ok = ok && x == 0;
        p = h;
    }
    close(fd);
    return ok;
}
void segyPut(const std::string& path, const json& op)
{
    int ns = op["ns"];
    std::vector<unsigned char> b(3600);
    std::string t = op.value("text", std::string());
    if (op.count("textbytes"))
        for (size_t k = 0; k < op["textbytes"].size(); k++) b[k] = op["textbytes"][k].get<int>();
    else if (op.count("trl")) {
        // run-length list of the bytes to store
        size_t k = 0;
        for (auto& r : op["trl"])
            for (int q = 0; q < r[1].get<int>() && k < 3200; q++, k++) b[k] = (unsigned char)r[0].get<int>();
    }
    else
        for (size_t k = 0; k < t.size() && k < 3200; k++) b[k] = t[k];
    auto p16 = [&](size_t o, int v) {
        b[o]     = (unsigned char)((v >> 8) & 0xff);
        b[o + 1] = (unsigned char)(v & 0xff);
    };
    p16(3220, ns);
    p16(3216, op.value("inc", 4000));
    p16(3224, op.value("fmt", 5));
    for (auto& tr : op["traces"]) {
        size_t o = b.size();
        b.resize(o + 240 + 4 * ns);
        // header: sparse [word, value] pairs
        for (auto& pr : tr["h"]) p16(o + 2 * pr[0].get<int>(), pr[1].get<int>());
        for (int q = 0; q < ns; q++) {
            uint32_t u = uint32_t(tr["t"][q].get<int64_t>());
            for (int z = 0; z < 4; z++) b[o + 240 + 4 * q + z] = (unsigned char)(u >> (24 - 8 * z));
        }
    }
    if (op.count("extra")) b.resize(b.size() + op["extra"].get<int>(), 0x5a);
    const Far far(op);
    FILE* f = fopen(path.c_str(), "wb");
    size_t cut = far.on ? std::min(b.size(), 3600 + far.K * (240 + 4 * ns)) : b.size();
    fwrite(b.data(), 1, cut, f);
    if (cut < b.size()) {
        fseeko(f, off_t(cut + far.B * (240 + 4 * ns)), SEEK_SET);
        fwrite(b.data() + cut, 1, b.size() - cut, f);
    }
    fclose(f);
}
}  // namespace vp

static Reg r11("fcat", [](Ctx& c, const json& op, const json&) -> json {
    sync(c.comm);
    json j = {{"ok", 1}};
    const Far far(op);
    if (c.rank == 0 && far.on) {
        std::vector<unsigned char> b;
        bool there = access(c.path(op["name"]).c_str(), F_OK) == 0;
        bool ok    = unfar(c.path(op["name"]), far, b);
        j = there ? segyBytes(b, op.value("hdr", 1) != 0, op.value("trc", 1) != 0) : json{{"exists", 0}, {"size", 0}};
        if (!ok) j["size"] = -1;
    }
    else if (c.rank == 0) j = segyCat(c.path(op["name"]), op.value("hdr", 1) != 0, op.value("trc", 1) != 0);
    sync(c.comm);
    return j;
});

// {"name","ns","inc","fmt","text","traces":[{"h":[[w,v]..],"t":[..]}]}
static Reg r12("fput", [](Ctx& c, const json& op, const json&) -> json {
    if (c.rank == 0) segyPut(c.path(op["name"]), op);
    sync(c.comm);
    return {{"ok", 1}};
});
