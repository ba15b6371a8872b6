// C02-C04: the byte-level file interface
#include "vp.hh"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vp;
using namespace exseis::PIOL;

static const unsigned char GUARD = 0xE7;

// With "far": [PG, MB, X] the file of a scenario is cut into pages of PG bytes which
// lie MB * 2^20 + X bytes apart in the real file (no request crosses a page).
struct Pages {
    size_t PG = 1, B = 1;
    bool on = false;
    Pages(const json& op)
    {
        if (!op.count("far")) return;
        on = true;
        PG = op["far"][0];
        B  = op["far"][1].get<size_t>() * 1048576 + op["far"][2].get<size_t>();
    }
    size_t at(size_t v) const { return on ? v / PG * B + v % PG : v; }
    // a length: the end of a page is not the start of the next
    size_t len(size_t v) const { return on && v ? at(v - 1) + 1 : v; }
    long unlen(size_t r) const
    {
        if (!on || !r) return long(r);
        return (r - 1) % B >= PG ? -1 : long((r - 1) / B * PG + (r - 1) % B + 1);
    }
};

static Reg ro("dopen", [](Ctx& c, const json& op, const json&) -> json {
    std::string m = op["mode"];
    FileMode fm = m == "r" ? FileMode::Read : m == "w" ? FileMode::Write :
                  m == "rw" ? FileMode::ReadWrite : FileMode::Test;
    std::shared_ptr<DataMPIIO> d;
    if (op.count("dflt"))
        d = std::make_shared<DataMPIIO>(c.piol, c.path(op["name"]), fm);
    else {
        DataMPIIO::Opt o;
        if (op.count("max")) o.maxSize = op["max"];
        if (op.count("coll")) o.coll = op["coll"].get<int>() != 0;
        if (op.count("fcomm")) o.fcomm = c.comm;
        d = std::make_shared<DataMPIIO>(c.piol, c.path(op["name"]), o, fm);
    }
    bool null = d->isFileNull();
    c.put(op["o"], d);
    sync(c.comm);
    return {{"null", null ? 1 : 0}};
});

static Reg rc("dclose", [](Ctx& c, const json& op, const json&) -> json {
    c.drop(op["o"]);
    sync(c.comm);
    return {{"ok", 1}};
});

static Reg rs("dsize", [](Ctx& c, const json& op, const json&) -> json {
    size_t s = c.get<DataMPIIO>(op["o"])->getFileSz();
    sync(c.comm);
    return {{"size", Pages(op).unlen(s)}};
});

static Reg rz("dsetsize", [](Ctx& c, const json& op, const json&) -> json {
    c.get<DataMPIIO>(op["o"])->setFileSz(Pages(op).len(op["size"]));
    sync(c.comm);
    return {{"ok", 1}};
});

static size_t total(const json& op, const json& a)
{
    std::string k = op["kind"];
    if (k == "contig") return a["n"];
    if (k == "stride") return a["nb"].get<size_t>() * a["bsz"].get<size_t>();
    return a["offs"].size() * a["bsz"].get<size_t>();
}

static Reg rr("dread", [](Ctx& c, const json& op, const json& a) -> json {
    auto d = c.get<DataMPIIO>(op["o"]);
    std::string k = op["kind"];
    size_t n = total(op, a);
    const Pages pages(op);
    std::vector<unsigned char> b(n + 32, GUARD);
    unsigned char* p = n || !a.count("null") ? b.data() + 16 : nullptr;
    takeMaxIO();
    if (k == "contig")
        d->read(pages.at(a["off"]), n, p);
    else if (k == "stride")
        d->read(pages.at(a["off"]), a["bsz"].get<size_t>(), pages.at(a["osz"]),
                a["nb"].get<size_t>(), p);
    else {
        std::vector<size_t> offs = a["offs"];
        for (auto& o : offs) o = pages.at(o);
        d->read(a["bsz"].get<size_t>(), offs.size(), offs.data(), p);
    }
    int g = 1;
    for (size_t i = 0; i < 16; i++) g &= b[i] == GUARD && b[16 + n + i] == GUARD;
    json j = json::array();
    for (size_t i = 0; i < n; i++) j.push_back(b[16 + i]);
    sync(c.comm);
    return {{"data", j}, {"guard", g}, {"mx", takeMaxIO()}};
});

static Reg rw("dwrite", [](Ctx& c, const json& op, const json& a) -> json {
    auto d = c.get<DataMPIIO>(op["o"]);
    std::string k = op["kind"];
    size_t n = total(op, a);
    const Pages pages(op);
    std::vector<unsigned char> b(n + 32, GUARD);
    for (size_t i = 0; i < n; i++) b[16 + i] = a["data"][i].get<int>();
    auto b2 = b;
    unsigned char* p = n || !a.count("null") ? b.data() + 16 : nullptr;
    takeMaxIO();
    if (k == "contig")
        d->write(pages.at(a["off"]), n, p);
    else if (k == "stride")
        d->write(pages.at(a["off"]), a["bsz"].get<size_t>(), pages.at(a["osz"]),
                 a["nb"].get<size_t>(), p);
    else {
        std::vector<size_t> offs = a["offs"];
        for (auto& o : offs) o = pages.at(o);
        d->write(a["bsz"].get<size_t>(), offs.size(), offs.data(), p);
    }
    sync(c.comm);
    return {{"same", b == b2 ? 1 : 0}, {"mx", takeMaxIO()}};
});

// the file as the operating system sees it
static Reg rcat("cat", [](Ctx& c, const json& op, const json&) -> json {
    sync(c.comm);
    json j = json::array();
    int exists = 0;
    if (c.rank == 0) {
        FILE* f = fopen(c.path(op["name"]).c_str(), "rb");
        const Pages pages(op);
        if (f && pages.on) {
            exists = 1;
            fseeko(f, 0, SEEK_END);
            const long size = pages.unlen(size_t(ftello(f)));
            for (long v = 0; v < size; v++) {
                fseeko(f, off_t(pages.at(size_t(v))), SEEK_SET);
                j.push_back(fgetc(f));
            }
            // outside the pages there is nothing
            bool ok = size >= 0;
            for (off_t p = 0; ok;) {
                off_t d = lseek(fileno(f), p, SEEK_DATA);
                if (d < 0) break;
                off_t h = lseek(fileno(f), d, SEEK_HOLE);
                if (h - d > (1 << 26)) break;
                std::vector<unsigned char> z(size_t(h - d));
                ok = pread(fileno(f), z.data(), z.size(), d) == long(z.size());
                for (size_t k = 0; k < z.size(); k++)
                    ok = ok && (z[k] == 0 || (size_t(d) + k) % pages.B < pages.PG);
                p = h;
            }
            if (!ok) j.push_back(-2);
            fclose(f);
        }
        else if (f) {
            exists = 1;
            int ch;
            while ((ch = fgetc(f)) != EOF) j.push_back(ch);
            fclose(f);
        }
    }
    sync(c.comm);
    return {{"bytes", j}, {"exists", exists}};
});

// put a file there behind the library's back
static Reg rput("put", [](Ctx& c, const json& op, const json&) -> json {
    if (c.rank == 0) {
        FILE* f = fopen(c.path(op["name"]).c_str(), "wb");
        const Pages pages(op);
        size_t v = 0;
        if (op.count("bytes"))
            for (auto& x : op["bytes"]) {
                if (pages.on) fseeko(f, off_t(pages.at(v++)), SEEK_SET);
                fputc(x.get<int>(), f);
            }
        fclose(f);
    }
    sync(c.comm);
    return {{"ok", 1}};
});

// make the k-th file call of this process fail from here on
static Reg rfault("fault", [](Ctx& c, const json& op, const json& a) -> json {
    vp::setFault(a.value("call", std::string("any")), a.value("k", -1L), a.value("perform", 1) != 0);
    sync(c.comm);
    return {{"ok", 1}};
});
