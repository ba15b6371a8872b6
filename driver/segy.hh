#ifndef VP_SEGY_HH
#define VP_SEGY_HH
#include "vp.hh"
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ObjectSEGY.hh"
#include "ExSeisDat/PIOL/Param.h"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/WriteSEGY.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/PIOL/segy_utils.hh"

namespace vp {
using namespace exseis::PIOL;

struct Writer {
    std::shared_ptr<WriteInterface> f;
    std::unique_ptr<WriteDirect> d;
    PIOL_File_WriteDirect* c = nullptr;
    std::shared_ptr<std::shared_ptr<ExSeis>> cpiol;
    ~Writer() { if (c) PIOL_File_WriteDirect_delete(c); }
};
struct Reader {
    std::shared_ptr<ReadInterface> f;
    std::unique_ptr<ReadDirect> d;
    PIOL_File_ReadDirect* c = nullptr;
    std::shared_ptr<std::shared_ptr<ExSeis>> cpiol;
    size_t ns = 0;
    ~Reader() { if (c) PIOL_File_ReadDirect_delete(c); }
};
std::string textKey(const std::string&);
char metaKind(int m);
std::shared_ptr<Rule> mkRule(const json& metas);
void sentinel(Param*);
void setRow(Param* p, size_t k, const json& metas, const json& row);
json getRow(const Param* p, size_t k, const json& metas);
json hdrWords(const unsigned char* c);
json floatsOut(const float* f, size_t n);
void floatsIn(const json& j, float* f);
json segyCat(const std::string& path, bool withHdr, bool withTrc);
void segyPut(const std::string& path, const json& op);
}  // namespace vp
#endif
