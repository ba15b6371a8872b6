// MPI profiling-interface layer: observes every MPI call the library makes.
//  * before each collective the participants compare what they are about to do
//    on a private communicator, so a mismatch is reported instead of hanging;
//  * every resource acquired is entered in a ledger, every release checked;
//  * chosen file calls can be made to report a failure;
//  * small seeded delays perturb the schedule.
#include "vp.hh"
#include <csignal>
#include <cstring>
#include <set>
#include <unistd.h>

namespace vp {

static int g_rank = 0;
static FILE* g_log = nullptr;
static bool g_on = false, g_trace = false;
static int g_depth = 0;
static int g_sid = -1;
static std::string g_mark;
static unsigned g_delay = 0;
static int g_wd = 60;
static std::vector<std::pair<std::string, json>> g_calls;
static std::vector<std::string> g_fcalls;
static long g_leftmsgs = 0;

struct CommInfo {
    MPI_Comm c, shadow;
    std::string name;
};
static std::vector<CommInfo> g_comms;
static std::map<MPI_File, MPI_Comm> g_files;
static std::map<MPI_Win, MPI_Comm> g_wins;

static std::map<std::string, std::map<void*, int>> g_ledger;
static std::vector<std::string> g_lerr;

static std::string f_call;
static long f_k = -1, f_n = 0, f_total = 0;
static bool f_perform = true, f_fired = false;
static bool f_openfailed = false; // an open has failed: calls on the null handle are not calls on a released one
static bool f_mode = false;      // failures are being injected in this scenario
static long g_failed = 0;        // file calls that told the library they failed

struct Guard {
    Guard() { ++g_depth; }
    ~Guard() { --g_depth; }
};
#define ACTIVE (vp::g_on && vp::g_depth == 0)

static void rawlog(const json& j)
{
    if (!g_log) return;
    std::string s = j.dump() + "\n";
    fwrite(s.data(), 1, s.size(), g_log);
    fflush(g_log);
}

void giveUp(const std::string& kind, const std::string& info, int code)
{
    rawlog({{"s", g_sid}, {"r", g_rank}, {"abort", kind}, {"info", info}, {"at", g_mark}});
    if (g_log) fsync(fileno(g_log));
    _exit(code);
}

static char g_sigbuf[512];
static void onSignal(int sig)
{
    const char* k = sig == SIGALRM ? "hang" : "crash";
    int n = snprintf(
      g_sigbuf, sizeof g_sigbuf,
      "{\"s\":%d,\"r\":%d,\"abort\":\"%s\",\"info\":\"signal %d\",\"at\":\"%.200s\"}\n", g_sid,
      g_rank, k, sig, g_mark.c_str());
    if (g_log) {
        if (write(fileno(g_log), g_sigbuf, n) < 0) {}
    }
    _exit(sig == SIGALRM ? 78 : 79);
}

void init(int rank, FILE* log)
{
    g_rank = rank;
    g_log  = log;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) signal(s, onSignal);
    registerComm(MPI_COMM_WORLD, "world");
}

void registerComm(MPI_Comm c, const std::string& name)
{
    Guard g;
    CommInfo i;
    i.c = c;
    PMPI_Comm_dup(c, &i.shadow);
    i.name = name;
    g_comms.push_back(i);
}

void setWatchdog(int s) { g_wd = s; alarm(s); }
void mark(const std::string& w) { g_mark = w; alarm(g_wd); }

static const CommInfo* find(MPI_Comm c)
{
    for (auto& i : g_comms)
        if (i.c == c) return &i;
    return nullptr;
}

static std::string cname(MPI_Comm c)
{
    auto i = find(c);
    if (i) return i->name;
    if (c == MPI_COMM_NULL) return "none";
    int sz = 0;
    PMPI_Comm_size(c, &sz);
    return sz == 1 ? "self" : "other";
}

static void delay()
{
    if (!g_delay) return;
    g_delay = g_delay * 1103515245u + 12345u;
    unsigned x = (g_delay >> 16) & 15u;
    if (x < 3) usleep(x * 150);
}

// names of the calls, as fixed-size text so that participants can compare them
static void agree(MPI_Comm c, const std::string& what)
{
    const CommInfo* i = find(c);
    if (!i) return;
    int n = 0;
    PMPI_Comm_size(i->shadow, &n);
    const int W = 64;
    char me[W];
    memset(me, 0, W);
    strncpy(me, what.c_str(), W - 1);
    std::vector<char> all(W * n);
    PMPI_Allgather(me, W, MPI_CHAR, all.data(), W, MPI_CHAR, i->shadow);
    for (int k = 0; k < n; k++)
        if (strcmp(&all[k * W], me) != 0) {
            std::string s = i->name + ":";
            for (int q = 0; q < n; q++) s += std::string(" [") + &all[q * W] + "]";
            PMPI_Barrier(i->shadow);  // let everyone see it before the job dies
            rawlog({{"s", g_sid}, {"r", g_rank}, {"abort", "mismatch"}, {"info", s}, {"at", g_mark}});
            if (g_log) fsync(fileno(g_log));
            PMPI_Barrier(i->shadow);
            _exit(77);
        }
}

void sync(MPI_Comm c)
{
    Guard g;
    if (g_on) agree(c, "SYNC");
    PMPI_Barrier(c);
}

static void note(const char* call, MPI_Comm c, const json& extra = json())
{
    if (g_trace) {
        json j = {{"c", call}, {"m", cname(c)}};
        if (!extra.is_null()) j["x"] = extra;
        g_calls.push_back({call, j});
    }
}

static void coll(const char* call, MPI_Comm c, const std::string& sig = "")
{
    delay();
    note(call, c);
    agree(c, std::string(call) + sig);
}

void beginScenario(int sid, bool trace, unsigned delaySeed)
{
    Guard g;
    g_sid = sid;
    g_trace = trace;
    g_delay = delaySeed ? delaySeed + 7919u * (g_rank + 1) : 0;
    g_calls.clear();
    g_fcalls.clear();
    clearLedger();
    setFault("", -1, true);
    f_openfailed = false;
    g_on = true;
}

void endScenario()
{
    Guard g;
    for (size_t i = g_comms.size(); i-- > 0;) agree(g_comms[i].c, "END");
    // every message must have been received
    PMPI_Barrier(g_comms[0].shadow);
    g_leftmsgs = 0;
    for (auto& i : g_comms) {
        for (int t = 0; t < 3; t++) {
            int f = 0;
            MPI_Status st;
            PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, i.c, &f, &st);
            if (f) {
                int n = 0;
                PMPI_Get_count(&st, MPI_BYTE, &n);
                std::vector<char> b(n > 0 ? n : 0);
                PMPI_Recv(b.data(), n, MPI_BYTE, st.MPI_SOURCE, st.MPI_TAG, i.c, MPI_STATUS_IGNORE);
                g_leftmsgs++;
            }
        }
    }
    while (g_comms.size() > 1) {
        PMPI_Comm_free(&g_comms.back().shadow);
        g_comms.pop_back();
    }
    PMPI_Barrier(g_comms[0].shadow);
    g_on = false;
}

int leftovers() { return (int)g_leftmsgs; }

void setFault(const std::string& call, long k, bool perform)
{
    f_call = call;
    f_k = k;
    f_n = 0;
    f_total = 0;
    f_perform = perform;
    f_fired = false;
}
bool faultFired() { return f_fired; }
void faultMode(bool on) { f_mode = on; }
long takeFailed()
{
    long n = g_failed;
    g_failed = 0;
    return n;
}
static int told(int e)
{
    if (e != MPI_SUCCESS) g_failed++;
    return e;
}
long fileCalls() { return f_total; }

// does this file call have to report a failure?
static bool fault(const char* call)
{
    f_total++;
    g_fcalls.push_back(call);
    if (f_k < 0) return false;
    if (f_call != "any" ? f_call != call : !strcmp(call, "File_open")) return false;
    if (f_n++ != f_k) return false;
    f_fired = true;
    return true;
}

json takeFileCalls()
{
    json j = json::array();
    for (auto& s : g_fcalls) j.push_back(s);
    g_fcalls.clear();
    return j;
}

json takeCalls()
{
    json j = json::array();
    for (auto& c : g_calls) j.push_back(c.second);
    g_calls.clear();
    return j;
}

// ---- ledger -----------------------------------------------------------------
template<class H> static void acquire(const char* kind, H h)
{
    if ((void*)h == nullptr) return;
    g_ledger[kind][(void*)h]++;
}
template<class H> static void release(const char* kind, H h)
{
    auto& m = g_ledger[kind];
    auto it = m.find((void*)h);
    if (it == m.end()) {
        g_lerr.push_back(std::string("release of unknown ") + kind);
        return;
    }
    if (--it->second == 0) m.erase(it);
}
template<class H> static void use(const char* kind, H h, const char* call)
{
    auto& m = g_ledger[kind];
    if (f_openfailed && (void*)h == (void*)MPI_FILE_NULL) return;
    if (m.find((void*)h) == m.end())
        g_lerr.push_back(std::string(call) + " on released or unknown " + kind);
}
json live()
{
    json j = {{"file", 0}, {"type", 0}, {"info", 0}, {"win", 0}, {"req", 0}, {"comm", 0}, {"op", 0}};
    for (auto& k : g_ledger) {
        int n = 0;
        for (auto& h : k.second) n += h.second;
        j[k.first] = n;
    }
    return j;
}
json ledgerErrors()
{
    json j = json::array();
    for (auto& s : g_lerr) j.push_back(s);
    return j;
}
void clearLedger()
{
    g_ledger.clear();
    g_lerr.clear();
}
static std::string sz(MPI_Datatype t, long n)
{
    int s = 0;
    PMPI_Type_size(t, &s);
    return ":" + std::to_string(n * s);
}
static bool builtin(MPI_Datatype t)
{
    int a, b, c, comb = 0;
    PMPI_Type_get_envelope(t, &a, &b, &c, &comb);
    return comb == MPI_COMBINER_NAMED;
}
static void usetype(MPI_Datatype t, const char* call)
{
    // a freed handle cannot be inspected safely: compare with the ledger first
    auto& m = g_ledger["type"];
    if (m.find((void*)t) != m.end()) return;
    if (!builtin(t)) g_lerr.push_back(std::string(call) + " on released or unknown type");
}
static MPI_Comm fcomm(MPI_File f)
{
    auto i = g_files.find(f);
    return i == g_files.end() ? MPI_COMM_NULL : i->second;
}
static MPI_Comm wcomm(MPI_Win w)
{
    auto i = g_wins.find(w);
    return i == g_wins.end() ? MPI_COMM_NULL : i->second;
}
}  // namespace vp

using namespace vp;

// the largest amount one call transferred
static long long g_maxio = 0;
static void amount(int n, MPI_Datatype t)
{
    int z = 0;
    PMPI_Type_size(t, &z);
    g_maxio = std::max(g_maxio, (long long)n * z);
}
long long vp::takeMaxIO()
{
    long long x = g_maxio;
    g_maxio = 0;
    return x;
}
extern "C" {

// ---- collectives ------------------------------------------------------------
int MPI_Barrier(MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Barrier(c);
    Guard g;
    coll("Barrier", c);
    return PMPI_Barrier(c);
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Bcast(b, n, t, root, c);
    Guard g;
    coll("Bcast", c, sz(t, n) + "@" + std::to_string(root));
    return PMPI_Bcast(b, n, t, root, c);
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Allgather(s, n, t, r, m, u, c);
    Guard g;
    coll("Allgather", c, sz(u, m));
    return PMPI_Allgather(s, n, t, r, m, u, c);
}
int MPI_Allgatherv(
  const void* s, int n, MPI_Datatype t, void* r, const int* m, const int* d, MPI_Datatype u, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Allgatherv(s, n, t, r, m, d, u, c);
    Guard g;
    coll("Allgatherv", c);
    return PMPI_Allgatherv(s, n, t, r, m, d, u, c);
}
int MPI_Gather(
  const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, int root, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Gather(s, n, t, r, m, u, root, c);
    Guard g;
    coll("Gather", c, "@" + std::to_string(root));
    return PMPI_Gather(s, n, t, r, m, u, root, c);
}
int MPI_Gatherv(
  const void* s, int n, MPI_Datatype t, void* r, const int* m, const int* d, MPI_Datatype u,
  int root, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Gatherv(s, n, t, r, m, d, u, root, c);
    Guard g;
    coll("Gatherv", c, "@" + std::to_string(root));
    return PMPI_Gatherv(s, n, t, r, m, d, u, root, c);
}
int MPI_Scatter(
  const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, int root, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Scatter(s, n, t, r, m, u, root, c);
    Guard g;
    coll("Scatter", c, "@" + std::to_string(root));
    return PMPI_Scatter(s, n, t, r, m, u, root, c);
}
int MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Alltoall(s, n, t, r, m, u, c);
    Guard g;
    coll("Alltoall", c);
    return PMPI_Alltoall(s, n, t, r, m, u, c);
}
int MPI_Alltoallv(
  const void* s, const int* n, const int* sd, MPI_Datatype t, void* r, const int* m, const int* rd,
  MPI_Datatype u, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Alltoallv(s, n, sd, t, r, m, rd, u, c);
    Guard g;
    coll("Alltoallv", c);
    return PMPI_Alltoallv(s, n, sd, t, r, m, rd, u, c);
}
static std::string opName(MPI_Op o)
{
    return o == MPI_MAX ? "max" : o == MPI_MIN ? "min" : o == MPI_SUM ? "sum" : o == MPI_LAND ? "land" :
           o == MPI_LOR ? "lor" : o == MPI_BAND ? "band" : o == MPI_BOR ? "bor" : o == MPI_MINLOC ? "minloc" :
           o == MPI_MAXLOC ? "maxloc" : o == MPI_PROD ? "prod" : "other";
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Allreduce(s, r, n, t, o, c);
    Guard g;
    coll("Allreduce", c, sz(t, n) + "#" + opName(o));
    return PMPI_Allreduce(s, r, n, t, o, c);
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Reduce(s, r, n, t, o, root, c);
    Guard g;
    coll("Reduce", c, sz(t, n) + "@" + std::to_string(root));
    return PMPI_Reduce(s, r, n, t, o, root, c);
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Scan(s, r, n, t, o, c);
    Guard g;
    coll("Scan", c, sz(t, n));
    return PMPI_Scan(s, r, n, t, o, c);
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Exscan(s, r, n, t, o, c);
    Guard g;
    coll("Exscan", c, sz(t, n));
    return PMPI_Exscan(s, r, n, t, o, c);
}

// ---- communicators ----------------------------------------------------------
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n)
{
    if (!ACTIVE) return PMPI_Comm_dup(c, n);
    Guard g;
    coll("Comm_dup", c);
    int e = PMPI_Comm_dup(c, n);
    acquire("comm", *n);
    registerComm(*n, cname(c));
    return e;
}
int MPI_Comm_split(MPI_Comm c, int k, int o, MPI_Comm* n)
{
    if (!ACTIVE) return PMPI_Comm_split(c, k, o, n);
    Guard g;
    coll("Comm_split", c);
    int e = PMPI_Comm_split(c, k, o, n);
    if (*n != MPI_COMM_NULL) {
        acquire("comm", *n);
        registerComm(*n, cname(c));
    }
    return e;
}
int MPI_Comm_free(MPI_Comm* c)
{
    if (!ACTIVE) return PMPI_Comm_free(c);
    Guard g;
    coll("Comm_free", *c);
    release("comm", *c);
    for (size_t i = 0; i < g_comms.size(); i++)
        if (g_comms[i].c == *c) {
            PMPI_Comm_free(&g_comms[i].shadow);
            g_comms.erase(g_comms.begin() + i);
            break;
        }
    return PMPI_Comm_free(c);
}

// ---- point to point ---------------------------------------------------------
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
    if (!ACTIVE) return PMPI_Send(b, n, t, d, tag, c);
    Guard g;
    delay();
    note("Send", c, d);
    return PMPI_Send(b, n, t, d, tag, c);
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st)
{
    if (!ACTIVE) return PMPI_Recv(b, n, t, s, tag, c, st);
    Guard g;
    delay();
    note("Recv", c, s);
    return PMPI_Recv(b, n, t, s, tag, c, st);
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q)
{
    if (!ACTIVE) return PMPI_Isend(b, n, t, d, tag, c, q);
    Guard g;
    delay();
    note("Send", c, d);
    int e = PMPI_Isend(b, n, t, d, tag, c, q);
    if (*q != MPI_REQUEST_NULL) acquire("req", *q);
    return e;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q)
{
    if (!ACTIVE) return PMPI_Irecv(b, n, t, s, tag, c, q);
    Guard g;
    delay();
    note("Recv", c, s);
    int e = PMPI_Irecv(b, n, t, s, tag, c, q);
    if (*q != MPI_REQUEST_NULL) acquire("req", *q);
    return e;
}
static bool realReq(MPI_Request q) { return q != MPI_REQUEST_NULL; }
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
    if (!ACTIVE) return PMPI_Wait(q, st);
    Guard g;
    delay();
    if (realReq(*q)) {
        if (g_ledger["req"].count((void*)*q)) release("req", *q);
        else if (*q != (MPI_Request)0) g_lerr.push_back("wait on unknown request");
    }
    return PMPI_Wait(q, st);
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st)
{
    if (!ACTIVE) return PMPI_Waitall(n, q, st);
    Guard g;
    delay();
    for (int i = 0; i < n; i++)
        if (realReq(q[i]) && g_ledger["req"].count((void*)q[i])) release("req", q[i]);
    return PMPI_Waitall(n, q, st);
}
int MPI_Waitany(int n, MPI_Request* q, int* k, MPI_Status* st)
{
    if (!ACTIVE) return PMPI_Waitany(n, q, k, st);
    Guard g;
    delay();
    std::vector<MPI_Request> old(q, q + n);
    int e = PMPI_Waitany(n, q, k, st);
    if (*k != MPI_UNDEFINED && realReq(old[*k]) && g_ledger["req"].count((void*)old[*k])) release("req", old[*k]);
    return e;
}
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st)
{
    if (!ACTIVE) return PMPI_Test(q, f, st);
    Guard g;
    MPI_Request old = *q;
    int e = PMPI_Test(q, f, st);
    if (*f && realReq(old) && g_ledger["req"].count((void*)old)) release("req", old);
    return e;
}
int MPI_Request_free(MPI_Request* q)
{
    if (!ACTIVE) return PMPI_Request_free(q);
    Guard g;
    if (g_ledger["req"].count((void*)*q)) release("req", *q);
    return PMPI_Request_free(q);
}
int MPI_Sendrecv(
  const void* b, int n, MPI_Datatype t, int d, int tag, void* rb, int rn, MPI_Datatype rt, int s,
  int rtag, MPI_Comm c, MPI_Status* st)
{
    if (!ACTIVE) return PMPI_Sendrecv(b, n, t, d, tag, rb, rn, rt, s, rtag, c, st);
    Guard g;
    delay();
    note("Send", c, d);
    note("Recv", c, s);
    return PMPI_Sendrecv(b, n, t, d, tag, rb, rn, rt, s, rtag, c, st);
}

// ---- datatypes and info -----------------------------------------------------
int MPI_Type_create_hvector(int n, int b, MPI_Aint s, MPI_Datatype o, MPI_Datatype* t)
{
    if (!ACTIVE) return PMPI_Type_create_hvector(n, b, s, o, t);
    Guard g;
    int e = PMPI_Type_create_hvector(n, b, s, o, t);
    if (e == MPI_SUCCESS) acquire("type", *t);
    return e;
}
int MPI_Type_vector(int n, int b, int s, MPI_Datatype o, MPI_Datatype* t)
{
    if (!ACTIVE) return PMPI_Type_vector(n, b, s, o, t);
    Guard g;
    int e = PMPI_Type_vector(n, b, s, o, t);
    if (e == MPI_SUCCESS) acquire("type", *t);
    return e;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* t)
{
    if (!ACTIVE) return PMPI_Type_contiguous(n, o, t);
    Guard g;
    int e = PMPI_Type_contiguous(n, o, t);
    if (e == MPI_SUCCESS) acquire("type", *t);
    return e;
}
int MPI_Type_create_hindexed(
  int n, const int* b, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* t)
{
    if (!ACTIVE) return PMPI_Type_create_hindexed(n, b, d, o, t);
    Guard g;
    int e = PMPI_Type_create_hindexed(n, b, d, o, t);
    if (e == MPI_SUCCESS) acquire("type", *t);
    return e;
}
int MPI_Type_create_hindexed_block(int n, int b, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* t)
{
    if (!ACTIVE) return PMPI_Type_create_hindexed_block(n, b, d, o, t);
    Guard g;
    int e = PMPI_Type_create_hindexed_block(n, b, d, o, t);
    if (e == MPI_SUCCESS) acquire("type", *t);
    return e;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint l, MPI_Aint x, MPI_Datatype* t)
{
    if (!ACTIVE) return PMPI_Type_create_resized(o, l, x, t);
    Guard g;
    int e = PMPI_Type_create_resized(o, l, x, t);
    if (e == MPI_SUCCESS) acquire("type", *t);
    return e;
}
int MPI_Type_free(MPI_Datatype* t)
{
    if (!ACTIVE) return PMPI_Type_free(t);
    Guard g;
    if (g_ledger["type"].count((void*)*t) == 0) {
        g_lerr.push_back("release of unknown type");
        return MPI_ERR_TYPE;  // freeing it for real could bring the job down
    }
    release("type", *t);
    return PMPI_Type_free(t);
}
int MPI_Info_create(MPI_Info* i)
{
    if (!ACTIVE) return PMPI_Info_create(i);
    Guard g;
    int e = PMPI_Info_create(i);
    acquire("info", *i);
    return e;
}
int MPI_Info_dup(MPI_Info i, MPI_Info* n)
{
    if (!ACTIVE) return PMPI_Info_dup(i, n);
    Guard g;
    use("info", i, "Info_dup");
    int e = PMPI_Info_dup(i, n);
    acquire("info", *n);
    return e;
}
int MPI_Info_free(MPI_Info* i)
{
    if (!ACTIVE) return PMPI_Info_free(i);
    Guard g;
    if (g_ledger["info"].count((void*)*i) == 0) {
        g_lerr.push_back("release of unknown info");
        return MPI_ERR_INFO;
    }
    release("info", *i);
    return PMPI_Info_free(i);
}

// ---- files ------------------------------------------------------------------
int MPI_File_open(MPI_Comm c, const char* n, int m, MPI_Info i, MPI_File* f)
{
    if (!ACTIVE) return PMPI_File_open(c, n, m, i, f);
    Guard g;
    coll("File_open", c);
    if (i != MPI_INFO_NULL) use("info", i, "File_open");
    if (fault("File_open")) {
        // opening fails on every process or on none: the scenario asks for it on all
        *f = MPI_FILE_NULL;
        f_openfailed = true;
        return told(MPI_ERR_IO);
    }
    int e = PMPI_File_open(c, n, m, i, f);
    if (e == MPI_SUCCESS) {
        g_files[*f] = c;
        acquire("file", *f);
    }
    else
        f_openfailed = true;
    return told(e);
}
int MPI_File_close(MPI_File* f)
{
    if (!ACTIVE) return PMPI_File_close(f);
    Guard g;
    if (g_ledger["file"].count((void*)*f) == 0) {
        g_lerr.push_back("close of unknown file");
        return told(MPI_ERR_FILE);
    }
    coll("File_close", fcomm(*f));
    bool bad = fault("File_close");
    release("file", *f);
    g_files.erase(*f);
    int e = PMPI_File_close(f);
    return told(bad ? MPI_ERR_IO : e);
}
int MPI_File_get_size(MPI_File f, MPI_Offset* o)
{
    if (!ACTIVE) return PMPI_File_get_size(f, o);
    Guard g;
    use("file", f, "File_get_size");
    note("File_get_size", fcomm(f));
    bool bad = fault("File_get_size");
    MPI_Offset got = 0;
    int e = PMPI_File_get_size(f, &got);
    if (e == MPI_SUCCESS && !(bad && !f_perform)) *o = got;
    return told(bad ? MPI_ERR_IO : e);
}
int MPI_File_set_size(MPI_File f, MPI_Offset o)
{
    if (!ACTIVE) return PMPI_File_set_size(f, o);
    Guard g;
    use("file", f, "File_set_size");
    coll("File_set_size", fcomm(f), f_mode ? "" : ":" + std::to_string(o));
    bool bad = fault("File_set_size");
    int e = PMPI_File_set_size(f, o);
    return told(bad ? MPI_ERR_IO : e);
}
int MPI_File_preallocate(MPI_File f, MPI_Offset o)
{
    if (!ACTIVE) return PMPI_File_preallocate(f, o);
    Guard g;
    coll("File_preallocate", fcomm(f), ":" + std::to_string(o));
    bool bad = fault("File_preallocate");
    int e = PMPI_File_preallocate(f, o);
    return told(bad ? MPI_ERR_IO : e);
}
int MPI_File_sync(MPI_File f)
{
    if (!ACTIVE) return PMPI_File_sync(f);
    Guard g;
    coll("File_sync", fcomm(f));
    bool bad = fault("File_sync");
    int e = PMPI_File_sync(f);
    return told(bad ? MPI_ERR_IO : e);
}
int MPI_File_set_view(
  MPI_File f, MPI_Offset o, MPI_Datatype t, MPI_Datatype ft, const char* rep, MPI_Info i)
{
    if (!ACTIVE) return PMPI_File_set_view(f, o, t, ft, rep, i);
    Guard g;
    use("file", f, "File_set_view");
    usetype(ft, "File_set_view");
    coll("File_set_view", fcomm(f));
    bool bad = fault("File_set_view");
    int e = PMPI_File_set_view(f, o, t, ft, rep, i);
    return told(bad ? MPI_ERR_IO : e);
}
#define IOCALL(NAME, COLLECTIVE, BUF)                                                             \
    int MPI_##NAME(MPI_File f, MPI_Offset o, BUF b, int n, MPI_Datatype t, MPI_Status* s)          \
    {                                                                                              \
        if (!ACTIVE) return PMPI_##NAME(f, o, b, n, t, s);                                         \
        Guard g;                                                                                   \
        use("file", f, #NAME);                                                                     \
        usetype(t, #NAME);                                                                         \
        amount(n, t);                                                                              \
        if (COLLECTIVE)                                                                            \
            coll(#NAME, fcomm(f));                                                                 \
        else {                                                                                     \
            delay();                                                                               \
            note(#NAME, fcomm(f));                                                                 \
        }                                                                                          \
        bool bad = fault(#NAME);                                                                   \
        int e    = PMPI_##NAME(f, o, b, bad && !f_perform ? 0 : n, t, s);                          \
        return told(bad ? MPI_ERR_IO : e);                                                               \
    }
IOCALL(File_read_at, false, void*)
IOCALL(File_read_at_all, true, void*)
IOCALL(File_write_at, false, const void*)
IOCALL(File_write_at_all, true, const void*)
#define IOCALL2(NAME, COLLECTIVE, BUF)                                                            \
    int MPI_##NAME(MPI_File f, BUF b, int n, MPI_Datatype t, MPI_Status* s)                        \
    {                                                                                              \
        if (!ACTIVE) return PMPI_##NAME(f, b, n, t, s);                                            \
        Guard g;                                                                                   \
        use("file", f, #NAME);                                                                     \
        amount(n, t);                                                                              \
        if (COLLECTIVE)                                                                            \
            coll(#NAME, fcomm(f));                                                                 \
        else {                                                                                     \
            delay();                                                                               \
            note(#NAME, fcomm(f));                                                                 \
        }                                                                                          \
        bool bad = fault(#NAME);                                                                   \
        int e    = PMPI_##NAME(f, b, bad && !f_perform ? 0 : n, t, s);                             \
        return told(bad ? MPI_ERR_IO : e);                                                               \
    }
IOCALL2(File_read, false, void*)
IOCALL2(File_read_all, true, void*)
IOCALL2(File_write, false, const void*)
IOCALL2(File_write_all, true, const void*)

// ---- one-sided --------------------------------------------------------------
// the size in bytes and the unit of every process's part of a window
static std::map<MPI_Win, std::vector<long long>> g_wsize;
static void wsize(MPI_Win w, MPI_Comm c, MPI_Aint s, int d)
{
    int n;
    PMPI_Comm_size(c, &n);
    std::vector<long long> all(2 * n);
    long long me[2] = {(long long)s, d};
    PMPI_Allgather(me, 2, MPI_LONG_LONG, all.data(), 2, MPI_LONG_LONG, c);
    g_wsize[w] = all;
}
static void within(MPI_Win w, int r, MPI_Aint d, int m, MPI_Datatype u)
{
    auto it = g_wsize.find(w);
    if (it == g_wsize.end() || r < 0 || 2 * size_t(r) >= it->second.size() || m == 0) return;
    MPI_Aint lb, ex;
    PMPI_Type_get_extent(u, &lb, &ex);
    if (d < 0 || d * it->second[2 * r + 1] + (long long)(m)*ex > it->second[2 * r])
        vp::giveUp("access outside a window", "", 77);
}
int MPI_Win_allocate(MPI_Aint s, int d, MPI_Info i, MPI_Comm c, void* b, MPI_Win* w)
{
    if (!ACTIVE) return PMPI_Win_allocate(s, d, i, c, b, w);
    Guard g;
    coll("Win_allocate", c);
    int e = PMPI_Win_allocate(s, d, i, c, b, w);
    acquire("win", *w);
    g_wins[*w] = c;
    wsize(*w, c, s, d);
    return e;
}
int MPI_Win_create(void* b, MPI_Aint s, int d, MPI_Info i, MPI_Comm c, MPI_Win* w)
{
    if (!ACTIVE) return PMPI_Win_create(b, s, d, i, c, w);
    Guard g;
    coll("Win_create", c);
    int e = PMPI_Win_create(b, s, d, i, c, w);
    acquire("win", *w);
    g_wins[*w] = c;
    wsize(*w, c, s, d);
    return e;
}
int MPI_Win_free(MPI_Win* w)
{
    if (!ACTIVE) return PMPI_Win_free(w);
    Guard g;
    if (g_ledger["win"].count((void*)*w) == 0) {
        g_lerr.push_back("free of unknown win");
        return MPI_ERR_WIN;
    }
    coll("Win_free", wcomm(*w));
    release("win", *w);
    g_wins.erase(*w);
    g_wsize.erase(*w);
    return PMPI_Win_free(w);
}
int MPI_Win_fence(int a, MPI_Win w)
{
    if (!ACTIVE) return PMPI_Win_fence(a, w);
    Guard g;
    coll("Win_fence", wcomm(w));
    return PMPI_Win_fence(a, w);
}
int MPI_Win_lock(int t, int r, int a, MPI_Win w)
{
    if (!ACTIVE) return PMPI_Win_lock(t, r, a, w);
    Guard g;
    delay();
    use("win", w, "Win_lock");
    note("Win_lock", wcomm(w), r);
    return PMPI_Win_lock(t, r, a, w);
}
int MPI_Win_lock_all(int a, MPI_Win w)
{
    if (!ACTIVE) return PMPI_Win_lock_all(a, w);
    Guard g;
    delay();
    use("win", w, "Win_lock_all");
    note("Win_lock_all", wcomm(w));
    return PMPI_Win_lock_all(a, w);
}
int MPI_Win_unlock_all(MPI_Win w)
{
    if (!ACTIVE) return PMPI_Win_unlock_all(w);
    Guard g;
    delay();
    use("win", w, "Win_unlock_all");
    note("Win_unlock_all", wcomm(w));
    return PMPI_Win_unlock_all(w);
}
int MPI_Put(
  const void* b, int n, MPI_Datatype t, int r, MPI_Aint d, int m, MPI_Datatype u, MPI_Win w)
{
    if (!ACTIVE) return PMPI_Put(b, n, t, r, d, m, u, w);
    Guard g;
    delay();
    use("win", w, "Put");
    usetype(t, "Put");
    usetype(u, "Put");
    within(w, r, d, m, u);
    return PMPI_Put(b, n, t, r, d, m, u, w);
}
int MPI_Get(void* b, int n, MPI_Datatype t, int r, MPI_Aint d, int m, MPI_Datatype u, MPI_Win w)
{
    if (!ACTIVE) return PMPI_Get(b, n, t, r, d, m, u, w);
    Guard g;
    delay();
    use("win", w, "Get");
    usetype(t, "Get");
    usetype(u, "Get");
    within(w, r, d, m, u);
    return PMPI_Get(b, n, t, r, d, m, u, w);
}
int MPI_Win_unlock(int r, MPI_Win w)
{
    if (!ACTIVE) return PMPI_Win_unlock(r, w);
    Guard g;
    delay();
    use("win", w, "Win_unlock");
    note("Win_unlock", wcomm(w), r);
    return PMPI_Win_unlock(r, w);
}
}
