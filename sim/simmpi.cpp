// Simulated MPI.  Every message is a set of scheduler actions (arrive, deliver), every
// collective has a record that checks that the ranks agree on what they are doing.
#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <deque>
#include <memory>
#include <sstream>
#include <complex>
#include <algorithm>
#include <list>
#include <tuple>

using namespace sim;
struct sim_req_tag;

namespace sim {
enum Kind { K_BYTES, K_I8, K_U8, K_I16, K_U16, K_I32, K_U32, K_I64, K_U64, K_F, K_D, K_LD, K_CF, K_CD, K_CLD, K_BOOL,
            K_2INT, K_LONGINT, K_FLOATINT, K_DOUBLEINT, K_LDINT, K_SHORTINT, K_USER };
struct DT { Kind k; size_t size; const char *name; };
static const DT builtin[] = {
    {K_BYTES, 0, "NULL"}, {K_BYTES, 1, "BYTE"}, {K_I8, 1, "CHAR"}, {K_I16, 2, "SHORT"}, {K_I32, 4, "INT"},
    {K_I64, 8, "LONG"}, {K_F, 4, "FLOAT"}, {K_D, 8, "DOUBLE"}, {K_LD, 16, "LONG_DOUBLE"}, {K_BOOL, 1, "C_BOOL"},
    {K_CF, 8, "C_FLOAT_COMPLEX"}, {K_CD, 16, "C_DOUBLE_COMPLEX"}, {K_CLD, 32, "C_LONG_DOUBLE_COMPLEX"},
    {K_U32, 4, "UNSIGNED"}, {K_U64, 8, "UNSIGNED_LONG"}, {K_I64, 8, "INT64_T"}, {K_U64, 8, "UINT64_T"},
    {K_2INT, 8, "2INT"}, {K_LONGINT, 16, "LONG_INT"}, {K_FLOATINT, 8, "FLOAT_INT"}, {K_DOUBLEINT, 16, "DOUBLE_INT"},
    {K_LDINT, 32, "LONG_DOUBLE_INT"}, {K_U8, 1, "UNSIGNED_CHAR"}, {K_I8, 1, "SIGNED_CHAR"}, {K_U16, 2, "UNSIGNED_SHORT"},
    {K_I64, 8, "LONG_LONG"}, {K_U64, 8, "UNSIGNED_LONG_LONG"}, {K_I32, 4, "INT32_T"}, {K_U32, 4, "UINT32_T"},
    {K_SHORTINT, 8, "SHORT_INT"}};
static std::vector<DT> *user_dt; // handle 0x1000 + rank*256 + n
static const DT &dt_of(MPI_Datatype h) {
    uintptr_t v = (uintptr_t)h;
    if (v > 0x100 && v < 0x100 + sizeof builtin / sizeof builtin[0]) return builtin[v - 0x100];
    if (v >= 0x1000 && v - 0x1000 < user_dt->size()) return (*user_dt)[v - 0x1000];
    violation("mpi-misuse:datatype", "unknown MPI datatype handle used by rank " + std::to_string(cur));
}
static bool same_dt(MPI_Datatype a, MPI_Datatype b) {
    const DT &x = dt_of(a), &y = dt_of(b);
    return x.k == y.k && x.size == y.size;
}
struct UserOp { MPI_User_function *f; int rank; };
static std::vector<UserOp> *user_ops; // handle 0x1000 + n

struct CommRec;
struct Msg {
    int src, dst, tag;       // world ranks
    CommRec *comm;
    MPI_Datatype dt;
    size_t bytes;
    const void *ptr;         // sender's buffer (rendezvous)
    std::string copy;        // eager copy
    bool eager;
    sim_req_tag *sreq, *rreq = nullptr;
    uint64_t serial;
};
enum CType { C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SPLIT, C_GATHER, C_ALLGATHER, C_SCATTER, C_ALLTOALL, C_FINALIZE };
static const char *cname[] = {"Barrier", "Bcast", "Reduce", "Allreduce", "Comm_split", "Gather", "Allgather", "Scatter", "Alltoall", "Finalize"};
struct Part {
    bool in = false, done = false, nb = false, computed_out = false;
    const void *sbuf = nullptr;
    void *rbuf = nullptr;
    bool inplace = false;
    uint64_t sum = 0;
    std::string contrib;     // copied contribution
    std::string result;
    sim_req_tag *req = nullptr;
    int color = 0, key = 0;
    size_t scnt = 0, rcnt = 0;
};
struct Coll {
    CType t;
    bool nb;
    int root = 0, count = 0;
    MPI_Datatype dt = nullptr;
    MPI_Op op = nullptr;
    CommRec *comm;
    std::vector<Part> part;  // by comm rank
    int arrived = 0, left = 0;
    bool computed = false;
    long index;
    std::string result;
    std::vector<CommRec *> newcomm;
    std::vector<int> order;
};
struct CommRec {
    int id;
    std::vector<int> members;                 // world ranks
    std::vector<long> next;                   // next collective index of each member
    std::map<long, std::unique_ptr<Coll>> coll;
    int rank_of(int w) const { for (size_t i = 0; i < members.size(); i++) if (members[i] == w) return i; return -1; }
};
static std::vector<std::unique_ptr<CommRec>> *comms; // 0 world, 1.. others; SELF created per rank lazily
static std::map<std::tuple<int, int, int>, std::deque<Msg *>> *links; // (src,dst,comm) -> not yet arrived
struct Inbox { std::list<Msg *> unexpected; std::list<sim_req_tag *> posted; };
static std::vector<Inbox> *inbox;
static std::list<Msg *> *matched;
static std::list<Coll *> *nbready;   // nonblocking collectives with everybody in, not computed
static std::list<std::pair<Coll *, int>> *nbdone; // computed, completion of one rank outstanding
static std::list<sim_req_tag *> *live; // all requests not yet released
static uint64_t msg_serial;
static int eager_pc, redorder;
static bool poison_on;
} // namespace sim

struct sim_req_tag {
    enum { SEND, RECV, COLL } k;
    int rank;
    bool complete = false, freed = false, cancelled = false;
    const void *buf = nullptr;
    size_t bytes = 0;
    MPI_Datatype dt = nullptr;
    uint64_t sum = 0;
    int src = 0, tag = 0, world_src = 0;
    CommRec *comm = nullptr;
    Msg *msg = nullptr;
    Coll *coll = nullptr;
    MPI_Status st{};
    std::string saved; // old content of a poisoned receive buffer
    uint64_t serial = 0;
};

namespace sim {
static unsigned char poison_byte(size_t i) { return (unsigned char)(0xA7 ^ (i * 29)); }
static void poison(sim_req_tag *r) {
    if (!poison_on || !r->bytes) return;
    unsigned char *p = (unsigned char *)r->buf;
    r->saved.assign((char *)p, r->bytes);
    for (size_t i = 0; i < r->bytes; i++) p[i] = poison_byte(i);
}
static void check_poison(sim_req_tag *r) {
    if (!poison_on || !r->bytes) return;
    const unsigned char *p = (const unsigned char *)r->buf;
    for (size_t i = 0; i < r->bytes; i++)
        if (p[i] != poison_byte(i)) {
            std::ostringstream os;
            os << "rank " << r->rank << " wrote to or freed a receive buffer while the receive from rank " << r->world_src
               << " tag " << r->tag << " was in flight (byte " << i << " of " << r->bytes << ")";
            violation("mpi-misuse:recv-buffer-in-flight", os.str());
        }
}
static void check_send(sim_req_tag *r, const char *when) {
    if (r->bytes && hash_bytes(r->buf, r->bytes) != r->sum) {
        std::ostringstream os;
        os << "rank " << r->rank << " changed or freed the buffer of a nonblocking send to rank " << r->world_src << " tag "
           << r->tag << " before it completed (" << when << ")";
        violation("mpi-misuse:send-buffer-in-flight", os.str());
    }
}
static CommRec *comm_of(MPI_Comm h) {
    uintptr_t v = (uintptr_t)h;
    if (v == 0x301) return (*comms)[0].get();
    if (v == 0x302) {
        for (auto &c : *comms) if (c->members.size() == 1 && c->members[0] == cur) return c.get();
        auto c = std::make_unique<CommRec>();
        c->id = comms->size(); c->members = {cur}; c->next = {0};
        comms->push_back(std::move(c));
        return comms->back().get();
    }
    if (v >= 0x400 && v - 0x400 < comms->size() && v - 0x400 > 0) {
        CommRec *c = (*comms)[v - 0x400].get();
        if (c->rank_of(cur) < 0) violation("mpi-misuse:comm", "rank " + std::to_string(cur) + " uses a communicator it does not belong to");
        return c;
    }
    violation("mpi-misuse:comm", "invalid communicator used by rank " + std::to_string(cur));
}
static void enter(const char *fn, long a = 0, long b = 0, long c = 0) {
    if (cur < 0) violation("mpi-misuse", "MPI call outside a rank");
    Rank &r = ranks[cur];
    if (!r.inited || r.finalized) violation("mpi-misuse:state", std::string(fn) + " called by rank " + std::to_string(cur) + (r.inited ? " after MPI_Finalize" : " before MPI_Init"));
    if (omp_worker()) violation("mpi-misuse:thread", std::string(fn) + " called by a worker thread of rank " + std::to_string(cur));
    event(fn, a, b, c);
    yield_point();
}

// ------------------------------------------------------------------ p2p
bool payload_sent;
static void match(Msg *m, sim_req_tag *r) {
    m->rreq = r; r->msg = m;
    r->st.MPI_SOURCE = m->comm->rank_of(m->src); r->st.MPI_TAG = m->tag; r->st._ucount = m->bytes;
    std::ostringstream os;
    if (m->bytes > r->bytes) {
        os << "message from rank " << m->src << " to " << m->dst << " tag " << m->tag << " has " << m->bytes << " bytes, receive has room for " << r->bytes;
        violation("mpi-misuse:truncate", os.str());
    }
    if (!same_dt(m->dt, r->dt)) {
        os << "message from rank " << m->src << " to " << m->dst << " tag " << m->tag << " sent as " << dt_of(m->dt).name << " received as " << dt_of(r->dt).name;
        violation("mpi-misuse:datatype-mismatch", os.str());
    }
    matched->push_back(m);
}
static void arrive(Msg *m) {
    Inbox &ib = (*inbox)[m->dst];
    for (auto it = ib.posted.begin(); it != ib.posted.end(); ++it) {
        sim_req_tag *r = *it;
        if (r->comm == m->comm && (r->world_src == MPI_ANY_SOURCE || r->world_src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag)) {
            ib.posted.erase(it);
            match(m, r);
            return;
        }
    }
    ib.unexpected.push_back(m);
}
static void deliver(Msg *m) {
    sim_req_tag *r = m->rreq;
    check_poison(r);
    if (m->bytes) {
        if (m->eager) memcpy((void *)r->buf, m->copy.data(), m->bytes);
        else {
            check_send(m->sreq, "at transfer");
            memcpy((void *)r->buf, m->ptr, m->bytes);
        }
    }
    if (poison_on && r->bytes > m->bytes) memcpy((char *)r->buf + m->bytes, r->saved.data() + m->bytes, r->bytes - m->bytes);
    r->complete = true;
    r->msg = nullptr;
    if (!m->eager && m->sreq) { m->sreq->complete = true; m->sreq->msg = nullptr; }
    delete m;
}
static sim_req_tag *new_req(decltype(sim_req_tag::k) k) {
    auto *q = new sim_req_tag;
    q->k = k; q->rank = cur; q->serial = ++msg_serial;
    live->push_back(q);
    return q;
}
static void release(sim_req_tag *q) { live->remove(q); delete q; }

static int group_of[MAXR]; // -1: not yet set
static long crossings[MAXR];
static void note_crossing(int w) {
    if (group_of[w] >= 0 && group_of[cur] >= 0 && group_of[w] != group_of[cur]) crossings[cur]++;
}
static void note_coll_crossing(CommRec *cm) {
    long n = crossings[cur];
    for (int w : cm->members) note_crossing(w);
    if (crossings[cur] > n) crossings[cur] = n + 1;
}
static sim_req_tag *start_send(const void *buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm, bool sync) {
    CommRec *c = comm_of(comm);
    if (dest < 0 || dest >= (int)c->members.size() || count < 0)
        violation("mpi-misuse:args", "send to rank " + std::to_string(dest) + " count " + std::to_string(count) + " by rank " + std::to_string(cur));
    auto *q = new_req(sim_req_tag::SEND);
    q->buf = buf; q->bytes = (size_t)count * dt_of(dt).size; q->dt = dt; q->tag = tag; q->comm = c;
    q->world_src = c->members[dest];
    q->sum = q->bytes ? hash_bytes(buf, q->bytes) : 0;
    Msg *m = new Msg;
    m->src = cur; m->dst = q->world_src; m->tag = tag; m->comm = c; m->dt = dt; m->bytes = q->bytes; m->ptr = buf; m->serial = q->serial;
    m->eager = !sync && chance(eager_pc);
    m->sreq = q;
    if (q->bytes) payload_sent = true;
    note_crossing(m->dst);
    if (m->eager) { m->copy.assign((const char *)buf, q->bytes); q->complete = true; m->sreq = nullptr; sim::count("net.eager", 1); }
    else { q->msg = m; sim::count("net.rendezvous", 1); }
    (*links)[{m->src, m->dst, c->id}].push_back(m);
    return q;
}
static sim_req_tag *start_recv(void *buf, int count, MPI_Datatype dt, int src, int tag, MPI_Comm comm) {
    CommRec *c = comm_of(comm);
    if (src >= (int)c->members.size() || src < -1 || count < 0)
        violation("mpi-misuse:args", "receive from rank " + std::to_string(src) + " count " + std::to_string(count) + " by rank " + std::to_string(cur));
    auto *q = new_req(sim_req_tag::RECV);
    q->buf = buf; q->bytes = (size_t)count * dt_of(dt).size; q->dt = dt; q->tag = tag; q->comm = c;
    q->src = src; q->world_src = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : c->members[src];
    poison(q);
    Inbox &ib = (*inbox)[cur];
    for (auto it = ib.unexpected.begin(); it != ib.unexpected.end(); ++it) {
        Msg *m = *it;
        if (m->comm == c && (q->world_src == MPI_ANY_SOURCE || q->world_src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) {
            ib.unexpected.erase(it);
            match(m, q);
            return q;
        }
    }
    ib.posted.push_back(q);
    return q;
}

// ------------------------------------------------------------------ reductions
template <typename T> static void op_num(uintptr_t op, T *a, const T *b, size_t n) {
    for (size_t i = 0; i < n; i++) switch (op) {
        case 0x201: a[i] = a[i] + b[i]; break;
        case 0x202: a[i] = a[i] * b[i]; break;
        case 0x203: a[i] = a[i] < b[i] ? b[i] : a[i]; break;
        case 0x204: a[i] = b[i] < a[i] ? b[i] : a[i]; break;
        default: violation("mpi-misuse:op", "reduction operation not defined for this datatype");
    }
}
template <typename T> static void op_int(uintptr_t op, T *a, const T *b, size_t n) {
    if (op <= 0x204) {
        if (op == 0x201) { for (size_t i = 0; i < n; i++) a[i] = (T)((uint64_t)a[i] + (uint64_t)b[i]); return; }
        if (op == 0x202) { for (size_t i = 0; i < n; i++) a[i] = (T)((uint64_t)a[i] * (uint64_t)b[i]); return; }
        op_num<T>(op, a, b, n);
        return;
    }
    for (size_t i = 0; i < n; i++) switch (op) {
        case 0x207: a[i] = a[i] && b[i]; break;
        case 0x208: a[i] = a[i] || b[i]; break;
        case 0x209: a[i] = a[i] & b[i]; break;
        case 0x20a: a[i] = a[i] | b[i]; break;
        case 0x20b: a[i] = a[i] ^ b[i]; break;
        case 0x20c: a[i] = !a[i] != !b[i]; break;
        default: violation("mpi-misuse:op", "reduction operation not defined for this datatype");
    }
}
template <typename T> static void op_cplx(uintptr_t op, std::complex<T> *a, const std::complex<T> *b, size_t n) {
    for (size_t i = 0; i < n; i++) switch (op) {
        case 0x201: a[i] += b[i]; break;
        case 0x202: a[i] *= b[i]; break;
        default: violation("mpi-misuse:op", "reduction operation not defined for complex");
    }
}
template <typename T> struct VI { T v; int i; };
template <typename T> static void op_loc(uintptr_t op, VI<T> *a, const VI<T> *b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        bool take;
        if (op == 0x205) take = b[i].v > a[i].v;
        else if (op == 0x206) take = b[i].v < a[i].v;
        else violation("mpi-misuse:op", "only MAXLOC and MINLOC are defined for pair types");
        if (take) a[i] = b[i];
        else if (a[i].v == b[i].v && b[i].i < a[i].i) a[i].i = b[i].i;
    }
}
static void combine(uintptr_t op, MPI_Datatype dth, void *a, const void *b, size_t n, int crank) {
    const DT &d = dt_of(dth);
    if (op >= 0x1000) {
        UserOp &u = (*user_ops)[op - 0x1000];
        (void)crank;
        int len = (int)n;
        MPI_Datatype h = dth;
        u.f((void *)b, a, &len, &h);
        return;
    }
    switch (d.k) {
    case K_I8: op_int(op, (int8_t *)a, (const int8_t *)b, n); break;
    case K_U8: case K_BOOL: op_int(op, (uint8_t *)a, (const uint8_t *)b, n); break;
    case K_I16: op_int(op, (int16_t *)a, (const int16_t *)b, n); break;
    case K_U16: op_int(op, (uint16_t *)a, (const uint16_t *)b, n); break;
    case K_I32: op_int(op, (int32_t *)a, (const int32_t *)b, n); break;
    case K_U32: op_int(op, (uint32_t *)a, (const uint32_t *)b, n); break;
    case K_I64: op_int(op, (int64_t *)a, (const int64_t *)b, n); break;
    case K_U64: op_int(op, (uint64_t *)a, (const uint64_t *)b, n); break;
    case K_F: op_num(op, (float *)a, (const float *)b, n); break;
    case K_D: op_num(op, (double *)a, (const double *)b, n); break;
    case K_LD: op_num(op, (long double *)a, (const long double *)b, n); break;
    case K_CF: op_cplx(op, (std::complex<float> *)a, (const std::complex<float> *)b, n); break;
    case K_CD: op_cplx(op, (std::complex<double> *)a, (const std::complex<double> *)b, n); break;
    case K_CLD: op_cplx(op, (std::complex<long double> *)a, (const std::complex<long double> *)b, n); break;
    case K_2INT: op_loc(op, (VI<int> *)a, (const VI<int> *)b, n); break;
    case K_LONGINT: op_loc(op, (VI<long> *)a, (const VI<long> *)b, n); break;
    case K_FLOATINT: op_loc(op, (VI<float> *)a, (const VI<float> *)b, n); break;
    case K_DOUBLEINT: op_loc(op, (VI<double> *)a, (const VI<double> *)b, n); break;
    case K_LDINT: op_loc(op, (VI<long double> *)a, (const VI<long double> *)b, n); break;
    case K_SHORTINT: op_loc(op, (VI<short> *)a, (const VI<short> *)b, n); break;
    default: violation("mpi-misuse:op", std::string("reduction on datatype ") + d.name + " is not defined by MPI");
    }
}
static std::string reduce_all(Coll *c) {
    int n = c->part.size();
    std::vector<int> ord(n);
    for (int i = 0; i < n; i++) ord[i] = i;
    if (redorder == 1) std::reverse(ord.begin(), ord.end());
    else if (redorder == 2) for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[choose(i + 1)]);
    std::string acc = c->part[ord[0]].contrib;
    for (int k = 1; k < n; k++)
        combine((uintptr_t)c->op, c->dt, &acc[0], c->part[ord[k]].contrib.data(), c->count, 0);
    return acc;
}
// user-defined functions live in one rank's program image: run them in that rank's context
static void compute(Coll *c) {
    if (c->computed) return;
    c->computed = true;
    size_t bytes = c->dt ? (size_t)c->count * dt_of(c->dt).size : 0;
    int savecur = cur;
    if (c->op && (uintptr_t)c->op >= 0x1000) cur = (*user_ops)[(uintptr_t)c->op - 0x1000].rank;
    for (size_t i = 0; i < c->part.size(); i++) {
        Part &p = c->part[i];
        if (p.nb && (c->t == C_REDUCE || c->t == C_ALLREDUCE || (c->t == C_BCAST && (int)i == c->root))) {
            const void *src = p.inplace || c->t == C_BCAST ? p.rbuf : p.sbuf;
            if (bytes && hash_bytes(src, bytes) != p.sum) {
                std::ostringstream os;
                os << "rank " << c->comm->members[i] << " changed or freed the input buffer of a nonblocking " << cname[c->t] << " before it completed";
                violation("mpi-misuse:coll-buffer-in-flight", os.str());
            }
            p.contrib.assign((const char *)src, bytes);
        }
    }
    switch (c->t) {
    case C_REDUCE: case C_ALLREDUCE: c->result = reduce_all(c); break;
    case C_BCAST: c->result = c->part[c->root].contrib; break;
    case C_SPLIT: {
        std::map<int, std::vector<int>> g;
        for (size_t i = 0; i < c->part.size(); i++) if (c->part[i].color != MPI_UNDEFINED) g[c->part[i].color].push_back(i);
        c->newcomm.assign(c->part.size(), nullptr);
        for (auto &kv : g) {
            auto &v = kv.second;
            std::stable_sort(v.begin(), v.end(), [&](int a, int b) { return c->part[a].key < c->part[b].key; });
            auto n = std::make_unique<CommRec>();
            n->id = comms->size();
            for (int i : v) { n->members.push_back(c->comm->members[i]); n->next.push_back(0); }
            comms->push_back(std::move(n));
            for (int i : v) c->newcomm[i] = comms->back().get();
        }
        break;
    }
    default: break;
    }
    cur = savecur;
}
static Coll *coll_enter(CType t, bool nb, CommRec *cm, int count, MPI_Datatype dt, MPI_Op op, int root) {
    note_coll_crossing(cm);
    int me = cm->rank_of(cur);
    long ix = cm->next[me]++;
    auto &slot = cm->coll[ix];
    std::ostringstream os;
    if (!slot) {
        slot = std::make_unique<Coll>();
        slot->t = t; slot->nb = nb; slot->count = count; slot->dt = dt; slot->op = op; slot->root = root; slot->comm = cm; slot->index = ix;
        slot->part.resize(cm->members.size());
    } else {
        Coll *c = slot.get();
        bool userop = (uintptr_t)op >= 0x1000 && (uintptr_t)c->op >= 0x1000;
        bool dtok = c->dt == dt || (c->dt && dt && same_dt(c->dt, dt)) ||
                    (c->dt && dt && dt_of(c->dt).k == K_USER && dt_of(dt).k == K_USER && dt_of(c->dt).size == dt_of(dt).size);
        if (c->t != t || c->nb != nb || c->root != root || c->count != count || !dtok || (!userop && c->op != op)) {
            os << "collective mismatch on communicator " << cm->id << ": rank " << cur << " calls " << cname[t] << "(count " << count << ", "
               << (dt ? dt_of(dt).name : "-") << ", root " << root << ", op " << (uintptr_t)op << ") while another rank called " << cname[c->t]
               << "(count " << c->count << ", " << (c->dt ? dt_of(c->dt).name : "-") << ", root " << c->root << ", op " << (uintptr_t)c->op << ")";
            violation("mpi-misuse:collective-mismatch", os.str());
        }
    }
    Coll *c = slot.get();
    if (root < 0 || root >= (int)cm->members.size()) violation("mpi-misuse:args", std::string("bad root in ") + cname[t]);
    c->part[me].in = true;
    c->part[me].nb = nb;
    c->arrived++;
    return c;
}
static void coll_leave(Coll *c) {
    if (++c->left == (int)c->part.size()) c->comm->coll.erase(c->index);
}
static bool all_in(Coll *c) { return c->arrived == (int)c->part.size(); }

static int do_coll(CType t, const void *sbuf, void *rbuf, int count, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm comm, MPI_Request *req) {
    CommRec *cm = comm_of(comm);
    int me = cm->rank_of(cur);
    if (count < 0) violation("mpi-misuse:args", "negative count in a collective");
    size_t bytes = dt ? (size_t)count * dt_of(dt).size : 0;
    Coll *c = coll_enter(t, req != nullptr, cm, count, dt, op, root);
    Part &p = c->part[me];
    p.sbuf = sbuf; p.rbuf = rbuf; p.inplace = sbuf == MPI_IN_PLACE;
    if (p.inplace && t == C_REDUCE && me != root) violation("mpi-misuse:args", "MPI_IN_PLACE given by a rank which is not the root of MPI_Reduce");
    const void *src = t == C_BCAST ? rbuf : p.inplace ? rbuf : sbuf;
    bool contributes = t == C_REDUCE || t == C_ALLREDUCE || (t == C_BCAST && me == root);
    bool receives = t == C_ALLREDUCE || (t == C_REDUCE && me == root) || (t == C_BCAST && me != root);
    if (!p.inplace && (t == C_REDUCE || t == C_ALLREDUCE) && receives && bytes && sbuf == rbuf)
        violation("mpi-misuse:alias", "send and receive buffers of a reduction are the same; MPI_IN_PLACE is required");
    if (contributes && bytes) {
        p.sum = hash_bytes(src, bytes);
        if (!req) p.contrib.assign((const char *)src, bytes);
    }
    if (receives && bytes && poison_on && !(contributes && src == rbuf))
        for (size_t i = 0; i < bytes; i++) ((unsigned char *)rbuf)[i] = poison_byte(i);
    if (req) {
        auto *q = new_req(sim_req_tag::COLL);
        q->coll = c; q->comm = cm; q->tag = me;
        p.req = q;
        *req = q;
        if (all_in(c)) nbready->push_back(c);
        return MPI_SUCCESS;
    }
    // blocking: who may leave when
    bool early = (t == C_BCAST && me == root) || (t == C_REDUCE && me != root);
    if (early && cm->members.size() > 1) {
        if (chance(50)) {
            sim::count("net.early_exit_collective", 1);
        } else block(cname[t], [c] { return all_in(c); });
    } else if (t == C_BCAST) block(cname[t], [c] { return c->part[c->root].in; });
    else block(cname[t], [c] { return all_in(c); });
    if (receives) {
        if (t == C_BCAST) {
            if (bytes) memcpy(rbuf, c->part[root].contrib.data(), bytes);
        } else {
            compute(c);
            if (bytes) memcpy(rbuf, c->result.data(), bytes);
        }
    }
    coll_leave(c);
    event("coll_done", (long)t, me);
    yield_point();
    return MPI_SUCCESS;
}
static void finish_req(sim_req_tag *q, MPI_Status *st) {
    if (q->k == sim_req_tag::SEND) check_send(q, "at completion");
    if (st) { if (q->k == sim_req_tag::RECV) *st = q->st; else memset(st, 0, sizeof *st); st->_cancelled = q->cancelled; }
    release(q);
}

// ------------------------------------------------------------------ scheduler interface
enum { A_ARRIVE = 1, A_DELIVER, A_NBCOMPUTE, A_NBDONE };
void mpi_actions(std::vector<Action> &out) {
    for (auto &kv : *links) if (!kv.second.empty()) out.push_back({A_ARRIVE, &kv.second, -1});
    for (Msg *m : *matched) out.push_back({A_DELIVER, m, -1});
    for (Coll *c : *nbready) out.push_back({A_NBCOMPUTE, c, -1});
    int k = 0;
    for (auto &x : *nbdone) { (void)x; out.push_back({A_NBDONE, nullptr, k++}); }
}
void mpi_perform(const Action &a) {
    if (a.kind == A_ARRIVE) {
        auto *q = (std::deque<Msg *> *)a.p;
        Msg *m = q->front();
        q->pop_front();
        event("net.arrive", m->src, m->dst, m->tag);
        arrive(m);
    } else if (a.kind == A_DELIVER) {
        Msg *m = (Msg *)a.p;
        matched->remove(m);
        event("net.deliver", m->src, m->dst, m->tag);
        deliver(m);
    } else if (a.kind == A_NBCOMPUTE) {
        Coll *c = (Coll *)a.p;
        nbready->remove(c);
        event("net.nbcoll", c->index);
        compute(c);
        for (size_t i = 0; i < c->part.size(); i++) nbdone->push_back({c, (int)i});
    } else if (a.kind == A_NBDONE) {
        auto it = nbdone->begin();
        std::advance(it, a.rank);
        Coll *c = it->first;
        int i = it->second;
        nbdone->erase(it);
        Part &p = c->part[i];
        event("net.nbdone", c->index, i);
        bool receives = c->t == C_ALLREDUCE || (c->t == C_REDUCE && i == c->root) || (c->t == C_BCAST && i != c->root);
        if (receives && !c->result.empty()) memcpy(p.rbuf, c->result.data(), c->result.size());
        if (p.req) { p.req->complete = true; p.req->coll = nullptr; if (p.req->freed) release(p.req); }
        coll_leave(c);
    }
}
void mpi_reset(int n) {
    for (int i = 0; i < MAXR; i++) { group_of[i] = -1; crossings[i] = 0; }
    user_dt = new std::vector<DT>;
    user_ops = new std::vector<UserOp>;
    comms = new std::vector<std::unique_ptr<CommRec>>;
    auto w = std::make_unique<CommRec>();
    w->id = 0;
    for (int i = 0; i < n; i++) { w->members.push_back(i); w->next.push_back(0); }
    comms->push_back(std::move(w));
    links = new std::map<std::tuple<int, int, int>, std::deque<Msg *>>;
    inbox = new std::vector<Inbox>(n);
    matched = new std::list<Msg *>;
    nbready = new std::list<Coll *>;
    nbdone = new std::list<std::pair<Coll *, int>>;
    live = new std::list<sim_req_tag *>;
    msg_serial = 0;
    eager_pc = P("eager", 50);
    redorder = P("redorder", 0);
    poison_on = P("poison", 1);
}
} // namespace sim

extern "C" {
void sim_group(int g) { group_of[cur] = g; }
long sim_crossings() { return crossings[cur]; }
int MPI_Init_thread(int *, char ***, int lvl, int *prov) {
    Rank &r = ranks[cur];
    event("MPI_Init");
    if (r.inited) violation("mpi-misuse:state", "MPI_Init called twice");
    r.inited = true;
    if (prov) *prov = lvl;
    yield_point();
    return 0;
}
int MPI_Init(int *a, char ***b) { int p; return MPI_Init_thread(a, b, 0, &p); }
int MPI_Initialized(int *f) { *f = ranks[cur].inited; return 0; }
int MPI_Finalized(int *f) { *f = ranks[cur].finalized; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize(void) {
    enter("MPI_Finalize");
    if (P("strict", 1)) {
        for (auto *q : *live)
            if (q->rank == cur && !q->freed) {
                std::ostringstream os;
                os << "rank " << cur << " calls MPI_Finalize with a " << (q->k == sim_req_tag::SEND ? "send" : q->k == sim_req_tag::RECV ? "receive" : "collective")
                   << " request that was never completed (peer " << q->world_src << " tag " << q->tag << ")";
                violation("mpi-misuse:request-leak", os.str());
            }
    }
    CommRec *cm = (*comms)[0].get();
    Coll *c = coll_enter(C_FINALIZE, false, cm, 0, nullptr, nullptr, 0);
    ranks[cur].in_finalize = true;
    block("Finalize", [c] { return all_in(c); });
    if (P("strict", 1)) {
        for (auto &kv : *links) for (Msg *m : kv.second) if (m->dst == cur || m->src == cur) {
            std::ostringstream os;
            os << "message from rank " << m->src << " to rank " << m->dst << " tag " << m->tag << " was never received";
            violation("mpi-misuse:unreceived-message", os.str());
        }
        if (!(*inbox)[cur].unexpected.empty()) {
            Msg *m = (*inbox)[cur].unexpected.front();
            std::ostringstream os;
            os << "message from rank " << m->src << " to rank " << m->dst << " tag " << m->tag << " was never received";
            violation("mpi-misuse:unreceived-message", os.str());
        }
    }
    coll_leave(c);
    ranks[cur].finalized = true;
    return 0;
}
int MPI_Abort(MPI_Comm, int code) {
    event("MPI_Abort", code);
    ranks[cur].finalized = false;
    rank_exit(code ? code : 1, "MPI_Abort");
}
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = comm_of(c)->rank_of(cur); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = comm_of(c)->members.size(); return 0; }
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out) {
    enter("MPI_Comm_split", color, key);
    CommRec *cm = comm_of(comm);
    int me = cm->rank_of(cur);
    Coll *c = coll_enter(C_SPLIT, false, cm, 0, nullptr, nullptr, 0);
    c->part[me].color = color; c->part[me].key = key;
    block("Comm_split", [c] { return all_in(c); });
    compute(c);
    *out = c->newcomm[me] ? SIM_H(MPI_Comm, 0x400 + c->newcomm[me]->id) : MPI_COMM_NULL;
    coll_leave(c);
    return 0;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out) { CommRec *c = comm_of(comm); return MPI_Comm_split(comm, 0, c->rank_of(cur), out); }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return (int)(uintptr_t)c; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "simhost"); *l = 7; return 0; }
double MPI_Wtime(void) { event("MPI_Wtime"); return now_ns(cur) * 1e-9; }
double MPI_Wtick(void) { return 1e-9; }

int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) {
    enter("MPI_Bcast", n, root);
    return do_coll(C_BCAST, nullptr, b, n, d, nullptr, root, c, nullptr);
}
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request *q) {
    enter("MPI_Ibcast", n, root);
    return do_coll(C_BCAST, nullptr, b, n, d, nullptr, root, c, q);
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) {
    enter("MPI_Reduce", n, root);
    return do_coll(C_REDUCE, s, r, n, d, op, root, c, nullptr);
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) {
    enter("MPI_Allreduce", n);
    return do_coll(C_ALLREDUCE, s, r, n, d, op, 0, c, nullptr);
}
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c, MPI_Request *q) {
    enter("MPI_Ireduce", n, root);
    return do_coll(C_REDUCE, s, r, n, d, op, root, c, q);
}
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c, MPI_Request *q) {
    enter("MPI_Iallreduce", n);
    return do_coll(C_ALLREDUCE, s, r, n, d, op, 0, c, q);
}
int MPI_Barrier(MPI_Comm c) { enter("MPI_Barrier"); return do_coll(C_BARRIER, nullptr, nullptr, 0, nullptr, nullptr, 0, c, nullptr); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { enter("MPI_Ibarrier"); return do_coll(C_BARRIER, nullptr, nullptr, 0, nullptr, nullptr, 0, c, q); }
// gather family: implemented on point-to-point copies with the same agreement checks
static int gather_like(CType t, const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm comm) {
    enter(cname[t], sn, rn, root);
    CommRec *cm = comm_of(comm);
    int me = cm->rank_of(cur), n = cm->members.size();
    Coll *c = coll_enter(t, false, cm, t == C_SCATTER ? rn : sn, t == C_SCATTER ? rd : sd, nullptr, root);
    Part &p = c->part[me];
    size_t sb = (size_t)sn * dt_of(sd).size, rb = (size_t)rn * dt_of(rd).size;
    if (s == MPI_IN_PLACE) { s = (char *)r + me * rb; sb = rb; }
    if (t == C_SCATTER) { if (me == root) p.contrib.assign((const char *)s, sb * n); }
    else p.contrib.assign((const char *)s, t == C_ALLTOALL ? sb * n : sb);
    block(cname[t], [c] { return all_in(c); });
    if (t == C_GATHER || t == C_ALLGATHER) {
        if (t == C_ALLGATHER || me == root) for (int i = 0; i < n; i++) memcpy((char *)r + i * rb, c->part[i].contrib.data(), std::min(rb, c->part[i].contrib.size()));
    } else if (t == C_SCATTER) memcpy(r, c->part[root].contrib.data() + me * rb, rb);
    else for (int i = 0; i < n; i++) memcpy((char *)r + i * rb, c->part[i].contrib.data() + me * rb, rb);
    coll_leave(c);
    yield_point();
    return 0;
}
int MPI_Gather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return gather_like(C_GATHER, s, sn, sd, r, rn, rd, root, c); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c) { return gather_like(C_ALLGATHER, s, sn, sd, r, rn, rd, 0, c); }
int MPI_Scatter(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return gather_like(C_SCATTER, s, sn, sd, r, rn, rd, root, c); }
int MPI_Alltoall(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c) { return gather_like(C_ALLTOALL, s, sn, sd, r, rn, rd, 0, c); }

int MPI_Wait(MPI_Request *rq, MPI_Status *st) {
    enter("MPI_Wait");
    sim_req_tag *q = *rq;
    if (!q) return 0;
    block("Wait", [q] { return q->complete; });
    finish_req(q, st);
    *rq = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Waitall(int n, MPI_Request *a, MPI_Status *st) {
    enter("MPI_Waitall", n);
    for (int i = 0; i < n; i++) {
        sim_req_tag *q = a[i];
        if (!q) continue;
        block("Waitall", [q] { return q->complete; });
        finish_req(q, st ? st + i : nullptr);
        a[i] = MPI_REQUEST_NULL;
    }
    return 0;
}
int MPI_Waitany(int n, MPI_Request *a, int *ix, MPI_Status *st) {
    enter("MPI_Waitany", n);
    bool any = false;
    for (int i = 0; i < n; i++) if (a[i]) any = true;
    if (!any) { *ix = MPI_UNDEFINED; return 0; }
    block("Waitany", [=] { for (int i = 0; i < n; i++) if (a[i] && a[i]->complete) return true; return false; });
    std::vector<int> r;
    for (int i = 0; i < n; i++) if (a[i] && a[i]->complete) r.push_back(i);
    int k = r[choose(r.size())];
    finish_req(a[k], st);
    a[k] = MPI_REQUEST_NULL;
    *ix = k;
    return 0;
}
int MPI_Test(MPI_Request *rq, int *f, MPI_Status *st) {
    enter("MPI_Test");
    sim_req_tag *q = *rq;
    if (!q) { *f = 1; return 0; }
    if (q->complete) { finish_req(q, st); *rq = MPI_REQUEST_NULL; *f = 1; }
    else *f = 0;
    return 0;
}
int MPI_Testall(int n, MPI_Request *a, int *f, MPI_Status *st) {
    enter("MPI_Testall", n);
    for (int i = 0; i < n; i++) if (a[i] && !a[i]->complete) { *f = 0; return 0; }
    for (int i = 0; i < n; i++) if (a[i]) { finish_req(a[i], st ? st + i : nullptr); a[i] = MPI_REQUEST_NULL; }
    *f = 1;
    return 0;
}
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->_cancelled; return 0; }
int MPI_Cancel(MPI_Request *rq) {
    enter("MPI_Cancel");
    sim_req_tag *q = *rq;
    if (!q || q->complete) return 0;
    if (q->k == sim_req_tag::RECV && !q->msg) { (*inbox)[q->rank].posted.remove(q); q->cancelled = true; q->complete = true; }
    return 0;
}
int MPI_Request_free(MPI_Request *rq) {
    enter("MPI_Request_free");
    if (*rq) (*rq)->freed = true;
    *rq = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *q) {
    enter("MPI_Isend", n, dst, tag);
    *q = start_send(b, n, d, dst, tag, c, false);
    return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request *q) {
    enter("MPI_Irecv", n, src, tag);
    *q = start_recv(b, n, d, src, tag, c);
    return 0;
}
static int send_blocking(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, bool sync) {
    auto *q = start_send(b, n, d, dst, tag, c, sync);
    block("Send", [q] { return q->complete; });
    finish_req(q, nullptr);
    return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { enter("MPI_Send", n, dst, tag); return send_blocking(b, n, d, dst, tag, c, false); }
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { enter("MPI_Ssend", n, dst, tag); return send_blocking(b, n, d, dst, tag, c, true); }
int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status *st) {
    enter("MPI_Recv", n, src, tag);
    auto *q = start_recv(b, n, d, src, tag, c);
    block("Recv", [q] { return q->complete; });
    finish_req(q, st);
    return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int stag, void *rb, int rn, MPI_Datatype rd, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    enter("MPI_Sendrecv", sn, dst, src);
    auto *r = start_recv(rb, rn, rd, src, rtag, c);
    auto *s = start_send(sb, sn, sd, dst, stag, c, false);
    block("Sendrecv", [r, s] { return r->complete && s->complete; });
    finish_req(s, nullptr);
    finish_req(r, st);
    return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype d, int *n) { *n = s->_ucount / dt_of(d).size; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)(intptr_t)p; return 0; }
int MPI_Type_create_struct(int n, const int *len, const MPI_Aint *disp, const MPI_Datatype *t, MPI_Datatype *out) {
    size_t ext = 0;
    for (int i = 0; i < n; i++) ext = std::max(ext, (size_t)disp[i] + len[i] * dt_of(t[i]).size);
    user_dt->push_back({K_USER, ext, "struct"});
    *out = SIM_H(MPI_Datatype, 0x1000 + user_dt->size() - 1);
    return 0;
}
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *out) {
    user_dt->push_back({K_USER, n * dt_of(t).size, "contiguous"});
    *out = SIM_H(MPI_Datatype, 0x1000 + user_dt->size() - 1);
    return 0;
}
int MPI_Type_commit(MPI_Datatype *) { return 0; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { *n = dt_of(t).size; return 0; }
int MPI_Op_create(MPI_User_function *f, int, MPI_Op *out) {
    user_ops->push_back({f, cur});
    *out = SIM_H(MPI_Op, 0x1000 + user_ops->size() - 1);
    return 0;
}
int MPI_Op_free(MPI_Op *o) { *o = MPI_OP_NULL; return 0; }
}
