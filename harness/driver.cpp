// Conformance driver: executes a script of API operations against the
// trace-db sources of /repo and prints one JSON line per operation with what
// was observed.  It contains no expectations; the TLA+ specification decides.
//
// Only the C interface and the C++ interface used by the repository's own
// tests are used.
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include "MemoryMap.hpp"
#include "QueryObjects.hpp"
#include "TypeDescription.hpp"
#include "TraceVarInfo.hpp"
#include "TracePoint.hpp"
#include "Trace.hpp"
#include "TraceDB.hpp"
#include "trace.h"
#include "trace-db.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

typedef std::vector<unsigned char> Bytes;

// ------------------------------------------------------------------ memory
// The sanitizer's operator new ends the process when memory is refused; the
// real one throws.
#ifdef VERIF_SCHED
static void alloc_point();
#else
static inline void alloc_point() {}
#endif
void *operator new(size_t n) { alloc_point(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- rand()
// The height of skip list nodes is drawn with rand(); scripts may fix the
// outcomes ("1" = grow) to steer the structure.
static std::vector<int> g_rand_bits;
static size_t g_rand_pos = 0;
#ifndef VERIF_FREE
static thread_local unsigned long long g_rand_state = 88172645463325252ull;
extern "C" int rand(void)
{
    if (g_rand_pos < g_rand_bits.size())
        return g_rand_bits[g_rand_pos++] ? 0 : RAND_MAX;
    g_rand_state ^= g_rand_state << 13;
    g_rand_state ^= g_rand_state >> 7;
    g_rand_state ^= g_rand_state << 17;
    return (int)(g_rand_state & RAND_MAX);
}
#endif

// ---------------------------------------------------------------- output
static std::string g_out;
static void flush_out()
{
    size_t off = 0;
    while (off < g_out.size()) {
        ssize_t n = write(1, g_out.data() + off, g_out.size() - off);
        if (n <= 0) _exit(3);
        off += n;
    }
    g_out.clear();
}
static void put(const char *s) { g_out += s; }
// (the specification's integers end at 2^31 - 1; words are byte sequences)
static void putn(unsigned long long v) {
    if (v > 2147483647ull) v = 2147483647ull;
    g_out += std::to_string(v); }
static void putbytes(const void *p, size_t n)
{
    const unsigned char *b = (const unsigned char *) p;
    g_out += '[';
    for (size_t i = 0; i < n; i++) {
        if (i) g_out += ',';
        g_out += std::to_string((unsigned) b[i]);
    }
    g_out += ']';
}
static void putw(uint64_t v) { putbytes(&v, 8); }

// ---------------------------------------------------------------- dumps
static void put_point(const c_trace_point_struct & p, bool blobs = true)
{
    put("{\"stmt\":"); putw(p.statement);
    put(",\"aux\":[");
    for (uint32_t i = 0; i < p.n_aux; i++) { if (i) put(","); putw(p.aux[i]); }
    put("],\"vars\":[");
    for (uint32_t i = 0; i < p.n_vars; i++) {
        const c_trace_var_info_struct & v = p.vars[i];
        if (i) put(",");
        put("{\"n\":"); putn(v.var_name_index);
        put(",\"tn\":"); putn(v.type_name_index);
        put(",\"f\":"); putn(v.format);
        put(",\"size\":"); putn(v.size);
        put(",\"val\":");
        if (v.format == BLOB) putbytes(v.value.ptr, blobs ? v.size : 0);
        else putw(v.value.u);
        put(",\"has\":"); put(v.has_buffer_size ? "true" : "false");
        put(",\"buf\":"); putw(v.buffer_size);
        put("}");
    }
    put("]}");
}

static void put_trace(const void *h)
{
    const Trace *t = (const Trace *) h;
    uint32_t nn = n_names(h), nt = n_types(h);
    uint64_t np = trace_size(h);
    const char **names = get_names(h);
    const char **types = get_types(h);
    c_trace_point_struct *pts = get_points(h);
    put("{\"names\":[");
    for (uint32_t i = 0; i < nn; i++) { if (i) put(","); putbytes(names[i], strlen(names[i])); }
    put("],\"tnames\":[");
    for (uint32_t i = 0; i < nt; i++) { if (i) put(","); putbytes(types[i], strlen(types[i])); }
    put("],\"types\":[");
    for (uint32_t i = 0; i < t->getTypes().size(); i++) {
        const TypeDescription & d = t->getTypes()[i];
        if (i) put(",");
        put("{\"name\":"); putn(d.getNameIndex());
        put(",\"fmt\":"); putn(d.getTypeFormat());
        put(",\"size\":"); putn(d.getSize()); put("}");
    }
    put("],\"points\":[");
    for (uint64_t i = 0; i < np; i++) { if (i) put(","); put_point(pts[i]); }
    put("],\"sizes\":[");
    {
        bool first = true;
        for (auto & p : t->getPoints()) {
            if (!first) put(",");
            first = false;
            put("[");
            bool f2 = true;
            for (auto & s : p.getBufferSizes()) {
                if (!f2) put(",");
                f2 = false;
                put("["); putw(s.getAddress()); put(","); putw(s.getSize()); put("]");
            }
            put("]");
        }
    }
    put("]}");
    free_trace_points(pts, np);
    free(names);
    free(types);
}

// ---------------------------------------------------------------- state
static std::map<int, void *> dbs, traces;
static std::map<int, std::string> texts;
static std::map<int, Bytes> files;
static std::map<int, MemoryMap *> maps;
struct Held { c_trace_point_struct *p; uint64_t n; };
static std::map<int, Held> held;
static std::string workdir;

// An operation whose subject does not exist (because an earlier operation
// failed) is skipped; whether the failure was right is decided elsewhere.
struct Skip {};
template <class M> static typename M::mapped_type & need(M & m, int k)
{
    auto i = m.find(k);
    if (i == m.end()) throw Skip();
    return i->second;
}
static const void *nth_trace(void *db, uint32_t i)
{
    if (i >= n_traces(db)) throw Skip();
    return get_trace(db, i);
}

static const Trace *tref(std::istream & in)
{
    // t <handle> | d <db> <index>
    std::string k; in >> k;
    int a; in >> a;
    if (k == "t") return (const Trace *) need(traces, a);
    uint32_t i; in >> i;
    return (const Trace *) nth_trace(need(dbs, a), i);
}

static uint64_t hex64(std::istream & in)
{
    std::string s; in >> s;
    return strtoull(s.c_str(), NULL, 16);
}

static Bytes unhex(const std::string & s)
{
    Bytes b;
    if (s == "-") return b;
    b.reserve(s.size() / 2);
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        b.push_back((unsigned char) strtoul(s.substr(i, 2).c_str(), NULL, 16));
    return b;
}

static std::string path_of(int id, long cut)
{
    const Bytes & b = need(files, id);
    size_t n = cut < 0 || (size_t) cut > b.size() ? b.size() : (size_t) cut;
    std::string p = workdir + "/trace.bin";
    FILE *f = fopen(p.c_str(), "wb");
    if (n) fwrite(b.data(), 1, n, f);
    fclose(f);
    return p;
}

// A stream which delivers its bytes in pieces of a given size
class ChunkBuf : public std::streambuf
{
    Bytes m_b; size_t m_pos, m_chunk;
public:
    ChunkBuf(const Bytes & b, size_t n, size_t chunk) :
        m_b(b.begin(), b.begin() + n), m_pos(0), m_chunk(chunk) {}
    int_type underflow() {
        if (m_pos >= m_b.size()) return traits_type::eof();
        size_t n = std::min(m_chunk, m_b.size() - m_pos);
        setg((char *) m_b.data() + m_pos, (char *) m_b.data() + m_pos,
             (char *) m_b.data() + m_pos + n);
        m_pos += n;
        return traits_type::to_int_type(*gptr());
    }
};

// ------------------------------------------------------------ predicates
// N | P <kind> <data hex64> <n> <children...>
static bool parse_pred(std::istream & in, c_predicate *p)
{
    std::string k; in >> k;
    memset(p, 0, sizeof(*p));
    if (k == "N") { p->kind = NULL_PREDICATE; return false; }
    int kind; in >> kind;
    uint64_t data = hex64(in);
    uint64_t n; in >> n;
    p->kind = (enum predicate_kind) kind;
    p->n_children = n;
    // Fields which do not belong to the kind are filled with noise: they must
    // not matter.
    p->var_index = 0x5151; p->unsigned_value = 0x5252; p->signed_value = -0x5353;
    p->float_value = 7.25;
    if (kind == VAR_REFERENCE) p->var_index = data;
    else if (kind == UNSIGNED_VALUE) p->unsigned_value = data;
    else if (kind == SIGNED_VALUE) p->signed_value = (int64_t) data;
    else if (kind == FLOAT_VALUE) memcpy(&p->float_value, &data, 8);
    if (n) {
        p->children = (c_predicate *) calloc(n, sizeof(c_predicate));
        for (uint64_t i = 0; i < n; i++) parse_pred(in, p->children + i);
    }
    return true;
}

static c_predicate *read_pred(std::istream & in)
{
    c_predicate *p = (c_predicate *) malloc(sizeof(c_predicate));
    if (!parse_pred(in, p)) { free(p); return NULL; }
    return p;
}

static int count_fds()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

// The same query through the C++ interface
static Predicate cxx_pred(const c_predicate *p)
{
    if (!p || p->kind == NULL_PREDICATE) return Predicate();
    Predicates ch;
    union predicate_data data;
    data.n_children = p->n_children;
    for (uint64_t i = 0; i < p->n_children; i++) ch.push_back(cxx_pred(p->children + i));
    if (p->kind == VAR_REFERENCE) data.var_index = p->var_index;
    else if (p->kind == UNSIGNED_VALUE) data.unsigned_value = p->unsigned_value;
    else if (p->kind == SIGNED_VALUE) data.signed_value = p->signed_value;
    else if (p->kind == FLOAT_VALUE) data.float_value = p->float_value;
    return Predicate(p->kind, data, ch);
}
static bool same_results(const TracePoints & a, const c_trace_point_struct *b, uint64_t n)
{
    if (a.size() != n) return false;
    for (uint64_t i = 0; i < n; i++) {
        if (a[i].getStatement() != b[i].statement || a[i].getVars().size() != b[i].n_vars) return false;
        for (uint32_t j = 0; j < b[i].n_vars; j++) {
            const TraceVarInfo & v = a[i].getVars()[j].get();
            const c_trace_var_info_struct & w = b[i].vars[j];
            if (v.getNameIndex() != w.var_name_index || v.getTypeFormat() != w.format || v.getSize() != w.size
                || (v.hasBufferSize() != 0) != (w.has_buffer_size != 0)
                || (w.has_buffer_size && v.getBufferSize() != w.buffer_size)) return false;
            if (w.format == BLOB ? memcmp(v.getValue().ptr, w.value.ptr, w.size) != 0
                                 : v.getValue().u != w.value.u) return false;
        }
    }
    return true;
}

static void do_query(std::istream & in, int hold = -1)
{
    int d; uint64_t idx; uint32_t nv;
    in >> d >> idx >> nv;
    std::vector<c_free_variable> fv(nv);
    for (auto & v : fv) {
        in >> v.n_allowed_types;
        v.allowed_types = (uint32_t *) malloc(sizeof(uint32_t) * (v.n_allowed_types + 1));
        for (uint32_t i = 0; i < v.n_allowed_types; i++) in >> v.allowed_types[i];
    }
    c_predicate *hard = read_pred(in);
    uint32_t ns; in >> ns;
    std::vector<c_predicate *> soft(ns);
    for (auto & s : soft) s = read_pred(in);
    uint32_t seed; unsigned keep;
    in >> seed >> keep;
    uint64_t mask = hex64(in), stmt = hex64(in);
    c_trace_point_struct *res = NULL;
    uint64_t n = 0;
    nth_trace(need(dbs, d), idx);
    query_trace(need(dbs, d), idx, fv.data(), nv, hard,
                (const c_predicate **) soft.data(), ns, seed, keep, mask, stmt, &res, &n);
    if (keep) {
        FreeVariables cv;
        Predicates cs;
        for (auto & v : fv) cv.push_back(FreeVariable(std::vector<uint32_t>(v.allowed_types, v.allowed_types + v.n_allowed_types)));
        for (auto & s : soft) cs.push_back(cxx_pred(s));
        const TraceDB *db = (const TraceDB *) need(dbs, d);
        put("\"cxx\":"); put(same_results(db->query(idx, cv, cxx_pred(hard), cs, seed, mask, stmt), res, n) ? "true," : "false,");
    } else put("\"cxx\":true,");
    // the caller's query structures may be released at once
    if (hard) free_c_predicate(hard);
    for (auto & s : soft) if (s) free_c_predicate(s);
    for (auto & v : fv) free(v.allowed_types);
    put("\"res\":[");
    for (uint64_t i = 0; i < n; i++) { if (i) put(","); put_point(res[i]); }
    put("]");
    if (hold >= 0) { Held h = {res, n}; held[hold] = h; }
    else free_trace_points(res, n);
}

// A trace made of C++ objects
static Trace *build_trace(std::istream & in)
{
    size_t n;
    std::string h;
    Names names;
    TypeDescriptions types;
    TracePoints points;
    in >> n;
    for (size_t i = 0; i < n; i++) { in >> h; Bytes b = unhex(h); names.push_back(std::string(b.begin(), b.end())); }
    in >> n;
    for (size_t i = 0; i < n; i++) {
        uint32_t nm, f, s; in >> nm >> f >> s;
        types.push_back(TypeDescription(nm, (type_format) f, s));
    }
    in >> n;
    for (size_t i = 0; i < n; i++) {
        size_t k;
        TraceBufferSizes sizes;
        FlyweightTraceVarInfos vars;
        Aux aux;
        uint64_t stmt = hex64(in);
        in >> k;
        for (size_t j = 0; j < k; j++) aux.push_back(hex64(in));
        in >> k;
        for (size_t j = 0; j < k; j++) { uint64_t a = hex64(in), s = hex64(in); sizes.push_back(TraceBufferSize(a, s)); }
        in >> k;
        for (size_t j = 0; j < k; j++) {
            uint32_t nm, t, f, s, has;
            in >> nm >> t >> f >> s >> has;
            uint64_t buf = hex64(in);
            VarValue v;
            v.u = 0;
            if (f == BLOB) {
                in >> h;
                Bytes b = unhex(h);
                v.ptr = malloc(b.size());
                if (!b.empty()) memcpy(v.ptr, b.data(), b.size());
            } else v.u = hex64(in);
            vars.push_back(FlyweightTraceVarInfo(v, nm, t, (type_format) f, s, buf, (uint8_t) has));
            // the contents of blobs are the caller's to release
            if (f == BLOB) free(v.ptr);
        }
        points.push_back(TracePoint(i, stmt, sizes, vars, aux));
    }
    return new Trace(names, types, points);
}

static void do_points(std::istream & in)
{
    int d; uint32_t nn; uint64_t np;
    in >> d >> nn;
    std::vector<std::string> names(nn);
    std::vector<char *> cn(nn);
    for (uint32_t i = 0; i < nn; i++) {
        std::string h; in >> h;
        Bytes b = unhex(h);
        names[i] = std::string(b.begin(), b.end());
        cn[i] = (char *) names[i].c_str();
    }
    in >> np;
    std::vector<c_trace_point_struct> pts(np);
    std::vector<std::vector<c_trace_var_info_struct>> vars(np);
    std::vector<std::vector<uint64_t>> aux(np);
    for (uint64_t i = 0; i < np; i++) {
        memset(&pts[i], 0, sizeof(pts[i]));
        pts[i].statement = hex64(in);
        uint32_t na, nv;
        in >> na;
        for (uint32_t j = 0; j < na; j++) aux[i].push_back(hex64(in));
        in >> nv;
        for (uint32_t j = 0; j < nv; j++) {
            c_trace_var_info_struct v;
            memset(&v, 0, sizeof(v));
            unsigned has;
            in >> v.var_name_index >> v.type_name_index;
            v.value.u = hex64(in);
            in >> has; v.has_buffer_size = has;
            v.buffer_size = hex64(in);
            v.size = 8;
            vars[i].push_back(v);
        }
        pts[i].n_aux = na; pts[i].aux = aux[i].data();
        pts[i].n_vars = nv; pts[i].vars = vars[i].data();
    }
    int r = add_trace_points(need(dbs, d), pts.data(), np, cn.data(), nn);
    put("\"ret\":"); put(r ? "true" : "false");
}

static void feed_fifo(const std::string & path, Bytes b, std::vector<size_t> chunks,
                      const std::atomic<bool> *hold = NULL)
{
    int fd = open(path.c_str(), O_WRONLY);
    size_t off = 0, k = 0;
    while (off < b.size()) {
        size_t n = chunks.empty() ? b.size() : chunks[k++ % chunks.size()];
        n = std::min(n, b.size() - off);
        ssize_t w = write(fd, b.data() + off, n);
        if (w <= 0) break;
        off += w;
        std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    // the writer may keep the pipe open until the reader has its answer
    while (hold && *hold) std::this_thread::sleep_for(std::chrono::microseconds(300));
    close(fd);
}

static void on_alarm(int)
{
    static const char msg[] = "\n{\"hang\":true}\n";
    if (write(1, msg, sizeof(msg) - 1)) {}
    _exit(7);
}

#if defined(VERIF_SCHED) || defined(VERIF_FREE)
#include "sched.inc"
#endif

static void exec(const std::string & line)
{
    std::istringstream in(line);
    std::string op; in >> op;
    if (op == "F") {                       // file <id> <hex>
        int id; std::string h; in >> id >> h;
        files[id] = unhex(h);
        put("\"ok\":true");
    } else if (op == "D") {                // create_db
        int d; in >> d;
        dbs[d] = create_db();
        put("\"ok\":true");
    } else if (op == "A") {                // add_trace <d> <file> <cut> <max> <timeout>
        int d, f; long cut; unsigned long long max; uint32_t to;
        in >> d >> f >> cut >> max >> to;
        std::string p = path_of(f, cut);
        int r = add_trace(need(dbs, d), p.c_str(), to, max);
        put("\"ret\":"); put(r ? "true" : "false");
        put(",\"n\":"); putn(n_traces(need(dbs, d)));
    } else if (op == "AM") {               // add_trace of a path which cannot be opened
        int d; uint32_t to; in >> d >> to;
        std::string p = workdir + "/no-such-file";
        int r = add_trace(need(dbs, d), p.c_str(), to, 0);
        put("\"ret\":"); put(r ? "true" : "false");
        put(",\"n\":"); putn(n_traces(need(dbs, d)));
    } else if (op == "AF" || op == "RF" || op == "AH" || op == "RH") {
        // add or read through a FIFO in chunks; H: the writer never closes it
        int d, f; unsigned long long max; size_t nc;
        in >> d >> f >> max >> nc;
        std::vector<size_t> ch(nc);
        for (auto & c : ch) in >> c;
        std::string p = workdir + "/fifo";
        unlink(p.c_str());
        mkfifo(p.c_str(), 0600);
        Bytes bytes = need(files, f);
        void *db = op[0] == 'A' ? need(dbs, d) : NULL;
        std::atomic<bool> hold(true);
        std::thread w(feed_fifo, p, bytes, ch, op[1] == 'H' ? &hold : NULL);
        int r;
        if (db) r = add_trace(db, p.c_str(), 30, max);
        else {
            void *t = read_trace(p.c_str(), 30, max);
            if (t) traces[d] = t;
            r = t != NULL;
        }
        hold = false;
        w.join();
        unlink(p.c_str());
        put("\"ret\":"); put(r ? "true" : "false");
        if (db) { put(",\"n\":"); putn(n_traces(db)); }
    } else if (op == "R") {                // read_trace <h> <file> <cut> <max>
        int h, f; long cut; unsigned long long max;
        in >> h >> f >> cut >> max;
        void *t = read_trace(path_of(f, cut).c_str(), 0, max);
        if (t) traces[h] = t;
        put("\"ret\":"); put(t ? "true" : "false");
    } else if (op == "RC") {               // C++ reader over a chunked stream
        int h, f; long cut; unsigned long long max; size_t chunk;
        in >> h >> f >> cut >> max >> chunk;
        const Bytes & b = need(files, f);
        size_t n = cut < 0 ? b.size() : std::min((size_t) cut, b.size());
        ChunkBuf cb(b, n, chunk);
        std::istream is(&cb);
        Trace *t = NULL;
        try { t = new Trace(is, max); } catch (std::exception &) { t = NULL; }
        if (t) traces[h] = t;
        put("\"ret\":"); put(t ? "true" : "false");
    } else if (op == "CUTS") {             // every prefix of a file: accepted ones in full
        int f, step; in >> f >> step;
        size_t n = need(files, f).size();
        std::string acc;
        put("\"rets\":[");
        std::vector<std::pair<size_t, void *>> ok;
        for (size_t k = 0; k <= n; k += step) {
            void *t = read_trace(path_of(f, (long) k).c_str(), 0, 0);
            if (k) put(",");
            if (t) { putn(trace_size(t) + 1); ok.push_back(std::make_pair(k, t)); }
            else put("0");
        }
        put("],\"full\":[");
        for (size_t i = 0; i < ok.size(); i++) {
            if (i) put(",");
            put("{\"cut\":"); putn(ok[i].first); put(",\"tr\":");
            put_trace(ok[i].second);
            put("}");
            free_trace(ok[i].second);
        }
        put("]");
    } else if (op == "X") {
        int h; in >> h;
        free_trace(need(traces, h)); traces.erase(h);
        put("\"ok\":true");
    } else if (op == "XD") {
        int d; in >> d;
        free_db(need(dbs, d)); dbs.erase(d);
        put("\"ok\":true");
    } else if (op == "NT") {
        int d; in >> d;
        put("\"n\":"); putn(n_traces(need(dbs, d)));
    } else if (op == "DD") {
        int d; in >> d;
        uint32_t n = n_traces(need(dbs, d));
        put("\"trs\":[");
        for (uint32_t i = 0; i < n; i++) { if (i) put(","); put_trace(get_trace(need(dbs, d), i)); }
        put("]");
    } else if (op == "DI") {               // dump one trace of a database
        int d; uint32_t i; in >> d >> i;
        put("\"tr\":"); put_trace(nth_trace(need(dbs, d), i));
    } else if (op == "DT") {
        int h; in >> h;
        put("\"tr\":"); put_trace(need(traces, h));
    } else if (op == "TC") {               // a trace made of C++ objects
        int h; in >> h;
        traces[h] = build_trace(in);
        put("\"ok\":true");
    } else if (op == "AC") {               // add a trace object to a database
        int d, h; in >> d >> h;
        ((TraceDB *) need(dbs, d))->addTrace(*(const Trace *) need(traces, h));
        put("\"n\":"); putn(n_traces(need(dbs, d)));
    } else if (op == "DC") {               // copy of a database
        int a, b; in >> a >> b;
        dbs[b] = new TraceDB(*(const TraceDB *) need(dbs, a));
        put("\"ok\":true");
    } else if (op == "TK") {               // copy of a trace
        int h; in >> h;
        traces[h] = new Trace(*tref(in));
        put("\"ok\":true");
    } else if (op == "Q") {
        do_query(in);
    } else if (op == "AP") {
        do_points(in);
    } else if (op == "S") {                // serialize <d> <text>
        int d, t; in >> d >> t;
        char *s = serialize_trace_db(need(dbs, d));
        texts[t] = s;
        free(s);
        put("\"ok\":true");
    } else if (op == "U") {                // deserialize <text> <d>
        int t, d; in >> t >> d;
        const std::string & text = need(texts, t);
        void *db = deserialize_trace_db(text.c_str());
        dbs[d] = db;
        put("\"ok\":true");
    } else if (op == "W") {                // write <ref> -> file id
        int f; in >> f;
        const Trace *t = tref(in);
        std::ostringstream os;
        os << *t;
        std::string s = os.str();
        files[f] = Bytes(s.begin(), s.end());
        put("\"bytes\":"); putbytes(s.data(), s.size());
    } else if (op == "E") {                // equality and hash of two traces
        const Trace *a = tref(in), *b = tref(in);
        put("\"eq\":"); put(*a == *b ? "true" : "false");
        put(",\"eqr\":"); put(*b == *a ? "true" : "false");
        put(",\"heq\":"); put(hash_value(*a) == hash_value(*b) ? "true" : "false");
    } else if (op == "ED") {
        int a, b; in >> a >> b;
        const TraceDB & x = *(const TraceDB *) need(dbs, a), & y = *(const TraceDB *) need(dbs, b);
        put("\"eq\":"); put(x == y ? "true" : "false");
        put(",\"eqr\":"); put(y == x ? "true" : "false");
        put(",\"heq\":"); put(hash_value(x) == hash_value(y) ? "true" : "false");
    } else if (op == "EP") {               // all pairs of points of two traces
        const Trace *a = tref(in), *b = tref(in);
        const TracePoints & p = a->getPoints(), & q = b->getPoints();
        put("\"m\":[");
        for (size_t i = 0; i < p.size(); i++) {
            if (i) put(",");
            put("[");
            for (size_t j = 0; j < q.size(); j++) {
                if (j) put(",");
                int v = (p[i] == q[j] ? 1 : 0) + (hash_value(p[i]) == hash_value(q[j]) ? 2 : 0)
                      + (p[i] < q[j] ? 4 : 0) + (q[j] < p[i] ? 8 : 0);
                putn(v);
            }
            put("]");
        }
        put("]");
    } else if (op == "MN") {               // new memory map <m> <nbits> <bits...>
        int m; size_t n; in >> m >> n;
        if (maps.count(m)) delete maps[m];
        maps[m] = new MemoryMap();
        g_rand_bits.assign(n, 0); g_rand_pos = 0;
        for (auto & b : g_rand_bits) in >> b;
        put("\"ok\":true");
    } else if (op == "MU") {
        int m; in >> m;
        uint64_t a = hex64(in), s = hex64(in);
        need(maps, m)->updateMemoryMap(TraceBufferSize(a, s));
        put("\"ok\":true");
    } else if (op == "ML") {               // lookups
        int m; size_t n; in >> m >> n;
        put("\"res\":[");
        for (size_t i = 0; i < n; i++) {
            uint64_t r = need(maps, m)->computeBufferSize(hex64(in));
            if (i) put(",");
            putw(r);
        }
        put("]");
    } else if (op == "MX") {
        int m; in >> m;
        need(maps, m)->clear();
        put("\"ok\":true");
    } else if (op == "RND") {              // fix the next outcomes of rand()
        size_t n; in >> n;
        g_rand_bits.assign(n, 0); g_rand_pos = 0;
        for (auto & b : g_rand_bits) in >> b;
        put("\"ok\":true");
    } else if (op == "HP") {               // points in the caller's hands
        int k; in >> k;
        const Trace *t = tref(in);
        Held h = {get_points(t), trace_size(t)};
        held[k] = h;
        put("\"ok\":true");
    } else if (op == "HQ") {
        int k; in >> k;
        do_query(in, k);
    } else if (op == "HD") {
        int k, blobs; in >> k >> blobs;
        Held & h = need(held, k);
        put("\"pts\":[");
        for (uint64_t i = 0; i < h.n; i++) { if (i) put(","); put_point(h.p[i], blobs != 0); }
        put("]");
    } else if (op == "HX") {
        int k; in >> k;
        Held & h = need(held, k);
        free_trace_points(h.p, h.n);
        held.erase(k);
        put("\"ok\":true");
    } else if (op == "MARK") {             // memory in use and open descriptors
        put("\"bytes\":"); putn(__sanitizer_get_current_allocated_bytes());
        put(",\"fds\":"); putn(count_fds());
    } else if (op == "FD") {               // number of open descriptors
        put("\"n\":"); putn(count_fds());
#if defined(VERIF_SCHED) || defined(VERIF_FREE)
    } else if (op == "CON") {
        do_con(in);
#endif
    } else if (op == "RESET") {
        for (auto & d : dbs) free_db(d.second);
        for (auto & t : traces) free_trace(t.second);
        for (auto & m : maps) delete m.second;
        for (auto & h : held) free_trace_points(h.second.p, h.second.n);
        held.clear();
        dbs.clear(); traces.clear(); texts.clear(); maps.clear();
        put("\"ok\":true");
    } else {
        fprintf(stderr, "driver: unknown operation %s\n", op.c_str());
        _exit(5);
    }
    if (in.fail() && op != "F") {
        fprintf(stderr, "driver: malformed line %s\n", line.substr(0, 80).c_str());
        _exit(5);
    }
}

int main(int argc, char **argv)
{
    if (argc < 3) return 5;
    workdir = argv[2];
    signal(SIGPIPE, SIG_IGN);
    signal(SIGALRM, on_alarm);
    std::ifstream script(argv[1]);
    std::string line;
    unsigned long i = 0;
    while (std::getline(script, line)) {
        if (line.empty()) continue;
        alarm(60);
        put("{\"i\":"); putn(i++); put(",");
        size_t mark = g_out.size();
        try {
            exec(line);
        } catch (Skip &) {
            g_out.resize(mark);
            put("\"skip\":true");
        }
        put("}\n");
        // everything observed so far survives a later crash
        flush_out();
    }
    alarm(0);
    return 0;
}
