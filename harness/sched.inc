// Concurrent additions under a controlled schedule (VERIF_SCHED) or running
// freely (VERIF_FREE, for the thread sanitizer).
//
// Controlled: one worker runs at a time.  Allocation, mutex operations and
// read() are the places where control may pass to another worker; read()
// delivers a few bytes at a time, so that reading a trace is many steps.  A
// worker which finds a mutex taken waits until others have moved.  If a worker
// stays away too long (it waits for something unknown to this scheduler), the
// schedule is given up and all workers run freely: what is recorded is still
// what happened.
#include <semaphore.h>
#include <sys/syscall.h>
#include <atomic>
#include <functional>

struct COp { int t, d, f, chunk, max; };

enum Where { W_BEGIN, W_ALLOC, W_LOCK, W_UNLOCK, W_READ, W_EOF, W_RET, W_BLOCKED, W_DONE };

struct Worker {
    sem_t go;
    std::vector<COp> ops;
    std::atomic<bool> done, blocked;
    Where at;
    int chunk;
};
static std::vector<Worker *> g_workers;
static thread_local int t_me = -1;
static thread_local bool t_inside = false;
static std::atomic<bool> g_active(false), g_free(false);
static std::atomic<int> g_current(-1);
static std::atomic<long> g_steps(0);
static bool g_met_unknown = false;
static long g_freed_total = 0;
static sem_t g_all_done;
static std::atomic<int> g_left(0);
static std::function<int(int, Where)> g_choose;    // next worker, or -1: any
static std::string g_events;
static std::atomic_flag g_evlock = ATOMIC_FLAG_INIT;

static void note(const std::string & s)
{
    bool was = t_inside;
    t_inside = true;
    while (g_evlock.test_and_set()) {}
    if (!g_events.empty()) g_events += ",";
    g_events += s;
    g_evlock.clear();
    t_inside = was;
}

#ifdef VERIF_SCHED
static bool runnable(int k) { return !g_workers[k]->done; }

static void hand_over(int me, int next)
{
    if (next == me || g_free) return;
    g_current = next;
    sem_post(&g_workers[next]->go);
    if (g_workers[me]->done) return;
    while (sem_wait(&g_workers[me]->go) != 0) {}
}

static void yield_at(Where w)
{
    int me = t_me;
    if (me < 0 || t_inside || !g_active || g_free) return;
    t_inside = true;
    Worker *self = g_workers[me];
    self->at = w;
    g_steps++;
    int n = (int) g_workers.size();
    int next = g_choose(me, w);
    if (next < 0 || !runnable(next)) {
        // another one, if this worker cannot go on
        next = me;
        if (self->done || w == W_BLOCKED)
            for (int k = 1; k <= n; k++) {
                int c = (me + k) % n;
                if (runnable(c)) { next = c; break; }
            }
    }
    hand_over(me, next);
    t_inside = false;
}

extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (t_me >= 0 && !t_inside && g_active && !g_free) {
        yield_at(W_LOCK);
        for (;;) {
            int r = pthread_mutex_trylock(m);
            if (r != EBUSY) return r;
            if (g_free) { sched_yield(); continue; }
            g_workers[t_me]->blocked = true;
            yield_at(W_BLOCKED);
            g_workers[t_me]->blocked = false;
        }
    }
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        syscall(SYS_sched_yield);
    }
}
typedef int (*mfun)(pthread_mutex_t *);
#include <dlfcn.h>
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
    static mfun real = (mfun) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    yield_at(W_UNLOCK);
    return r;
}
// Other ways of waiting: a worker which sleeps, yields or finds a lock taken
// waits until others have moved
static bool controlled() { return t_me >= 0 && !t_inside && g_active && !g_free; }
static void wait_for_others()
{
    g_workers[t_me]->blocked = true;
    yield_at(W_BLOCKED);
    if (t_me >= 0) g_workers[t_me]->blocked = false;
}
extern "C" int sched_yield(void)
{
    if (!controlled()) return (int) syscall(SYS_sched_yield);
    wait_for_others();
    return 0;
}
extern "C" int nanosleep(const struct timespec *a, struct timespec *b)
{
    if (!controlled()) return (int) syscall(SYS_nanosleep, a, b);
    wait_for_others();
    return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b)
{
    if (!controlled()) return syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0;
    wait_for_others();
    return 0;
}
extern "C" int usleep(useconds_t u)
{
    struct timespec ts = {(time_t) (u / 1000000), (long) (u % 1000000) * 1000};
    return nanosleep(&ts, NULL);
}
#define TAKE(type, fun, tryfun)                                                \
    extern "C" int fun(type *m)                                                \
    {                                                                          \
        bool c = controlled();                                                 \
        if (c) yield_at(W_LOCK);                                               \
        for (;;) {                                                             \
            int r = tryfun(m);                                                 \
            if (r != EBUSY) return r;                                          \
            if (controlled()) wait_for_others(); else syscall(SYS_sched_yield);\
        }                                                                      \
    }
TAKE(pthread_rwlock_t, pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
TAKE(pthread_rwlock_t, pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
TAKE(pthread_spinlock_t, pthread_spin_lock, pthread_spin_trylock)
extern "C" ssize_t read(int fd, void *buf, size_t n)
{
    if (t_me < 0 || !g_active) return syscall(SYS_read, fd, buf, n);
    yield_at(W_READ);
    size_t c = g_workers[t_me]->chunk;
    ssize_t r = syscall(SYS_read, fd, buf, n < c ? n : c);
    if (r == 0) yield_at(W_EOF);
    return r;
}
static void alloc_point() { yield_at(W_ALLOC); }
#else
static void yield_at(Where) {}
#endif

static std::string con_path(const COp & o) { return workdir + "/con" + std::to_string(o.f); }

static void con_worker(int me, std::map<int, void *> *cdb)
{
    t_me = me;
    Worker *w = g_workers[me];
    while (sem_wait(&w->go) != 0) {}
    for (auto & o : w->ops) {
        w->chunk = o.chunk;
        yield_at(W_BEGIN);
        note("{\"ev\":\"AB\",\"t\":" + std::to_string(me) + ",\"d\":" + std::to_string(o.d) +
             ",\"f\":" + std::to_string(o.f) + ",\"cut\":-1,\"max\":" + std::to_string(o.max) + "}");
        int r = add_trace((*cdb)[o.d], con_path(o).c_str(), 0, o.max);
        yield_at(W_RET);
        note("{\"ev\":\"AE\",\"t\":" + std::to_string(me) + ",\"ret\":" + (r ? "true" : "false") + "}");
    }
    w->done = true;
    bool last = g_left.fetch_sub(1) == 1;
    if (!last) yield_at(W_DONE);
    t_me = -1;
    if (last) sem_post(&g_all_done);
}

// one run; the outcome is the recorded events and the contents afterwards
static std::string con_run(const std::vector<COp> & ops, int nt, int first,
                           std::function<int(int, Where)> choose)
{
    std::map<int, void *> cdb;
    for (auto & o : ops) if (!cdb.count(o.d)) cdb[o.d] = create_db();
    for (int t = 0; t < nt; t++) {
        Worker *w = new Worker();
        sem_init(&w->go, 0, 0);
        w->done = false; w->blocked = false; w->at = W_BEGIN; w->chunk = 1 << 20;
        for (auto & o : ops) if (o.t == t) w->ops.push_back(o);
        g_workers.push_back(w);
    }
    sem_init(&g_all_done, 0, 0);
    g_left = nt;
    g_events.clear();
    g_choose = choose;
    g_steps = 0;
    g_free = false;
    g_active = true;
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.push_back(std::thread(con_worker, t, &cdb));
#ifdef VERIF_SCHED
    g_current = first;
    sem_post(&g_workers[first]->go);
    long seen = -1;
    for (;;) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        // (once waiting of an unknown kind has been met, it will be met again)
        if (g_met_unknown) {
            ts.tv_nsec += 250000000;
            if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
        } else ts.tv_sec += 2;
        if (sem_timedwait(&g_all_done, &ts) == 0) break;
        if (errno == EINTR) continue;
        if (g_steps == seen && !g_free) {
            // somebody waits for something we do not control
            g_free = true;
            g_met_unknown = true;
            for (auto w : g_workers) sem_post(&w->go);
        }
        seen = g_steps;
    }
#else
    for (auto w : g_workers) sem_post(&w->go);
    while (sem_wait(&g_all_done) != 0) {}
#endif
    for (auto & t : th) t.join();
    g_active = false;
    for (auto w : g_workers) { sem_destroy(&w->go); delete w; }
    g_workers.clear();
    std::string keep;
    keep.swap(g_out);
    put("{\"evs\":["); g_out += g_events; put("],\"dbs\":[");
    bool first_db = true;
    for (auto & d : cdb) {
        if (!first_db) put(",");
        first_db = false;
        put("{\"d\":"); putn(d.first); put(",\"trs\":[");
        uint32_t n = n_traces(d.second);
        for (uint32_t i = 0; i < n; i++) { if (i) put(","); put_trace(get_trace(d.second, i)); }
        put("]}");
        free_db(d.second);
    }
    put("]");
    std::string out;
    out.swap(g_out);
    g_out.swap(keep);
    return out;
}

static unsigned long long xs(unsigned long long & s)
{
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s >> 11;
}

// CON <nt> <nops> {t d f chunk max} <mode> ...
static void do_con(std::istream & in)
{
    int nt; size_t no;
    in >> nt >> no;
    std::vector<COp> ops(no);
    for (auto & o : ops) {
        in >> o.t >> o.d >> o.f >> o.chunk >> o.max;
        const Bytes & b = need(files, o.f);
        FILE *f = fopen(con_path(o).c_str(), "wb");
        if (b.size()) fwrite(b.data(), 1, b.size(), f);
        fclose(f);
    }
    std::string mode;
    in >> mode;
#ifdef VERIF_SCHED
    // function-local statics of the library come into being outside the
    // controlled part (their guards are unknown to the scheduler)
    static bool warm = false;
    if (!warm) {
        warm = true;
        void *db = create_db();
        for (auto & o : ops) add_trace(db, con_path(o).c_str(), 0, 0);
        free_db(db);
    }
#endif
    std::map<std::string, long> outs;
    long runs = 0, maxsteps = 0, freed = 0;
    auto one = [&](int first, std::function<int(int, Where)> choose) {
        // schedules cannot be had: a few free runs are enough
        if (g_freed_total > 60) return (long) 0;
        alarm(60);
        outs[con_run(ops, nt, first, choose)]++;
        runs++;
        maxsteps = std::max(maxsteps, (long) g_steps);
        if (g_free) { freed++; g_freed_total++; }
        return (long) g_steps;
    };
    if (mode == "FREE") {
        long n; in >> n;
        for (long i = 0; i < n; i++) one(0, [](int, Where) { return -1; });
    } else if (mode == "RND") {
        // at each step another worker with probability 1/p
        long n; unsigned long long seed; int p;
        in >> n >> seed >> p;
        for (long i = 0; i < n; i++) {
            unsigned long long s = (seed + i) * 6364136223846793005ull + 1442695040888963407ull;
            xs(s); xs(s);
            int first = (int) (xs(s) % nt);
            one(first, [s, p, nt](int me, Where w) mutable -> int {
                if (w == W_BLOCKED || w == W_DONE || xs(s) % p == 0) {
                    int k = (int) (xs(s) % nt);
                    return k == me && w == W_BLOCKED ? -1 : k;
                }
                return -1;
            });
        }
    } else if (mode == "SWEEP") {
        // every schedule with one forced switch (every stride-th step), and
        // samples with a second one
        long stride, second; unsigned long long seed;
        in >> stride >> second >> seed;
        unsigned long long s = seed * 2654435761ull + 88172645463325252ull;
        for (int first = 0; first < nt; first++) {
            long total = one(first, [](int, Where) { return -1; });
            for (long at = 1 + (long) (seed % stride); at <= total; at += stride)
                for (int to = 0; to < nt; to++) {
                    if (to == first) continue;
                    one(first, [at, to](int, Where) { return g_steps == at ? to : -1; });
                    for (long k = 0; k < second; k++) {
                        long at2 = at + 1 + (long) (xs(s) % (total + 1));
                        int to2 = (int) (xs(s) % nt);
                        one(first, [at, to, at2, to2](int, Where) {
                            return g_steps == at ? to : g_steps == at2 ? to2 : -1; });
                    }
                }
        }
    } else if (mode == "HIST") {
        // a behaviour of the model: B (begin and read to the end), C (commit), E (end)
        size_t n; in >> n;
        std::vector<std::pair<char, int>> h(n);
        for (auto & c : h) { std::string x; in >> x >> c.second; c.first = x[0]; }
        size_t pos = 0;
        one(h.empty() ? 0 : h[0].second, [&h, pos](int me, Where w) mutable -> int {
            // where the current command of this worker ends
            for (;;) {
                if (pos >= h.size()) return -1;
                char c = h[pos].first;
                int t = h[pos].second;
                if (t != me) {
                    // this worker only runs because the other one is blocked
                    if (w == W_UNLOCK || w == W_DONE || w == W_BLOCKED) return t;
                    return -1;
                }
                bool end = w == W_DONE ||
                           (c == 'B' && (w == W_EOF || w == W_RET)) ||
                           (c == 'C' && w == W_RET) || (c == 'E' && w == W_BEGIN);
                if (!end) return -1;
                pos++;
                if (pos >= h.size()) return -1;
                if (h[pos].second != me) return h[pos].second;
                // the next command is for this worker: has it ended already?
                if (!(h[pos].first == 'C' && w == W_RET)) return -1;
            }
        });
    }
    put("\"runs\":"); putn(runs);
    put(",\"steps\":"); putn(maxsteps);
    put(",\"uncontrolled\":"); putn(freed);
    put(",\"outs\":[");
    bool f1 = true;
    for (auto & o : outs) {
        if (!f1) put(",");
        f1 = false;
        g_out += o.first;
        put(",\"n\":"); putn(o.second); put("}");
    }
    put("]");
}
