// Timed runs: the library's calls on real files and pipes, with real writers,
// signals and clocks.  Prints what happened, with times; judged by OpenTrace.tla.
//
// openwait SCRIPT DIR
//   HIGH n                         keep descriptors below n occupied
//   SIG from period count          signals (with a restarting handler) to the readers of the next group
//   CALL api kind path T max nacts {o at | d at off len | c at}
//   GO                             run the calls collected so far at the same time
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include "trace.h"
#include "trace-db.h"

static int64_t base_ns;
static int64_t now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static int64_t ms_down() { return (now_ns() - base_ns) / 1000000; }
static int64_t ms_up() { return (now_ns() - base_ns + 999999) / 1000000; }
static void sleep_until(int64_t ms) {
    int64_t t = base_ns + ms * 1000000;
    timespec ts = { (time_t) (t / 1000000000), (long) (t % 1000000000) };
    while (clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &ts, NULL) == EINTR) {}
}
static int fds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

struct Act { char op; int64_t at; size_t off, len; };
struct Done { char op; int64_t a, b; size_t len; };
struct Call {
    std::string api, kind, path, data;
    uint32_t T; uint64_t max;
    std::vector<Act> acts;
    std::vector<Done> done;
    std::atomic<bool> started, returned;
    int64_t t0, t1;
    bool ok; int traces;
    std::vector<uint64_t> stmts;
    pthread_t reader;
    Call() : started(false), returned(false), t0(0), t1(0), ok(false), traces(0) {}
};
static std::string g_data;

static void look(Call &c, const void *t) {
    uint64_t n = trace_size(t);
    c_trace_point_struct *p = get_points(t);
    for (uint64_t i = 0; i < n; i++) c.stmts.push_back(p[i].statement);
    free_trace_points(p, n);
}

static void read_one(Call &c) {
    void *db = c.api == "add" ? create_db() : NULL, *t = NULL;
    c.t0 = ms_down();
    c.started = true;
    if (db) c.ok = add_trace(db, c.path.c_str(), c.T, c.max);
    else { t = read_trace(c.path.c_str(), c.T, c.max); c.ok = t != NULL; }
    c.t1 = ms_up();
    c.returned = true;
    if (db) {
        c.traces = n_traces(db);
        if (c.traces == 1) look(c, get_trace(db, 0));
        free_db(db);
    }
    else if (t) { c.traces = 1; look(c, t); free_trace(t); }
}

static void write_all(Call &c) {
    while (!c.started) usleep(200);
    int fd = -1;
    for (size_t i = 0; i < c.acts.size(); i++) {
        const Act &a = c.acts[i];
        while (!c.returned && ms_down() < c.t0 + a.at) {
            int64_t t = std::min(c.t0 + a.at, ms_down() + 20);
            sleep_until(t);
        }
        if (c.returned) break;
        Done d = { a.op, ms_down(), 0, 0 };
        if (a.op == 'o') {
            while ((fd = open(c.path.c_str(), O_WRONLY | O_NONBLOCK)) < 0 && !c.returned) { usleep(1000); d.a = ms_down(); }
            if (fd < 0) break;
        }
        else if (a.op == 'd') {
            size_t put = 0;
            while (put < a.len && !c.returned) {
                ssize_t n = write(fd, g_data.data() + a.off + put, a.len - put);
                if (n > 0) put += n;
                else if (errno != EAGAIN && errno != EINTR) break;
                else usleep(1000);
            }
            if (put == 0) break;
            d.len = put;
        }
        else { close(fd); fd = -1; }
        d.b = ms_up();
        c.done.push_back(d);
    }
    if (fd >= 0) {
        while (!c.returned) usleep(1000);
        close(fd);
    }
}

static void on_signal(int) {}

int main(int argc, char **argv) {
    base_ns = now_ns();
    signal(SIGPIPE, SIG_IGN);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGUSR1, &sa, NULL);
    std::ifstream in(argv[1]);
    std::string dir = argv[2], w;
    {
        std::ifstream f((dir + "/data").c_str(), std::ios::binary);
        std::stringstream ss; ss << f.rdbuf(); g_data = ss.str();
    }
    std::vector<Call *> group;
    int64_t sfrom = 0, speriod = 0, scount = 0;
    while (in >> w) {
        if (w == "HIGH") {
            int n; in >> n;
            struct rlimit rl;
            getrlimit(RLIMIT_NOFILE, &rl);
            if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < (rlim_t) n + 100) { puts("{\"skip\":1}"); return 0; }
            rl.rlim_cur = std::max<rlim_t>(rl.rlim_cur, n + 100);
            if (setrlimit(RLIMIT_NOFILE, &rl)) { puts("{\"skip\":1}"); return 0; }
            int fd;
            while ((fd = open("/dev/null", O_RDONLY)) >= 0 && fd < n) {}
        }
        else if (w == "SIG") in >> sfrom >> speriod >> scount;
        else if (w == "CALL") {
            Call *c = new Call();
            int na;
            in >> c->api >> c->kind >> c->path >> c->T >> c->max >> na;
            if (c->path[0] != '/') c->path = dir + "/" + c->path;
            for (int i = 0; i < na; i++) {
                Act a = { 0, 0, 0, 0 };
                in >> a.op >> a.at;
                if (a.op == 'd') in >> a.off >> a.len;
                c->acts.push_back(a);
            }
            if (c->kind == "fifo") {
                unlink(c->path.c_str());
                if (mkfifo(c->path.c_str(), 0600)) { perror("mkfifo"); return 5; }
            }
            group.push_back(c);
        }
        else if (w == "GO") {
            int f0 = fds();
            std::vector<std::thread> ts;
            std::vector<std::thread> rs;
            for (Call *c : group) rs.push_back(std::thread(read_one, std::ref(*c)));
            for (Call *c : group) if (!c->acts.empty()) ts.push_back(std::thread(write_all, std::ref(*c)));
            if (scount) {
                int64_t t = ms_down() + sfrom;
                for (int64_t k = 0; k < scount; k++, t += speriod) {
                    sleep_until(t);
                    // the thread exists until it is joined below
                    for (size_t i = 0; i < group.size(); i++)
                        if (!group[i]->returned) pthread_kill(rs[i].native_handle(), SIGUSR1);
                }
                scount = 0;
            }
            for (std::thread &t : rs) t.join();
            for (std::thread &t : ts) t.join();
            int f1 = fds();
            for (Call *c : group) {
                std::ostringstream o;
                o << "{\"ev\":\"OPEN\",\"api\":\"" << c->api << "\",\"kind\":\"" << c->kind << "\",\"T\":"
                  << std::min<uint32_t>(c->T, 1000000) << ",\"max\":" << c->max << ",\"t0\":" << c->t0 << ",\"t1\":" << c->t1
                  << ",\"ok\":" << (c->ok ? "true" : "false") << ",\"traces\":" << c->traces << ",\"fd0\":" << f0 << ",\"fd1\":" << f1
                  << ",\"w\":[";
                size_t len = 0;
                for (size_t i = 0; i < c->done.size(); i++) {
                    Done &d = c->done[i];
                    len += d.len;
                    o << (i ? "," : "") << "{\"op\":\"" << (d.op == 'o' ? "open" : d.op == 'd' ? "data" : "close")
                      << "\",\"a\":" << d.a << ",\"b\":" << d.b << "}";
                }
                o << "],\"len\":" << len << ",\"stmts\":[";
                for (size_t i = 0; i < c->stmts.size(); i++) {
                    o << (i ? "," : "") << "[";
                    for (int b = 0; b < 8; b++) o << (b ? "," : "") << ((c->stmts[i] >> (8 * b)) & 255);
                    o << "]";
                }
                o << "]}";
                puts(o.str().c_str());
                delete c;
            }
            fflush(stdout);
            group.clear();
        }
        else { fprintf(stderr, "bad script: %s\n", w.c_str()); return 5; }
    }
    return 0;
}
