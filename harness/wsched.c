/* Runs the instrumentation run-time under chosen schedules.
 *
 * Linked with a generated program (the run-time code extracted from /repo plus
 * threads that record points).  A constructor that precedes the run-time's own
 * reads the list of runs, forks one child per run and reports what each left
 * behind; a child goes on into the run-time's constructor and main().
 *
 * Only the outside of the run-time is touched: mutex and stdio calls are
 * wrapped at link time to become scheduling points.  A thread that waits for
 * something else than a mutex is noticed by a watchdog, which then lets all
 * threads run freely. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXT 8
#ifdef __cplusplus
extern "C" {
#endif
extern int vp_nthreads;
extern void (*vp_bodies[])(void);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);

struct shared { volatile int begun[MAXT], ending[MAXT], finished[MAXT], steps, freed; };
static struct shared none;
static struct shared *sh = &none;

static char mode = 'F';          /* W word, S switches, R random, F free */
static int word[512], nword, posw;
static long k1, k2;
static unsigned long long rnd;
static int percent;
static int crash_at, crash_how, quiets;

static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t C = PTHREAD_COND_INITIALIZER;
static volatile int current = -1, running_free = 0;
static int over[MAXT], blocked[MAXT], inpt[MAXT];
static __thread int me = -1;

static unsigned next_rnd(void) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return (unsigned) (rnd >> 20); }

static int runnable(int t) { return t >= 0 && t < vp_nthreads && !over[t] && !blocked[t]; }
static int other(int from) {
    for (int i = 1; i <= vp_nthreads; i++) {
        int t = (from + i + vp_nthreads) % vp_nthreads;
        if (runnable(t)) return t;
    }
    return -1;
}

/* with G held: who runs next; api: between two calls of the run-time */
static int choose(int api) {
    int go = me >= 0 && runnable(me);
    if (mode == 'W') {
        if (!api && go) return me;
        while (posw < nword) {
            int t = word[posw++];
            if (runnable(t)) return t;
        }
        return go ? me : other(-1);
    }
    if (mode == 'S') {
        if (go && !(sh->steps == k1 || sh->steps == k2)) return me;
        return other(me);
    }
    if (go && (int) (next_rnd() % 100) >= percent) return me;
    {
        int n = 0, c[MAXT];
        for (int t = 0; t < vp_nthreads; t++) if (runnable(t)) c[n++] = t;
        return n ? c[next_rnd() % n] : -1;
    }
}

static void wait_turn(void) {
    while (!running_free && current != me) pthread_cond_wait(&C, &G);
}

static void yield_(int api) {
    if (me < 0 || mode == 'F' || running_free) return;
    __real_pthread_mutex_lock(&G);
    sh->steps++;
    {
        int t = choose(api);
        if (t < 0) {
            int left = 0;
            for (int i = 0; i < vp_nthreads; i++) left += !over[i];
            if (left) _exit(42);            /* all wait for a mutex nobody will release */
        }
        else if (t != me) { current = t; pthread_cond_broadcast(&C); }
    }
    if (!over[me]) wait_turn();
    __real_pthread_mutex_unlock(&G);
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (me < 0 || mode == 'F' || running_free) return __real_pthread_mutex_lock(m);
    yield_(0);
    while (!running_free) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        blocked[me] = 1;
        yield_(0);
    }
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    int r;
    if (me < 0 || mode == 'F' || running_free) return __real_pthread_mutex_unlock(m);
    r = __real_pthread_mutex_unlock(m);
    for (int i = 0; i < MAXT; i++) blocked[i] = 0;
    yield_(0);
    return r;
}
void __real_flockfile(FILE *);
void __real_funlockfile(FILE *);
void __wrap_flockfile(FILE *f) {
    if (me >= 0 && mode != 'F') {
        yield_(0);
        while (!running_free) {
            if (ftrylockfile(f) == 0) return;
            blocked[me] = 1;
            yield_(0);
        }
    }
    __real_flockfile(f);
}
void __wrap_funlockfile(FILE *f) {
    __real_funlockfile(f);
    if (me < 0 || mode == 'F' || running_free) return;
    for (int i = 0; i < MAXT; i++) blocked[i] = 0;
    yield_(0);
}
#define WRAP(ret, name, params, args) \
    ret __real_##name params; \
    ret __wrap_##name params { yield_(0); return __real_##name args; }
WRAP(int, fputc, (int c, FILE *f), (c, f))
WRAP(int, putc, (int c, FILE *f), (c, f))
WRAP(int, fputs, (const char *s, FILE *f), (s, f))
WRAP(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f))
WRAP(int, fputc_unlocked, (int c, FILE *f), (c, f))
WRAP(size_t, fwrite_unlocked, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f))
WRAP(int, fflush, (FILE *f), (f))
WRAP(ssize_t, write, (int d, const void *p, size_t n), (d, p, n))

/* called by the generated program */
void vp_begin(void) { if (me >= 0) { yield_(1); inpt[me] = 1; sh->begun[me]++; } }
void vp_inside(void) { if (me >= 0) { inpt[me] = 2; yield_(1); } }
void vp_ending(void) { if (me >= 0) sh->ending[me]++; }
void vp_finished(void) {
    if (me < 0) return;
    sh->finished[me]++;
    inpt[me] = 0;
    if (crash_at) {
        int quiet = 1;
        __real_pthread_mutex_lock(&G);
        for (int t = 0; t < vp_nthreads; t++)
            if (inpt[t] == 2 || (inpt[t] == 1 && !blocked[t])) quiet = 0;
        if (quiet && ++quiets == crash_at) {
            if (crash_how == 0) kill(getpid(), SIGKILL);
            if (crash_how == 1) _exit(3);
            signal(SIGABRT, SIG_DFL);
            abort();
        }
        __real_pthread_mutex_unlock(&G);
    }
}

static void *thread_main(void *a) {
    me = (int) (long) a;
    if (mode != 'F') {
        __real_pthread_mutex_lock(&G);
        wait_turn();
        __real_pthread_mutex_unlock(&G);
    }
    vp_bodies[me]();
    if (mode != 'F') {
        __real_pthread_mutex_lock(&G);
        over[me] = 1;
        __real_pthread_mutex_unlock(&G);
        yield_(1);
    }
    return NULL;
}

static int patience = 100000;
static void *watchdog(void *a) {
    int last = -1, same = 0;
    (void) a;
    for (;;) {
        usleep(patience);
        if (sh->steps == last) same++; else { same = 0; last = sh->steps; }
        if (same >= 8) {
            __real_pthread_mutex_lock(&G);
            running_free = 1;
            sh->freed = 1;
            pthread_cond_broadcast(&C);
            __real_pthread_mutex_unlock(&G);
            return NULL;
        }
    }
}

/* main() of a real program uses the stack the constructors used */
static int __attribute__((noinline)) use_stack(void) {
    volatile char b[65536];
    for (int i = 0; i < (int) sizeof b; i++) b[i] = (char) 0xa5;
    return b[77];
}

int vp_main(void) {
    int used = use_stack();
    pthread_t th[MAXT], w;
    for (long t = 0; t < vp_nthreads; t++) pthread_create(&th[t], NULL, thread_main, (void *) t);
    if (mode != 'F') {
        pthread_create(&w, NULL, watchdog, NULL);
        __real_pthread_mutex_lock(&G);
        current = mode == 'W' && nword ? word[posw++] : 0;
        if (!runnable(current)) current = 0;
        pthread_cond_broadcast(&C);
        __real_pthread_mutex_unlock(&G);
    }
    for (int t = 0; t < vp_nthreads; t++) pthread_join(th[t], NULL);
    return used == 1;
}

static void report(int i, int status) {
    FILE *f = fopen("out.trace", "rb");
    int c;
    printf("{\"i\":%d,\"status\":%d,\"steps\":%d,\"freed\":%d", i, status, sh->steps, sh->freed);
#define ARR(n) printf(",\"" #n "\":["); for (int t = 0; t < vp_nthreads; t++) printf("%s%d", t ? "," : "", sh->n[t]); printf("]");
    ARR(begun) ARR(ending) ARR(finished)
    printf(",\"out\":\"");
    if (f) { while ((c = fgetc(f)) != EOF) printf("%02x", c); fclose(f); }
    printf("\"}\n");
    fflush(stdout);
}

__attribute__((constructor(101 - 1))) static void vp_setup(void) {
    const char *list = getenv("VP_RUNS");
    FILE *f;
    static char line[8192], *all;
    char *at;
    size_t len;
    int i = 0, freed = 0;
    if (!list) return;
    sh = (struct shared *) mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    f = fopen(list, "r");
    if (!f) _exit(5);
    /* read everything first: a child's exit would move the shared file position */
    all = (char *) malloc(1 << 24);
    len = fread(all, 1, (1 << 24) - 1, f);
    all[len] = 0;
    fclose(f);
    for (at = all; *at; at = strchr(at, '\n') + 1) {
        char *p = line;
        int status;
        pid_t pid;
        if (!strchr(at, '\n')) break;
        snprintf(line, sizeof line, "%.*s", (int) (strchr(at, '\n') - at), at);
        memset((void *) sh, 0, sizeof *sh);
        unlink("out.trace");
        fflush(stdout);
        pid = fork();
        if (pid == 0) {
            /* mode crash_at crash_how args... */
            mode = *p++;
            crash_at = strtol(p, &p, 10);
            crash_how = strtol(p, &p, 10);
            if (mode == 'W') { char *q; nword = 0; while (nword < 512) { long v = strtol(p, &q, 10); if (q == p) break; word[nword++] = (int) v; p = q; } }
            if (mode == 'S') { k1 = strtol(p, &p, 10); k2 = strtol(p, &p, 10); }
            if (mode == 'R') { rnd = strtoull(p, &p, 10) * 2654435769ull + 88172645463325252ull; percent = strtol(p, &p, 10); next_rnd(); next_rnd(); }
            /* a lock this file does not know: do not wait for the watchdog each time */
            if (freed > 5) patience = 20000;
            if (freed > 60) mode = 'F';
            { int d = open("/dev/null", O_WRONLY); dup2(d, 1); }
            alarm(20);
            return;
        }
        waitpid(pid, &status, 0);
        freed += sh->freed;
        report(i++, status);
    }
    _exit(0);
}
#ifdef __cplusplus
}
#endif
