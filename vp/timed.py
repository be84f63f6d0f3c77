"""C16: timed runs of the library on real files and pipes, judged by OpenTrace."""
import json, os, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from . import core, gen
from .checks import check, rng, together
from .gen import le

OPENWAIT = ("openwait", ["openwait.cpp"])
LIMIT = 25      # seconds after which a run counts as hanging


class Run:
    """one process: groups of calls made at the same time"""

    def __init__(self, name, data):
        self.name, self.data = name, data
        self.lines, self.calls, self.limit = [], [], LIMIT

    def high(self, n): self.lines.append("HIGH %d" % n); return self
    def sig(self, a, p, n): self.lines.append("SIG %d %d %d" % (a, p, n)); return self

    def call(self, api, kind, path, T, acts=(), max=0, go=True):
        self.lines.append("CALL %s %s %s %d %d %d %s" % (
            api, kind, path, T, max, len(acts), " ".join(" ".join(map(str, a)) for a in acts)))
        self.calls.append(kind)
        if go:
            self.lines.append("GO")
        return self


def execute(exe, run, tag):
    d = os.path.join(core.scratch(), "t-" + tag)
    os.makedirs(d, exist_ok=True)
    os.makedirs(d + "/dir", exist_ok=True)
    with open(d + "/data", "wb") as f:
        f.write(run.data)
    with open(d + "/script", "w") as f:
        f.write("\n".join(run.lines) + "\n")
    e = dict(os.environ, ASAN_OPTIONS=core.ASAN)
    rc, out, err = core.run([exe, d + "/script", d], run.limit, env=e)
    shutil.rmtree(d, ignore_errors=True)
    if rc == 5:
        raise core.Infra("timed driver: " + err.decode(errors="replace")[-500:])
    evs = []
    for line in out.decode(errors="replace").split("\n"):
        if not line.strip():
            continue
        try:
            o = json.loads(line)
        except ValueError:
            break
        if "skip" in o:
            return None
        evs.append(o)
    if rc != 0:
        evs.append({"ev": "CRASH", "note": "no answer within %d s" % run.limit if rc == -99 else
                    "exit status %d: %s" % (rc, err.decode(errors="replace")[-1500:])})
    return evs


def judge(runs, evs):
    """-> (set of runs with a rejected event, statistics)"""
    d = os.path.join(core.scratch(), "judge")
    os.makedirs(d, exist_ok=True)
    own = []
    with open(d + "/log", "w") as f:
        for i, es in enumerate(evs):
            for e in es or []:
                f.write(json.dumps(dict(e, f=i)) + "\n")
                own.append(i)
    with open(d + "/files", "w") as f:
        for r in runs:
            f.write(json.dumps({"b": list(r.data)}) + "\n")
    rc, txt = core.tlc("OpenTrace", "OpenTrace.cfg", env={"VLOG": d + "/log", "VFILES": d + "/files"})
    m = re.search(r'<<"REACHED", (-?\d+), (\d+)>>', txt)
    if not m or int(m.group(1)) != len(own):
        raise core.Infra("OpenTrace: TLC exit %d\n%s" % (rc, txt[-3000:]))
    bad = {own[int(x) - 1]: int(x) - 1 for x in reversed(re.findall(r'<<"BAD", (\d+)>>', txt))}
    return bad, core.stats(txt), own


def trace(r, points=4):
    t = gen.rtrace(r, points=points, vars=3, types=3, names=[b"x", b"y", b"int", b"char*"], events=0.3)
    for i, p in enumerate(t.points):
        if not any(e[0] == "S" for e in p):
            p.insert(0, ("S", i + 1))
    return t


def pieces(n, times, cuts):
    """the writer's data acts: piece k at times[k]"""
    cs = [0] + sorted(set(cuts) - {0, n})[:len(times) - 1] + [n]
    return [("d", t, cs[i], cs[i + 1] - cs[i]) for i, t in enumerate(times[:len(cs) - 1])]


def scenarios(r, tier):
    runs = []
    apis = ["add", "read"]

    def new(name, data=None):
        d = trace(r).encode() if data is None else data
        runs.append(Run(name, d))
        return runs[-1], len(d)

    def both(name, f):
        for api in apis:
            run, n = new("%s (%s)" % (name, api))
            f(run, n, api)

    # waits longer than anybody's habitual limit (first: they take longest)
    long = [(0, 6500), (0, 11500), (0, 16500), (30, 11500), (40, 16500), (12, None)]
    if tier == "thorough":
        long += [(0, 31000), (0, 62000), (100, 62000), (35, None)]
    for T, at in long:
        for api in apis:
            run, n = new("T=%d, data after %s ms (%s)" % (T, at, api))
            run.call(api, "fifo", "p", T, [] if at is None else [("o", r.choice([0, at - 200]))] + pieces(n, [at], []) + [("c", at + 100)])
            run.limit = LIMIT + (at or T * 1000) // 1000
            if at:
                run, n = new("T=%d, pause of %s ms (%s)" % (T, at, api))
                run.call(api, "fifo", "p", T, [("o", 50)] + pieces(n, [100, at], [r.randrange(1, n)]) + [("c", at + 100)])
                run.limit = LIMIT + at // 1000
    # decided at once, with any timeout
    for T in (0, 1, 7):
        both("missing T=%d" % T, lambda run, n, api: run.call(api, "missing", "nothing-here", T).call(api, "missing", "dir/x/y", T))
        both("directory T=%d" % T, lambda run, n, api: run.call(api, "dir", "dir", T))
        both("regular T=%d" % T, lambda run, n, api: run.call(api, "file", "data", T).call(api, "file", "data", T, max=2))
    for api in apis:
        t = trace(r).encode()
        for nm, d in [("empty", b""), ("cut", t[:-1]), ("header cut", t[:5]), ("bad tag", t + b"\7"), ("bad name", t + b"\2" + b"\xff" * 8)]:
            run, n = new("regular %s (%s)" % (nm, api), d)
            for _ in range(3):
                run.call(api, "file", "data", 5)
        run, n = new("many calls (%s)" % api)
        for k in range(20):
            run.call(api, "missing", "gone", 1).call(api, "file", "data", 0)
    # no data in time
    for T in (1, 2, 3):
        both("pipe without writer T=%d" % T, lambda run, n, api: run.call(api, "fifo", "p", T))
    both("pipe with a silent writer", lambda run, n, api: run.call(api, "fifo", "p", 1, [("o", 200), ("c", 4500)]))
    both("pipe with a silent writer, T=2", lambda run, n, api: run.call(api, "fifo", "p", 2, [("o", 0), ("c", 5500)]))
    # in time, sooner or later; the rest however slowly
    for T, at in ((1, 100), (1, 650), (2, 1500), (3, 2400), (0, 100), (0, 2600), (5, 3500)):
        both("data after %d ms, T=%d" % (at, T), lambda run, n, api: run.call(api, "fifo", "p", T,
             [("o", max(0, at - r.choice([0, 50, at])))] + pieces(n, [at], []) + [("c", at + r.choice([0, 30, 400]))]))
    for T in (0, 1, 2):
        for cut in (1, 8, None):
            def slow(run, n, api):
                c = sorted({cut or r.randrange(1, n), r.randrange(1, n), r.randrange(1, n)} - {0, n})
                run.call(api, "fifo", "p", T, [("o", 50)] + pieces(n, [200, 200 + 1000 * T + 700, 2900 + 200 * T, 3000 + 200 * T][:len(c) + 1], c)
                         + [("c", 3300 + 300 * T)])
            both("pause longer than the timeout, T=%d, first piece %s" % (T, cut), slow)
    both("trickle T=1", lambda run, n, api: run.call(api, "fifo", "p", 1, [("o", 20)] + pieces(
         n, [100 + 90 * k for k in range(25)], sorted({r.randrange(1, n) for _ in range(24)})) + [("c", 2800)]))
    both("long pause before the end, T=1", lambda run, n, api: run.call(api, "fifo", "p", 1, [("o", 20)] + pieces(n, [100], []) + [("c", 3600)]))
    # the end of the pipe without data
    for T in (0, 2, 20):
        both("end without data T=%d" % T, lambda run, n, api: run.call(api, "fifo", "p", T, [("o", 100), ("c", 500)]))
    # bad data through a pipe
    for api in apis:
        t = trace(r).encode()
        for nm, d in [("cut", t[:-1]), ("bad tag", t + b"\7" + t), ("header cut", t[:6])]:
            run, n = new("pipe %s (%s)" % (nm, api), d)
            k = r.randrange(1, n)
            run.call(api, "fifo", "p", 2, [("o", 50)] + pieces(n, [100, 1500], [k]) + [("c", 1900)])
        t = trace(r, 6)
        run, n = new("pipe with a limit (%s)" % api, t.encode() + b"\7\7")
        run.call(api, "fifo", "p", 2, [("o", 50)] + pieces(n, [100, 1300], [n // 2]) + [("c", 1600)], max=2)
    # large timeouts
    for T in (257, 4295, 65537, 2147484, 4194304, 4294968, 1 << 31, (1 << 32) - 1):
        run, n = new("T=%d" % T)
        run.call(r.choice(apis), "fifo", "p", T, [("o", 1300)] + pieces(n, [1500], []) + [("c", 1600)])
    # signals
    for T, at in ((2, None), (2, 1300), (0, 1800), (3, 2300)):
        for period in (130, 700):
            def signals(run, n, api):
                run.sig(100, period, 3000 // period)
                run.call(api, "fifo", "p", T, [] if at is None else [("o", at - 100)] + pieces(n, [at, at + 400], [n // 2]) + [("c", at + 600)])
            both("signals each %d ms, T=%d, data at %s" % (period, T, at), signals)
    # descriptors above 1024
    for T, at in ((2, 700), (1, None), (0, 700)):
        run, n = new("high descriptor, T=%d, data at %s" % (T, at))
        run.high(1100 if at else 1030)
        run.call(r.choice(apis), "fifo", "p", T, [] if at is None else [("o", at)] + pieces(n, [at], []) + [("c", at + 200)])
        run.call(r.choice(apis), "file", "data", T)
    # calls at the same time do not disturb each other
    for k in range(3):
        run, n = new("at the same time %d" % k)
        run.call("add", "fifo", "p1", 1, go=False)
        run.call("read", "fifo", "p2", 3, [("o", 1700)] + pieces(n, [2000], []) + [("c", 2300)], go=False)
        run.call("add", "fifo", "p3", 0, [("o", 2500)] + pieces(n, [2600, 3000], [n // 3]) + [("c", 3100)], go=False)
        run.call("read", "missing", "none", 2, go=False)
        run.call("read", "fifo", "p4", 2, go=True)
        # and a pipe can be tried again
        run.call("add", "fifo", "p1", 1).call("add", "fifo", "p1", 1, [("o", 300)] + pieces(n, [500], []) + [("c", 500)])
    if tier == "thorough":
        for i in range(300):
            T = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 300, 70000, 4294967])
            run, n = new("random %d" % i)
            if r.random() < 0.3:
                run.sig(r.randrange(2000), r.choice([50, 300, 900]), r.randrange(1, 8))
            for k in range(r.choice([1, 1, 2, 3])):
                m = r.choice([1, 2, 4, 7])
                # stay clear of the deadline
                ts = sorted(r.randrange(0, 6000) for _ in range(m))
                ts = [t if abs(t - T * 1000) > 250 else t + 600 for t in ts]
                acts = [("o", max(0, ts[0] - r.randrange(800)))] + pieces(n, sorted(ts), sorted({r.randrange(1, n) for _ in range(m - 1)}))
                if r.random() < 0.1:
                    acts = acts[:1]
                acts.append(("c", acts[-1][1] + r.choice([0, 10, 1000, 2000])))
                run.call(r.choice(apis), "fifo", "p%d" % k, T if T or r.random() < 0.5 else 0, acts, max=r.choice([0, 0, 0, 1]), go=k == 0 or r.random() < 0.5)
            if run.lines[-1] != "GO":
                run.lines.append("GO")
    return runs


@check("C16")
def c16(res, tier, seed):
    exe, = together(res, [OPENWAIT], [("OpenWait", "MC_OpenWait.cfg", {"workers": 4})])
    r = rng(seed, "C16")
    runs = scenarios(r, tier)
    with ThreadPoolExecutor(64) as ex:
        evs = list(ex.map(lambda x: execute(exe, x[1], "%d" % x[0]), enumerate(runs)))
    bad, st, own = judge(runs, evs)
    res.states += st[1]
    res.transitions += st[0]
    res.traces += sum(len(e) for e in evs if e)
    res.events += sum(len(e) for e in evs if e)
    res.extra["timed_runs"] = len(runs)
    res.extra["skipped_runs"] = sum(e is None for e in evs)
    for es in evs:
        for e in es or []:
            k = e["ev"] if e["ev"] != "OPEN" else "%s/%s/%s" % (e["api"], e["kind"], "ok" if e["ok"] else "refused")
            res.kinds[k] = res.kinds.get(k, 0) + 1
    first, tried = dict(bad), 0
    # the clock is not under control: only what is seen again on a quiet machine counts
    while bad and tried < 2:
        tried += 1
        ids = sorted(bad)[:24]
        with ThreadPoolExecutor(8) as ex:
            again = list(ex.map(lambda i: execute(exe, runs[i], "re%d-%d" % (tried, i)), ids))
        b2, _, _ = judge([runs[i] for i in ids], again)
        for k, i in enumerate(ids):
            if k in b2:
                evs[i] = again[k]
            else:
                first.pop(i)
        bad = {ids[k]: v for k, v in b2.items()}
    res.extra["runs_judged_again"] = len(first) if tried else 0
    for i in sorted(bad):
        n = 0
        while n + 1 < len(evs[i]):
            b, _, _ = judge([runs[i]], [evs[i][n:n + 1]])
            if b:
                break
            n += 1
        res.violation = (runs[i].name, runs[i].lines, evs[i], n)
        break
    if res.violation is None:
        res.samples += [json.dumps(e) for e in ([es[0] for es in evs if es][::40])[:4]]
