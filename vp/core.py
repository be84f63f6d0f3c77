"""Build, run and validate: the machinery shared by all checks.

The decisions are taken by TLC on the specification modules in /verif/spec; this
file only builds the driver from /repo's working tree, runs scripts of API calls,
turns what was observed into an event log and hands the log to TLC."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
JARS = ":".join(["/opt/veriftools/tla/tla2tools.jar",
                 "/opt/veriftools/tla/CommunityModules-deps.jar"])
NCPU = min(8, os.cpu_count() or 8)


class Infra(Exception):
    """The machinery failed: no statement about the property."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------- build
def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return -99, out, err
    return p.returncode, out, err


SRC = ["cffi-interface/trace.cpp", "cffi-interface/trace-db.cpp"]
FLAGS = ["-std=c++11", "-w", "-O1", "-g1", "-fno-omit-frame-pointer",
         "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-pthread"]


def build(name, mains, flags=None, extra=(), srcs=None):
    """Compile the driver together with the library sources of /repo."""
    flags = FLAGS if flags is None else flags
    outdir = os.path.join(scratch(), "build-" + name)
    os.makedirs(outdir, exist_ok=True)
    inc = ["-I" + REPO + "/cffi-interface", "-I" + REPO + "/cffi-interface/trace-db"]
    units = [os.path.join(VERIF, "harness", m) for m in mains] + \
            [os.path.join(REPO, s) for s in (SRC if srcs is None else srcs)]

    def one(u):
        o = os.path.join(outdir, os.path.basename(u) + ".o")
        return o, run(["g++"] + flags + list(extra) + inc + ["-c", u, "-o", o], 600)
    with ThreadPoolExecutor(len(units)) as ex:
        rs = list(ex.map(one, units))
    for o, (rc, _, err) in rs:
        if rc != 0:
            raise Infra("compilation failed: " + err.decode(errors="replace")[-3000:])
    exe = os.path.join(outdir, name)
    rc, _, err = run(["g++"] + flags + [o for o, _ in rs] +
                     ["-o", exe, "-lboost_iostreams", "-lboost_serialization", "-lpthread"], 600)
    if rc != 0:
        raise Infra("link failed: " + err.decode(errors="replace")[-3000:])
    return exe


def build_lib(name="libtrace-db"):
    """The library as a shared object, without instrumentation."""
    outdir = os.path.join(scratch(), "build-" + name)
    os.makedirs(outdir, exist_ok=True)
    so = os.path.join(outdir, name + ".so")
    inc = ["-I" + REPO + "/cffi-interface", "-I" + REPO + "/cffi-interface/trace-db"]
    rc, _, err = run(["g++", "-std=c++11", "-w", "-O1", "-g1", "-fPIC", "-shared", "-pthread"] + inc +
                     [os.path.join(REPO, s) for s in SRC] +
                     ["-o", so, "-lboost_iostreams", "-lboost_serialization", "-lpthread"], 600)
    if rc != 0:
        raise Infra("compilation failed: " + err.decode(errors="replace")[-3000:])
    return so


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(WORK, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=WORK)
    return _scratch


def cleanup():
    if _scratch and os.path.isdir(_scratch) and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_scratch, ignore_errors=True)


# ----------------------------------------------------------------------- TLC
_metan = [0]
_metal = threading.Lock()


def tlc(module, cfg, workers=1, timeout=800, env=None, heap="2500m", args=(), cwd=SPEC):
    with _metal:
        _metan[0] += 1
        meta = os.path.join(scratch(), "meta%d" % _metan[0])
    gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
    cmd = ["java", gc, "-Djava.io.tmpdir=" + scratch(), "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    rc, out, err = run(cmd, timeout, cwd=cwd, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    txt = out.decode(errors="replace") + err.decode(errors="replace")
    return rc, txt


def stats(txt):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if not m:
        m = re.findall(r"(\d+) states checked", txt)
        return (int(m[-1]), int(m[-1])) if m else (0, 0)
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def model_check(module, cfg, workers=NCPU, timeout=800, heap="8g", args=()):
    """The specification itself: every listed invariant in every state."""
    t = time.time()
    rc, txt = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
    if rc != 0:
        raise Infra("model %s/%s: TLC exit %d\n%s" % (module, cfg, rc, txt[-3000:]))
    g, d = stats(txt)
    return {"model": module, "config": cfg, "states": d, "transitions": g,
            "wall_s": round(time.time() - t, 1)}


def model_fails(module, cfg, timeout=800):
    """A configuration with one design decision switched off: the invariants must notice."""
    t = time.time()
    rc, txt = tlc(module, cfg, workers=2, timeout=timeout, heap="4g")
    bad = re.findall(r"Invariant (\w+) is violated", txt)
    if rc != 12 or not bad:
        raise Infra("model %s/%s should violate an invariant: TLC exit %d\n%s" % (module, cfg, rc, txt[-2000:]))
    g, d = stats(txt)
    return {"model": module, "config": cfg, "states": d, "transitions": g, "expected_violation": bad[0],
            "wall_s": round(time.time() - t, 1)}


# ----------------------------------------------------------------- scenarios
class Scenario:
    """A sequence of API calls.  Every call is a driver line plus the event its
    outcome is merged into.  Files are numbered per scenario."""

    def __init__(self, name):
        self.name = name
        self.files = []
        self.ops = []          # (line template with {fN}, event dict or None)
        self.qkeys = {}
        self.cost = 1.0

    def file(self, data):
        self.files.append(bytes(data))
        self.cost += len(data) / 400.0
        return len(self.files) - 1

    def op(self, line, ev=None, **kw):
        if ev is not None:
            kw["ev"] = ev
            self.ops.append((line, kw))
        else:
            self.ops.append((line, None))
        self.cost += 1

    # ---- the interface
    def reset(self): self.op("RESET", "RESET")
    def db(self, d): self.op("D %d" % d, "D", d=d)
    def add(self, d, f, cut=-1, max=0, timeout=0):
        self.op("A %d {f%d} %d %d %d" % (d, f, cut, max, timeout), "A", d=d, f=f, cut=cut, max=min(max, 0x7fffffff))
    def add_missing(self, d, timeout=0): self.op("AM %d %d" % (d, timeout), "AM", d=d)
    def add_fifo(self, d, f, chunks, max=0):
        self.op("AF %d {f%d} %d %d %s" % (d, f, max, len(chunks), " ".join(map(str, chunks))),
                "A", d=d, f=f, cut=-1, max=min(max, 0x7fffffff))
    def read(self, h, f, cut=-1, max=0):
        self.op("R %d {f%d} %d %d" % (h, f, cut, max), "R", h=h, f=f, cut=cut, max=min(max, 0x7fffffff))
    def read_fifo(self, h, f, chunks, max=0):
        self.op("RF %d {f%d} %d %d %s" % (h, f, max, len(chunks), " ".join(map(str, chunks))),
                "R", h=h, f=f, cut=-1, max=min(max, 0x7fffffff))
    def add_held(self, d, f, max):
        """through a pipe the writer keeps open"""
        self.op("AH %d {f%d} %d 1 100" % (d, f, max), "A", d=d, f=f, cut=-1, max=min(max, 0x7fffffff))
    def read_held(self, h, f, max):
        self.op("RH %d {f%d} %d 1 100" % (h, f, max), "R", h=h, f=f, cut=-1, max=min(max, 0x7fffffff))
    def read_chunks(self, h, f, chunk, cut=-1, max=0):
        self.op("RC %d {f%d} %d %d %d" % (h, f, cut, max, chunk), "R", h=h, f=f, cut=cut, max=min(max, 0x7fffffff))
    def cuts(self, f, step=1):
        self.op("CUTS {f%d} %d" % (f, step), "CUTS", f=f, step=step)
        self.cost += len(self.files[f]) / step / 10.0
    def free(self, h): self.op("X %d" % h, "X", h=h)
    def free_db(self, d): self.op("XD %d" % d, "XD", d=d)
    def count(self, d): self.op("NT %d" % d, "NT", d=d)
    def dump_db(self, d): self.op("DD %d" % d, "DD", d=d); self.cost += 5
    def dump_idx(self, d, i): self.op("DI %d %d" % (d, i), "DI", d=d, idx=i)
    def dump(self, h): self.op("DT %d" % h, "DT", h=h); self.cost += 3
    def build(self, h, tr, unused=None):
        """tr: what gen.contents returns; unused: a random generator which fills the bits that do not
        belong to values of 1, 2 and 4 bytes"""
        L = ["TC %d %d" % (h, len(tr["names"]))] + [hexs(n) for n in tr["names"]]
        L.append(str(len(tr["types"])))
        L += ["%d %d %d" % (t["name"], t["fmt"], t["size"]) for t in tr["types"]]
        L.append(str(len(tr["points"])))
        num = lambda w: "%x" % int.from_bytes(bytes(w), "little")
        for p in tr["points"]:
            L += [num(p["stmt"]), str(len(p["aux"]))] + [num(a) for a in p["aux"]]
            L.append(str(len(p["sizes"])))
            L += ["%s %s" % (num(b["addr"]), num(b["size"])) for b in p["sizes"]]
            L.append(str(len(p["vars"])))
            for v in p["vars"]:
                val = v["val"]
                if unused and v["f"] != 4 and v["size"] in (1, 2, 4):
                    fill = unused.choice([0, 255, unused.randrange(256)])
                    val = val[:v["size"]] + [fill] * (8 - v["size"])
                L.append("%d %d %d %d %d %s %s" % (v["n"], v["t"], v["f"], v["size"], v["has"], num(v["buf"]),
                                                   hexs(val) if v["f"] == 4 else num(val)))
        self.op(" ".join(L), "TC", h=h, tr=tr)
    def add_object(self, d, h): self.op("AC %d %d" % (d, h), "AC", d=d, h=h)
    def copy_db(self, a, b): self.op("DC %d %d" % (a, b), "DC", a=a, b=b)
    def copy(self, h, r):
        l, e = self.ref(r)
        self.op("TK %d %s" % (h, l), "TK", h=h, ref=e)
    def serialize(self, d, x): self.op("S %d %d" % (d, x), "S", d=d, x=x)
    def restore(self, x, d): self.op("U %d %d" % (x, d), "U", d=d, x=x)

    @staticmethod
    def ref(r):
        # ("t", h) or ("d", d, i)
        if r[0] == "t":
            return "t %d" % r[1], {"h": r[1]}
        return "d %d %d" % (r[1], r[2]), {"d": r[1], "idx": r[2]}

    def write(self, r):
        """returns the file number the written bytes get"""
        self.files.append(None)
        f = len(self.files) - 1
        l, e = self.ref(r)
        self.op("W {f%d} %s" % (f, l), "W", f=f, ref=e)
        self.cost += 5
        return f
    def equal(self, a, b):
        la, ea = self.ref(a); lb, eb = self.ref(b)
        self.op("E %s %s" % (la, lb), "E", a=ea, b=eb)
    def equal_db(self, a, b): self.op("ED %d %d" % (a, b), "ED", a=a, b=b)
    def equal_points(self, a, b):
        la, ea = self.ref(a); lb, eb = self.ref(b)
        self.op("EP %s %s" % (la, lb), "EP", a=ea, b=eb)
        self.cost += 10
    def map_new(self, m, bits=()):
        self.op("MN %d %d %s" % (m, len(bits), " ".join(map(str, bits))), "MN", m=m)
    def map_clear(self, m): self.op("MX %d" % m, "MX", m=m)
    def map_update(self, m, a, s):
        self.op("MU %d %x %x" % (m, a, s), "MU", m=m, a=word(a), s=word(s))
    def map_lookup(self, m, addrs):
        self.op("ML %d %d %s" % (m, len(addrs), " ".join("%x" % a for a in addrs)), "ML",
                m=m, **{"as": [word(a) for a in addrs]})
        self.cost += len(addrs) / 5.0
    def concurrent(self, nt, ops, mode, cost=1):
        """ops: (thread, db, file, chunk, max)"""
        self.op("CON %d %d %s %s" % (nt, len(ops), " ".join("%d %d {f%d} %d %d" % o for o in ops), mode),
                "CON")
        self.cost += cost

    def rand_bits(self, bits):
        self.op("RND %d %s" % (len(bits), " ".join(map(str, bits))))

    def hold(self, k, r):
        """the points of a trace, kept"""
        l, e = self.ref(r)
        self.op("HP %d %s" % (k, l), "HP", k=k, ref=e)
    def look(self, k, blobs=True):
        self.op("HD %d %d" % (k, blobs), "HD", k=k, blobs=bool(blobs))
        self.cost += 3
    def give_back(self, k): self.op("HX %d" % k, "HX", k=k)
    def mark(self): self.op("MARK", "MARK")
    def bound(self, over): self.op("NOP", "BOUND", over=over)

    def query(self, d, idx, q, seed=0, keep=1, memo=False, cost=3, hold=None):
        """q: dict vars (list of type lists), hard (pred or None), soft (preds),
        mask, stmt"""
        ser = json.dumps([q["vars"], q["hard"], q["soft"], q["mask"], q["stmt"], keep])
        qk = self.qkeys.setdefault(ser, len(self.qkeys))
        line = "Q %d %d %d" % (d, idx, len(q["vars"]))
        for fv in q["vars"]:
            line += " %d %s" % (len(fv), " ".join(map(str, fv)))
        line += " " + pred_line(q["hard"]) + " %d" % len(q["soft"])
        for s in q["soft"]:
            line += " " + pred_line(s)
        line += " %d %d %x %x" % (seed, keep, q["mask"], q["stmt"])
        ev = dict(d=d, idx=idx, vars=q["vars"], hard=pred_tla(q["hard"]),
                  soft=[pred_tla(s) for s in q["soft"]], mask=word(q["mask"]),
                  stmt=word(q["stmt"]), seed=[seed >> 16, seed & 0xffff], keep=keep, qk=qk, memo=memo)
        if hold is not None:
            self.op("HQ %d %s" % (hold, line[2:]), "HQ", k=hold, **ev)
        else:
            self.op(line, "Q", **ev)
        self.cost += cost
        return ev

    def query_file(self, d, idx, q, file, seed=0, keep=1, cost=3):
        """the query restricted to a file of a project (through the Lisp front end's selection)"""
        ev = self.query(d, idx, dict(q, mask=0, stmt=0), seed=seed, keep=keep, cost=cost)
        line, _ = self.ops.pop()
        self.op("QF %x %s" % (file, line[2:]), "QF", file=word(file), **ev)
    def pack(self, file, ast):
        """the identifier of a statement (of a file, or of none)"""
        self.op("ID %d %x %x" % (file is not None, file or 0, ast), "ID", has=file is not None,
                file=word(file or 0), ast=word(ast))
    def ids(self, d, i): self.op("DF %d %d" % (d, i), "DF", d=d, idx=i)

    def cover(self, d, idx, q, keep=1):
        """all eligible points have been chosen by the seeded queries so far"""
        ser = json.dumps([q["vars"], q["hard"], q["soft"], q["mask"], q["stmt"], keep])
        self.op("NOP", "COVER", d=d, idx=idx, vars=q["vars"], hard=pred_tla(q["hard"]),
                soft=[pred_tla(s) for s in q["soft"]], mask=word(q["mask"]),
                stmt=word(q["stmt"]), qk=self.qkeys[ser])

    def cover_by(self, d, idx, q, lo, hi, keep=1):
        """some point from position lo to hi has been chosen by the seeded queries so far"""
        ser = json.dumps([q["vars"], q["hard"], q["soft"], q["mask"], q["stmt"], keep])
        self.op("NOP", "COVERBY", d=d, idx=idx, qk=self.qkeys[ser], lo=lo, hi=hi)

    def add_points(self, d, names, pts):
        """pts: list of (stmt, aux list, vars list of (n, tn, val, has, buf))"""
        line = "AP %d %d %s %d" % (d, len(names), " ".join(hexs(n) for n in names), len(pts))
        evp = []
        for st, aux, vs in pts:
            line += " %x %d %s %d" % (st, len(aux), " ".join("%x" % a for a in aux), len(vs))
            for n, tn, val, has, buf in vs:
                line += " %d %d %x %d %x" % (n, tn, val, has, buf)
            evp.append({"stmt": word(st), "aux": [word(a) for a in aux],
                        "vars": [{"n": n, "tn": tn, "val": word(v), "has": bool(h),
                                  "buf": word(b)} for n, tn, v, h, b in vs]})
        self.op(line, "AP", d=d, names=[list(n) for n in names], pts=evp)


def word(v, n=8):
    return list(int(v & (256 ** n - 1)).to_bytes(n, "little"))


def hexs(b):
    return bytes(b).hex() if len(b) else "-"


KIND = {"ref": 1, "size": 2, "value": 3, "distinct": 4, "s": 5, "u": 6, "f": 7,
        "and": 8, "or": 9, "not": 10, ">": 11, ">=": 12, "<": 13, "<=": 14, "=": 15,
        "+": 16, "-": 17, "*": 18, "/": 19}


def pred_line(p):
    if p is None:
        return "N"
    k = p[0]
    ref = lambda i: "P 1 %x 0" % i
    if k in ("size", "value"):
        return "P %d 0 1 %s" % (KIND[k], ref(p[1]))
    if k == "distinct":
        return "P 4 0 2 %s %s" % (ref(p[1]), ref(p[2]))
    if k in ("s", "u", "f"):
        return "P %d %x 0" % (KIND[k], p[1])
    return "P %d 0 %d %s" % (KIND[k], len(p) - 1, " ".join(pred_line(c) for c in p[1:]))


def pred_tla(p):
    if p is None:
        return {"k": "null"}
    k = p[0]
    if k in ("size", "value"):
        return {"k": k, "i": p[1]}
    if k == "distinct":
        return {"k": k, "i": p[1], "j": p[2]}
    if k in ("s", "u", "f"):
        return {"k": k, "v": word(p[1])}
    return {"k": k, "c": [pred_tla(c) for c in p[1:]]}


# -------------------------------------------------------------------- shards
class Shard:
    def __init__(self, scns, tag):
        self.scns = scns
        self.tag = tag
        self.script, self.evs, self.owner, self.files = [], [], [], []
        self.tally = {}
        for si, s in enumerate(scns):
            base = len(self.files)
            self.files += s.files
            self.emit("RESET", {"ev": "RESET"}, si)
            for i, f in enumerate(s.files):
                if f is not None:
                    self.emit("F %d %s" % (base + i, hexs(f)), None, si)
            sub = {"f%d" % i: str(base + i) for i in range(len(s.files))}
            for line, ev in s.ops:
                if "{" in line:
                    line = re.sub(r"\{(f\d+)\}", lambda m: sub[m.group(1)], line)
                if ev is not None and "f" in ev:
                    ev = dict(ev, f=base + ev["f"])
                if line.startswith("NOP"):
                    ev = dict(ev, nop=True)
                    line = "FD"
                self.emit(line, ev, si)

    def emit(self, line, ev, owner):
        self.script.append(line)
        self.evs.append(ev)
        self.owner.append(owner)


ASAN = "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:" \
       "max_allocation_size_mb=8192:max_malloc_fill_size=1048576:malloc_fill_byte=171:handle_abort=1"


def run_driver(exe, shard, timeout=300, env=None, args=()):
    """-> (events, owners, crash note or None)"""
    d = os.path.join(scratch(), "drv-" + shard.tag)
    os.makedirs(d, exist_ok=True)
    sc = os.path.join(d, "script")
    with open(sc, "w") as f:
        f.write("\n".join(shard.script) + "\n")
    e = dict(os.environ, ASAN_OPTIONS=ASAN)
    e.update(env or {})
    rc, out, err = run((exe if isinstance(exe, list) else [exe]) + [sc, d] + list(args), timeout, env=e)
    if rc == 5:
        raise Infra("driver script error: " + err.decode(errors="replace")[-500:])
    events, owners = [], []
    seen = 0
    crash = None
    for line in out.split(b"\n"):
        if not line.strip():
            continue
        try:
            o = json.loads(line)
        except ValueError:
            break
        if "hang" in o:
            crash = "no answer within the time limit"
            break
        i = o.pop("i")
        seen = i + 1
        ev = shard.evs[i]
        if o.pop("skip", False) or ev is None:
            continue
        if "outs" in o:
            # concurrent runs: every different outcome is a history of its own
            for out in o["outs"]:
                es = [{"ev": "D", "d": d["d"]} for d in out["dbs"]] + out["evs"]
                for d in out["dbs"]:
                    es += [{"ev": "NT", "d": d["d"], "n": len(d["trs"])},
                           {"ev": "DD", "d": d["d"], "trs": d["trs"]}, {"ev": "XD", "d": d["d"]}]
                events += es
                owners += [shard.owner[i]] * len(es)
            for k in ("runs", "steps", "uncontrolled"):
                shard.tally[k] = shard.tally.get(k, 0) + o[k]
            shard.tally["outcomes"] = shard.tally.get("outcomes", 0) + len(o["outs"])
            continue
        ev = dict(ev)
        if not ev.pop("nop", False):
            o.pop("ok", None)
            ev.update(o)
        events.append(ev)
        owners.append(shard.owner[i])
    if rc == -99:
        crash = "no answer within the time limit"
    elif rc != 0 and crash is None:
        crash = "exit status %d: %s" % (rc, err.decode(errors="replace")[-1500:])
    if crash is None and seen != len(shard.script):
        raise Infra("driver stopped early without an error")
    if crash is not None:
        i = min(seen, len(shard.script) - 1)
        events.append({"ev": "CRASH", "op": shard.script[i][:2000], "note": crash})
        owners.append(shard.owner[i])
    return events, owners, crash


def validate(shard, events, module="DBTrace", cfg="DBTrace.cfg", timeout=800):
    """-> number of explained events, states"""
    d = os.path.join(scratch(), "val-" + shard.tag)
    os.makedirs(d, exist_ok=True)
    lf, ff = os.path.join(d, "log.ndjson"), os.path.join(d, "files.ndjson")
    with open(lf, "w") as f:
        for ev in events:
            f.write(json.dumps(ev) + "\n")
    with open(ff, "w") as f:
        for b in shard.files or [b""]:
            f.write(json.dumps({"b": list(b or b"")}) + "\n")
    rc, txt = tlc(module, cfg, timeout=timeout, env={"VLOG": lf, "VFILES": ff})
    m = re.search(r'<<"REACHED", (-?\d+), (\d+)>>', txt)
    if not m and re.search(r"Error: (Evaluating|Attempted|TLC threw|The following)|was evaluating the nested", txt) \
            and not re.search(r"OutOfMemory|StackOverflow|Java heap|analysis failed|\*\*\* Errors", txt):
        # an observation of a shape the specification has no value for
        ns = [int(x) for x in re.findall(r"^State (\d+):", txt, re.M)]
        log("validator: " + txt[-1500:])
        return min(max(ns + [1]) - 1, len(events) - 1), stats(txt)
    if not m or int(m.group(2)) != len(events):
        raise Infra("validator: TLC exit %d\n%s" % (rc, txt[-3000:]))
    shutil.rmtree(d, ignore_errors=True)
    return int(m.group(1)), stats(txt)


def split(scns, n):
    """balance by cost, keep order within a shard"""
    bins = [[0.0, []] for _ in range(n)]
    for s in sorted(scns, key=lambda s: -s.cost):
        b = min(bins, key=lambda b: b[0])
        b[0] += s.cost
        b[1].append(s)
    return [b[1] for b in bins if b[1]]


class Result:
    def __init__(self):
        self.tier = "quick"
        self.models, self.samples = [], []
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.kinds = {}
        self.violation = None
        self.extra = {}

    def add_model(self, m):
        self.models.append(m)
        self.states += m["states"]
        self.transitions += m["transitions"]


def conformance(exe, scns, res, prop, timeout=800, module="DBTrace", cfg="DBTrace.cfg",
                env=None, strict=True):
    """Run all scenarios and validate the logs; records the first violation."""
    if not scns:
        return
    shards = [Shard(b, "%s%d" % (prop, i)) for i, b in enumerate(split(scns, NCPU))]
    deadline = time.time() + timeout

    def one(sh):
        evs, own, crash = run_driver(exe, sh, env=env)
        n, st = validate(sh, evs, module, cfg, timeout=max(30, deadline - time.time()))
        return sh, evs, own, n, st
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(one, shards))
    for sh, evs, own, n, st in outs:
        res.states += st[1]
        res.transitions += st[0]
        res.events += len(evs)
        res.traces += len(sh.scns)
        for k, v in sh.tally.items():
            res.extra[k] = res.extra.get(k, 0) + v
        for ev in evs:
            res.kinds[ev["ev"]] = res.kinds.get(ev["ev"], 0) + 1
        if n != len(evs) and res.violation is None:
            # confirm with the scenario alone
            bad = sh.scns[own[n]]
            if not strict and "time limit" not in evs[n].get("note", ""):
                # free-running threads: the recorded history itself is the proof
                lo = max(i for i in range(n + 1) if own[i] == own[n] and evs[i]["ev"] == "RESET")
                res.violation = (bad.name, Shard([bad], "x").script, evs[lo:n + 1], n - lo)
                continue
            s2 = Shard([bad], "%sre%d" % (prop, len(res.models)))
            e2, o2, _ = run_driver(exe, s2, env=env)
            n2, _ = validate(s2, e2, module, cfg)
            if n2 != len(e2):
                res.violation = (bad.name, s2.script, e2, n2)
            elif evs[n]["ev"] != "CRASH" or "time limit" not in evs[n]["note"]:
                # needs its predecessors: repeat the whole shard
                e3, o3, _ = run_driver(exe, sh, env=env)
                n3, _ = validate(sh, e3, module, cfg)
                if n3 != len(e3):
                    res.violation = (sh.scns[o3[n3]].name + " (after other scenarios)",
                                     sh.script, e3, n3)
                elif "exit status -9" in evs[n].get("note", ""):
                    raise Infra("the driver was killed: " + bad.name)
                else:
                    # seen once, but recorded from the real code: the record is the proof
                    lo = max(i for i in range(n + 1) if own[i] == own[n] and evs[i]["ev"] == "RESET")
                    res.violation = (bad.name + " (not repeated)", s2.script, evs[lo:n + 1], n - lo)
            else:
                raise Infra("a time limit was exceeded once, not repeatably: " + bad.name)
    if res.violation is None:
        for sh, evs, own, n, st in outs[:2]:
            for ev in evs[1:4]:
                t = json.dumps(ev)
                res.samples.append(t if len(t) < 600 else t[:600] + "...")


def save_replay(prop, v):
    name, script, events, n = v
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    with open(p, "w") as f:
        json.dump({"property": prop, "scenario": name, "explained_events": n,
                   "rejected_event": events[n] if n < len(events) else None,
                   "script": script, "events": events[:n + 1]}, f)
    return p


# ------------------------------------------------- behaviours from the models
def printed(txt, tag):
    out = []
    for line in txt.split("\n"):
        if line.startswith('"' + tag + " "):
            out.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return out


def edges(module, cfg, res=None, timeout=300):
    """all transitions of a model: (state, op, state')"""
    rc, txt = tlc(module, cfg, workers=1, timeout=timeout, heap="4g")
    if rc != 0:
        raise Infra("generator %s/%s: TLC exit %d\n%s" % (module, cfg, rc, txt[-2000:]))
    g, d = stats(txt)
    if res is not None:
        res.add_model({"model": module, "config": cfg, "states": d, "transitions": g,
                       "purpose": "transition cover"})
    es = []
    seen = set()
    for s, op, t in printed(txt, "EDGE"):
        k = (json.dumps(s), json.dumps(op), json.dumps(t))
        if k not in seen:
            seen.add(k)
            es.append((k[0], op, k[2]))
    return es


def histories(module, cfg, num, depth, seed, res=None, timeout=300):
    """random behaviours of a model"""
    rc, txt = tlc(module, cfg, workers=1, timeout=timeout, heap="4g",
                  args=["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)])
    hs = {}
    for h in printed(txt, "HIST"):
        hs.setdefault(json.dumps(h[:-1]), h)
    if not hs:
        raise Infra("generator %s/%s: no behaviours\n%s" % (module, cfg, txt[-2000:]))
    if res is not None:
        g, _ = stats(txt)
        res.add_model({"model": module, "config": cfg, "states": g, "transitions": g,
                       "purpose": "simulation"})
    return list(hs.values())


def walks(es, init, maxlen, rnd):
    """paths from init which together take every transition"""
    from collections import deque
    out = {}
    for s, op, t in es:
        out.setdefault(s, []).append([op, t, False])
    for s in sorted(out):
        rnd.shuffle(out[s])
    left = sum(len(v) for v in out.values())
    res = []
    while left:
        cur, path = init, []
        progress = False
        while len(path) < maxlen:
            e = next((e for e in out.get(cur, []) if not e[2]), None)
            if e is None:
                # nearest state with an untaken transition
                prev, q, goal = {cur: None}, deque([cur]), None
                while q and goal is None:
                    s = q.popleft()
                    for e2 in out.get(s, []):
                        if e2[1] not in prev:
                            prev[e2[1]] = (s, e2)
                            if any(not x[2] for x in out.get(e2[1], [])):
                                goal = e2[1]
                                break
                            q.append(e2[1])
                if goal is None:
                    break
                seg = []
                s = goal
                while prev[s]:
                    seg.append(prev[s][1])
                    s = prev[s][0]
                for e2 in reversed(seg):
                    path.append(e2[0])
                cur = goal
                continue
            e[2] = True
            left -= 1
            progress = True
            path.append(e[0])
            cur = e[1]
        res.append(path)
        if not progress:
            break
    return res
