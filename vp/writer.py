"""C17: the run-time code of instrumented programs, extracted from /repo, compiled
with small programs and run under schedules of the Writer model; what it leaves
on disk is judged by WriterTrace."""
import json, os, re, shutil, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from . import core, instr, lisp
from .checks import check, rng

WRAPPED = ["pthread_mutex_lock", "pthread_mutex_unlock", "fputc", "putc", "fputs", "fwrite", "fflush",
           "fputc_unlocked", "fwrite_unlocked", "write",
           "flockfile", "funlockfile"]


class Runtime:
    """the C text the instrumenter inserts"""

    def __init__(self):
        env, text = {}, ""
        for f in ("traceable.lisp", "instrumentation/instrument.lisp", "instrumentation/c-cpp.lisp"):
            with open(os.path.join(core.REPO, f), encoding="utf-8", errors="replace") as h:
                t = h.read()
            text += t
            lisp.definitions(t, env)
        def get(n, *marks):
            """by name; a definition which has another name by now, by what it contains"""
            v = lisp.value(lisp.Sym(n), env)
            if v is None and "(%s)" % n in env:
                v = lisp.value([lisp.Sym(n)], env)
            if v is None and marks:
                vs = {x for x in (lisp.value(f, env) for f in env.values()) if isinstance(x, str)}
                vs = [x for x in vs if all(re.search(k, x) for k in marks)]
                v = min(vs, key=len) if vs else None
            return v
        self.decls = get("+write-trace-forward-declarations+", r"__write_trace_id\s*\([^()]*\)\s*;", r"__trace_type_description\s*;")
        self.impl = get("+write-trace-implementation+", r"__write_trace_id\s*\([^()]*\)\s*\{")
        self.macro = get("+write-trace-entry-macro+", r"define\s+__GT_TRACEDB_ENTRY_POINT")
        self.init = get("+write-trace-initialization+", r"__write_trace_header\s*\(", r"~a")
        self.log = get("+trace-instrument-log-variable-name+", r"^__sel_trace_file$")
        self.lock = get("+instrument-log-lock-variable-name+", r"^__sel_trace_file_lock$")
        self.names = get("+names-variable-name+", r"^names$")
        self.types = get("+types-variable-name+", r"^types$")
        self.env = get("*trace-instrument-handshake-env-name*", r"HANDSHAKE_FILE$")
        for k, v in vars(self).items():
            if v is None:
                raise core.Infra("could not find the run-time text (%s) in the Lisp sources" % k)
        self.order = ["env", "open", "names", "types", "nnames", "ntypes"]
        # how the initialization text is filled in
        for args in lisp.calls(text, "+write-trace-initialization+"):
            o = [self.role(json.dumps(a).lower()) for a in args]
            if sorted(o) == sorted(self.order):
                self.order = o

        self.use(instr.Calls(self.log, self.lock))
        if not self.compiles():
            # not understood after all
            self.use(instr.Calls(self.log, self.lock, known_only=True))

    def use(self, calls):
        """the calls which are inserted"""
        self.calls = calls
        self.ctypes = []
        for ct, fm, size in CTYPES:
            base = ct.rstrip("*")
            f, z = self.calls.classify(base, pointer=base != ct, default=(FMT[fm], "sizeof(%s)" % ct))
            if f is not None:
                self.ctypes.append((ct, fm, size, f, z))
        self.string = self.calls.classify("char", cstr=True, default=(FMT[BLB], "0"))
        if self.string[0] is None:
            self.string = (FMT[BLB], "0")

    def compiles(self):
        for cxx in (False, True):
            p = Program(__import__("random").Random(1), self, 1, 3, 12, wide=True)
            d = os.path.join(core.scratch(), "try." + ("cc" if cxx else "c"))
            with open(d, "w") as f:
                f.write(p.text)
            rc, _, _ = core.run(["g++", "-fpermissive", "-std=gnu++11", "-w", "-fsyntax-only", d] if cxx else ["gcc", "-w", "-fsyntax-only", d], 120)
            if rc != 0:
                return False
        return True

    @staticmethod
    def role(a):
        if "handshake" in a: return "env"
        if "count" in a: return "nnames" if "names" in a else "ntypes"
        if "open" in a: return "open"
        return "names" if "names" in a else "types" if "types" in a else "?"

    def source(self, body, names, types, opener):
        nm = ('const char *%s[] = {%s}' % (self.names, "".join('"%s", ' % n for n in names))) if names else \
            "const char **%s = NULL" % self.names
        ty = ("const __trace_type_description %s[] = {%s}" % (self.types, "".join("%s, " % t for t in types))) if types \
            else "const __trace_type_description *%s = NULL" % self.types
        vals = {"env": self.env, "open": opener, "names": nm, "types": ty, "nnames": len(names), "ntypes": len(types)}
        return self.decls + body + self.macro + self.impl + lisp.fmt(self.init, [vals[k] for k in self.order])


UNS, SGN, FLT, PTR, BLB = range(5)
FMT = ["__GT_TRACEDB_UNSIGNED", "__GT_TRACEDB_SIGNED", "__GT_TRACEDB_FLOAT", "__GT_TRACEDB_POINTER", "__GT_TRACEDB_BLOB"]
CTYPES = [("char", SGN, 1), ("int8_t", SGN, 1), ("short int", SGN, 2), ("int16_t", SGN, 2), ("int", SGN, 4), ("int32_t", SGN, 4),
          ("wchar_t", SGN, 4), ("long int", SGN, 8), ("int64_t", SGN, 8), ("unsigned char", UNS, 1), ("uint8_t", UNS, 1),
          ("unsigned short int", UNS, 2), ("uint16_t", UNS, 2), ("unsigned int", UNS, 4), ("uint32_t", UNS, 4),
          ("unsigned long int", UNS, 8), ("uint64_t", UNS, 8), ("size_t", UNS, 8), ("float", FLT, 4), ("double", FLT, 8),
          ("void*", PTR, 8)]


def literal(r, ct, fm, size):
    """(C expression, bytes)"""
    if fm in (UNS, SGN, PTR):
        v = r.choice([0, 1, (1 << (8 * size)) - 1, 1 << (8 * size - 1), (1 << (8 * size - 1)) - 1,
                      r.getrandbits(8 * size), r.getrandbits(8 * size), r.getrandbits(7), 10, 26])
        if fm == PTR:
            return "(void*)0x%xULL" % v, v.to_bytes(8, "little")
        return "(%s)0x%xULL" % (ct, v), v.to_bytes(size, "little")
    x = r.choice([0.0, -0.0, 1.5, -3.25, 1e30, 1e-40, 3.4e38, 0.1, r.uniform(-1e6, 1e6), 1.0 / 3])
    if size == 8:
        x = r.choice([x, x, 1e300, -5e-324, 1.7976931348623157e308])
        return x.hex(), struct.pack("<d", x)
    b = struct.pack("<f", x)
    return struct.unpack("<f", b)[0].hex() + "f", b


class Program:
    def __init__(self, r, rt, nt, npts, nent, big=False, opener='fopen("out.trace", "w")', plain=False, wide=False):
        used = r.sample(rt.ctypes, min(len(rt.ctypes), r.randrange(1, 7))) if not plain else [("int", SGN, 4) + next(((c[3], c[4]) for c in rt.ctypes if c[0] == "int"), (FMT[SGN], "sizeof(int)"))]
        vnames = ["v%d" % i for i in range(r.randrange(1, 4))] + (["n" * 5000] if big else [])
        if wide:
            # dictionaries, blobs and points larger than one and two bytes can count
            used = rt.ctypes or used
            vnames += ["n" * 70001] + ["m%d" % i for i in range(300)]
        self.names = [c[0] for c in used] + vnames + ["blob"]
        self.types = [{"name": i, "fmt": c[1], "size": c[2]} for i, c in enumerate(used)]
        if wide:
            self.types = [dict(t) for _ in range(14) for t in self.types]
        self.types.append({"name": len(self.names) - 1, "fmt": BLB, "size": 0})
        if r.random() < 0.05 and not plain:
            r.shuffle(self.types)
        ctype = {}
        for i, t in enumerate(self.types):
            ctype[i] = next((c for c in used if self.names[t["name"]] == c[0]), None)
        decl = [rt.calls.describe(t["name"], *(ctype[i][3:] if ctype[i] else rt.string)) for i, t in enumerate(self.types)]
        scal = [i for i in ctype if ctype[i]]
        blob = next(i for i in ctype if not ctype[i])
        self.threads = []
        body = ['\n#ifdef __cplusplus\n#include <string>\n#endif\n#include <stdint.h>\n#include <stddef.h>\n#include <string.h>\n#ifdef __cplusplus\nextern "C" {\n#endif\n'
                'void vp_begin(void); void vp_inside(void); void vp_ending(void); void vp_finished(void); int vp_main(void);\n'
                '#ifdef __cplusplus\n}\n#endif\n']
        ids = set()
        for t in range(nt):
            pts = []
            body.append("static void body_%d(void) {\n" % t)
            for p in range(npts[t] if isinstance(npts, list) else npts):
                while True:
                    sid = r.choice([r.randrange(1, 300), r.getrandbits(31), (1 << 63) | (r.getrandbits(5) << 40) | r.randrange(99),
                                    (1 << 64) - 1 - r.randrange(50)])
                    if sid not in ids:
                        ids.add(sid)
                        break
                es = []
                body.append("  { vp_begin(); %s vp_inside();\n" % rt.calls.begin(sid))
                for e in range(nent if plain or wide else r.randrange(0, nent + 1)):
                    k = [0, 0.6, 0.9][e % 3] if wide else 0 if plain else r.random()
                    if k < 0.55:
                        args, dec = [], ""
                        for v in range(r.choice([1, 1, 2, 3, 7]) if not wide else 270):
                            ti = r.choice(scal)
                            ct, fm, size, f, z = ctype[ti]
                            lit, by = literal(r, ct, fm, size)
                            n = r.randrange(len(self.names))
                            dec += "    %s w%d_%d = %s;\n" % (ct, e, v, lit)
                            args.append(rt.calls.argument(n, ti, z, f, "w%d_%d" % (e, v))[1])
                            es.append({"k": "v", "n": n, "t": ti, "b": list(by)})
                        body.append(dec + "    %s vp_inside();\n" % " ".join(rt.calls.calls(args, [])))
                    elif k < 0.85:
                        args, cargs, dec, cdec = [], [], "", ""
                        for v in range(r.choice([1, 1, 2])):
                            b = "b%d_%d" % (e, v)
                            n = r.randrange(len(self.names))
                            if wide or r.random() < 0.5:
                                s = "".join(r.choice("ab z09_") for _ in range(r.choice([66000] if wide else [0, 1, 5, 40] if not big else [3, 4500])))
                                dec += '    const char *%s = "%s";\n' % (b, s)
                                cdec += '    std::string %s("%s");\n' % (b, s)
                                args.append(rt.calls.argument(n, blob, rt.string[1], rt.string[0], b, cstr=True)[1])
                                cargs.append(rt.calls.argument(n, blob, rt.string[1], rt.string[0], b, cppstr=True)[1])
                                by = s.encode()
                            else:
                                by = bytes(r.choice([0, 10, 255, r.getrandbits(8)]) for _ in range(r.choice([1, 3, 20])))
                                lit = "    static const unsigned char %s[] = {%s};\n" % (b, ",".join(map(str, by)))
                                dec += lit
                                if r.random() < 0.5:
                                    # a string with any bytes
                                    cdec += lit.replace(b + "[]", b + "x[]") + "    std::string %s((const char *) %sx, sizeof(%sx));\n" % (b, b, b)
                                    cargs.append(rt.calls.argument(n, blob, rt.string[1], rt.string[0], b, cppstr=True)[1])
                                else:
                                    cdec += lit
                                    cargs.append("%d, %d, sizeof(%s), %s" % (n, blob, b, b))
                                args.append("%d, %d, sizeof(%s), %s" % (n, blob, b, b))
                            es.append({"k": "v", "n": n, "t": blob, "b": list(by)})
                        body.append("#ifdef __cplusplus\n%s    %s\n#else\n%s    %s\n#endif\n    vp_inside();\n" %
                                    (cdec, " ".join(rt.calls.calls([], cargs)), dec, " ".join(rt.calls.calls([], args))))
                    else:
                        a, s = r.getrandbits(64), r.choice([0, 1, 16, r.getrandbits(64), (1 << 64) - 1])
                        body.append("    __write_buffer_size(%s, (void*)0x%xULL, 0x%xULL); vp_inside();\n" % (rt.log, a, s))
                        es.append({"k": "b", "a": core.word(a), "s": core.word(s)})
                body.append("    vp_ending(); %s vp_finished(); }\n" % rt.calls.end())
                pts.append({"stmt": core.word(sid), "es": es})
            body.append("}\n")
            self.threads.append(pts)
        body.append('#ifdef __cplusplus\nextern "C" {\n#endif\nint vp_nthreads = %d;\nvoid (*vp_bodies[])(void) = {%s};\n'
                    '#ifdef __cplusplus\n}\n#endif\nint main(void) { return vp_main(); }\n' % (nt, ", ".join("body_%d" % t for t in range(nt))))
        self.text = rt.source("".join(body), self.names, decl, opener)

    def record(self):
        return {"names": [list(n.encode()) for n in self.names], "types": self.types, "threads": self.threads}


def compile_program(prog, i, cxx, opt, sched):
    d = os.path.join(core.scratch(), "w%d" % i)
    os.makedirs(d, exist_ok=True)
    src = d + "/prog." + ("cc" if cxx else "c")
    with open(src, "w") as f:
        f.write(prog.text)
    cmd = ["g++" if cxx else "gcc", "-w", opt, "-fno-builtin", src, sched, "-o", d + "/prog", "-lpthread"] + \
          ["-Wl,--wrap=" + w for w in WRAPPED]
    if cxx:
        cmd[1:1] = ["-fpermissive", "-std=gnu++11"]
    rc, _, err = core.run(cmd, 120)
    if rc != 0:
        raise core.Infra("the run-time code does not compile: " + err.decode(errors="replace")[-1500:])
    return d


def run_list(d, lines):
    with open(d + "/runs", "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, out, err = core.run([d + "/prog"], 400, cwd=d, env=dict(os.environ, VP_RUNS=d + "/runs"))
    if rc != 0:
        raise core.Infra("schedule runner: exit %d %s" % (rc, err.decode(errors="replace")[-500:]))
    return [json.loads(l) for l in out.decode().split("\n") if l.strip()]


def judge(progs, events):
    d = os.path.join(core.scratch(), "wjudge")
    os.makedirs(d, exist_ok=True)
    parts = [list(range(k, len(events), core.NCPU)) for k in range(core.NCPU)]

    def one(k):
        if not parts[k]:
            return [], (0, 0)
        lf, ff = "%s/log%d" % (d, k), "%s/progs%d" % (d, k)
        with open(lf, "w") as f:
            for i in parts[k]:
                f.write(json.dumps(events[i]) + "\n")
        with open(ff, "w") as f:
            for p in progs:
                f.write(json.dumps(p.record()) + "\n")
        rc, txt = core.tlc("WriterTrace", "WriterTrace.cfg", env={"VLOG": lf, "VFILES": ff})
        m = re.search(r'<<"REACHED", (-?\d+), (\d+)>>', txt)
        if not m or int(m.group(1)) != len(parts[k]):
            raise core.Infra("WriterTrace: TLC exit %d\n%s" % (rc, txt[-3000:]))
        return [parts[k][int(x) - 1] for x in re.findall(r'<<"BAD", (\d+)>>', txt)], core.stats(txt)
    with ThreadPoolExecutor(core.NCPU) as ex:
        rs = list(ex.map(one, range(core.NCPU)))
    return sorted(i for b, _ in rs for i in b), sum(s[0] for _, s in rs), sum(s[1] for _, s in rs)


def handshakes(rt, r, sched, base):
    """(program, directory, scenario) -> started with a handshake file"""
    p = Program(r, rt, 2, 2, 2, opener='fopen(buffer, "w")')
    return p


def shake(d, how, env):
    """one run of the collector's side of the handshake -> bytes of the trace, removed"""
    run = os.path.join(d, "hs-" + how)
    os.makedirs(run, exist_ok=True)
    hs, out = run + "/hs", run + "/t"
    if how == "long path":
        while len(out) < 800:
            out = os.path.dirname(out) + "/" + "a b" * 60 + "/t"
            os.mkdir(os.path.dirname(out))
    fifo = how.startswith("pipe")
    if fifo:
        os.mkfifo(out)
    if how in ("early", "newline", "pipe early", "long path"):
        with open(hs, "w") as f:
            f.write(out + ("\n" if how == "newline" else ""))
    elif how in ("filled late", "replaced late"):
        open(hs, "w").close()
    e = dict(os.environ)
    e[env] = hs
    p = subprocess.Popen([d + "/prog"], cwd=run, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                         start_new_session=True)
    data = b""
    try:
        if how == "created late":
            time.sleep(1.5)
        if how in ("filled late", "replaced late"):
            time.sleep(3.2)
        if how in ("created late", "replaced late"):
            with open(hs + ".new", "w") as f:
                f.write(out)
            os.rename(hs + ".new", hs)
        if how == "filled late":
            with open(hs, "w") as f:
                f.write(out)
        if fifo:
            def drain():
                with open(out, "rb") as f:
                    return f.read()
            with ThreadPoolExecutor(1) as ex:
                fut = ex.submit(drain)
                try:
                    status = p.wait(20)
                except subprocess.TimeoutExpired:
                    # release the reader
                    p.kill()
                    p.wait()
                    fd = os.open(out, os.O_RDWR | os.O_NONBLOCK)
                    time.sleep(0.1)
                    os.close(fd)
                    status = -99
                data = fut.result()
        else:
            try:
                status = p.wait(20)
            except subprocess.TimeoutExpired:
                status = -99
            if os.path.exists(out):
                data = open(out, "rb").read()
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    removed = not os.path.exists(hs)
    shutil.rmtree(run, ignore_errors=True)
    return status, data, removed


@check("C17")
def c17(res, tier, seed):
    quick = tier == "quick"
    r = rng(seed, "C17")
    rt = Runtime()
    sched = os.path.join(core.scratch(), "wsched.o")
    rc, _, err = core.run(["gcc", "-w", "-O1", "-c", os.path.join(core.VERIF, "harness", "wsched.c"), "-o", sched], 120)
    if rc != 0:
        raise core.Infra("wsched.c: " + err.decode(errors="replace")[-1000:])

    # schedules and properties from the model
    with ThreadPoolExecutor(4) as ex:
        mc = ex.submit(core.model_check, "Writer", "MC_Writer.cfg" if quick else "MC_Writer_thorough.cfg", workers=3)
        h2 = ex.submit(core.tlc, "Writer", "MC_Writer_hist.cfg", workers=1)
        h3 = ex.submit(core.histories, "Writer", "MC_Writer_hist3.cfg", 300 if quick else 6000, 40, seed, res)
        res.add_model(mc.result())
        if not quick:
            from .checks import EXPECTED_TO_FAIL
            for c in EXPECTED_TO_FAIL["MC_Writer.cfg"]:
                res.add_model(core.model_fails("Writer", c))
        rc, txt = h2.result()
        words2 = core.printed(txt, "HIST")
        if rc != 0 or not words2:
            raise core.Infra("Writer: no schedules\n" + txt[-1000:])
        g, dd = core.stats(txt)
        res.add_model({"model": "Writer", "config": "MC_Writer_hist.cfg", "states": dd, "transitions": g, "purpose": "all schedules"})
        words3 = h3.result()

    progs, jobs = [], []

    def job(prog, lines, cxx=None):
        progs.append(prog)
        jobs.append((len(progs) - 1, lines, bool(r.getrandbits(1)) if cxx is None else cxx, r.choice(["-O0", "-O2"])))

    def line(w, crash=0, how=0):
        return "W %d %d %s" % (crash, how, " ".join(str(t - 1) for t in w))
    # every schedule of the model with two threads; dying at each quiet moment of some
    for cxx in (False, True):
        lines = [line(w) for w in words2]
        for k, w in enumerate(words2):
            if k % (7 if quick else 1) == 0:
                lines += [line(w, c, (k + c) % 3) for c in (1, 2, 3, 4)]
        job(Program(r, rt, 2, 2, 2, plain=True), lines, cxx)
    lines = [line(w) for w in words3] + [line(w, 1 + k % 6, k % 3) for k, w in enumerate(words3)]
    job(Program(r, rt, 3, 2, 1, plain=True), lines)
    # values, blobs, widths; preemption inside the calls
    for i in range(14 if quick else 120):
        nt = r.choice([1, 2, 2, 3, 4])
        p = Program(r, rt, nt, r.choice([1, 2, 3]), r.choice([1, 2, 4]), big=i % 7 == 6)
        lines = ["S 0 0 0 0", "F 0 0"]
        if nt > 1:
            lines += ["SWEEP %d %d" % (60 if quick else 400, r.getrandbits(30))]
            lines += ["R 0 0 %d %d" % (r.getrandbits(30), r.choice([5, 20, 60])) for _ in range(40 if quick else 300)]
            lines += ["R %d %d %d %d" % (1 + k % 5, k % 3, r.getrandbits(30), r.choice([5, 20])) for k in range(30 if quick else 200)]
            lines += ["F 0 0"] * (5 if quick else 30)
        else:
            lines += ["S %d %d 0 0" % (c, c % 3) for c in (1, 2, 3)]
        job(p, lines)
    job(Program(r, rt, 1, 2 if quick else 6, 3, wide=True), ["S 0 0 0 0", "F 0 0"])
    # many threads, running freely
    for i in range(1 if quick else 6):
        job(Program(r, rt, 8, 12, 2), ["F 0 0"] * (6 if quick else 40))
    hp = Program(r, rt, 2, 2, 3, opener='fopen(buffer, "w")')
    progs.append(hp)
    hi = len(progs) - 1

    def work(j):
        pi, lines, cxx, opt = j
        d = compile_program(progs[pi], pi, cxx, opt, sched)
        if any(l.startswith("SWEEP") for l in lines):
            # a switch at every step there is, a second one at random
            steps = run_list(d, ["S 0 0 0 0"])[0]["steps"]
            out = []
            for l in lines:
                if l.startswith("SWEEP"):
                    n, q = int(l.split()[1]), rng(l)
                    ks = range(1, steps + 1) if steps <= 3 * n else sorted(q.sample(range(1, steps + 1), 3 * n))
                    out += ["S 0 0 %d 0" % k for k in ks]
                    for _ in range(n):
                        k = q.randrange(1, steps + 1)
                        out.append("S 0 0 %d %d" % (k, k + q.choice([1, 2, 3, 5, 9, q.randrange(1, 40)])))
                else:
                    out.append(l)
            lines[:] = out
        return run_list(d, lines)

    def hand(_):
        d = compile_program(hp, hi, False, "-O1", sched)
        hows = ["early", "newline", "created late", "filled late", "replaced late", "pipe early", "long path"]
        with ThreadPoolExecutor(7) as ex:
            return list(zip(hows, ex.map(lambda h: shake(d, h, rt.env), hows)))
    with ThreadPoolExecutor(core.NCPU + 1) as ex:
        hf = ex.submit(hand, 0)
        outs = list(ex.map(work, jobs))
        hs = hf.result()

    seen, events, origin = {}, [], []
    runs = 0
    for (pi, lines, cxx, opt), os_ in zip(jobs, outs):
        for ln, o in zip(lines, os_):
            runs += 1
            crash = int(ln.split()[1])
            st = o["status"]
            died = crash > 0 and (st == 9 or st == 3 << 8 or st & 127 == 6)
            ok = died or st == 0
            ev = {"ev": "WRUN" if ok else "CRASH", "p": pi, "died": died, "removed": True, "ending": o["ending"],
                  "finished": o["finished"], "out": list(bytes.fromhex(o["out"])), "status": st}
            key = json.dumps(ev, sort_keys=True)
            res.extra["runs_let_go"] = res.extra.get("runs_let_go", 0) + o["freed"]
            if key not in seen:
                seen[key] = 1
                events.append(ev)
                origin.append((pi, ln))
    for how, (st, data, removed) in hs:
        n = [len(t) for t in hp.threads]
        events.append({"ev": "WRUN" if st == 0 else "CRASH", "p": hi, "died": False, "removed": removed, "ending": n,
                       "finished": n, "out": list(data), "status": st})
        origin.append((hi, "handshake: " + how))
        runs += 1
    bad, g, dd = judge(progs, events)
    res.states += dd
    res.transitions += g
    res.traces += runs
    res.events += len(events)
    res.extra["programs"] = len(progs)
    res.extra["inserted_calls_not_understood"] = rt.calls.lost
    res.extra["schedules_of_the_model"] = len(words2) + len(words3)
    for ev in events:
        k = "died" if ev["died"] else "ended"
        res.kinds[k] = res.kinds.get(k, 0) + 1
    if bad:
        i = bad[0]
        pi, ln = origin[i]
        res.violation = ("program %d, schedule %s" % (pi, ln), [progs[pi].text, ln], [events[i]], 0)
    else:
        res.samples += [json.dumps(dict(ev, out=len(ev["out"]))) for ev in events[:3]]
