"""What each property's check runs."""
import os, random, sys
from concurrent.futures import ThreadPoolExecutor
from . import core, ffi, gen
from .core import Scenario
from .gen import Trace, U, S, F, P, B, le

_ALL = ["TLC, the CommunityModules and the compiler with its address sanitizer are right",
        "the driver reports what the C and C++ interface returned (it has no expectations of its own)",
        "beyond the bounds of the models the inputs are samples, different for each VERIF_SEED"]
ASSUMPTIONS = {p: list(_ALL) for p in ["C%02d" % i for i in range(1, 22) if i != 18]}
ASSUMPTIONS["C02"].append("scalar widths are 1, 2, 4, 8 (floats 4, 8)")
for _p in ("C01", "C05", "C17"):
    ASSUMPTIONS[_p].append("no allocation or pointer at the address 2^64-1, no allocation of 2^64-1 bytes")
for _p in ("C06", "C07", "C08", "C09", "C10", "C11"):
    ASSUMPTIONS[_p].append("NaN, infinities and differences below 10^-30 (relative) are not judged")
ASSUMPTIONS["C13"].append("between allocations, mutexes and reads a thread is not preempted (free-running under the thread sanitizer it is)")
ASSUMPTIONS["C16"].append("a process which is not held up reacts within the tolerance; doubtful runs are repeated")
ASSUMPTIONS["C17"].append("fwrite and fputc of glibc, one buffered stream; death of the process loses exactly what was not flushed")
ASSUMPTIONS["C20"].append("the allocator statistics of the sanitizer are right; the same work makes the same demands on process-wide caches")
ASSUMPTIONS["C21"] = _ALL[:1] + ["the client reports what it read through the declarations of binary-trace-db.lisp; "
    "CFFI lays structures out and passes arguments as the C compiler's ABI does (ctypes stands in for it)"] + _ALL[2:]
CHECKS = {}


def check(name):
    def deco(f):
        CHECKS[name] = f
        return f
    return deco


def rng(seed, *tag):
    return random.Random(repr((seed,) + tag))


def together(res, builds, models):
    """compile and model-check at the same time; returns the executables"""
    with ThreadPoolExecutor(8) as ex:
        bs = [ex.submit(core.build, *b) for b in builds]
        ms = [ex.submit(core.model_check, m[0], deeper(m[1], res.tier), **deep(m[2], res.tier)) for m in models]
        fs = [ex.submit(core.model_fails, m[0], c) for m in models for c in EXPECTED_TO_FAIL.get(m[1], [])
              if res.tier == "thorough"]
        exes = [b.result() for b in bs]
        for m in ms + fs:
            res.add_model(m.result())
    return exes


# configurations which switch off one design decision: TLC has to find the violation
EXPECTED_TO_FAIL = {"MC_Ids.cfg": ["MC_Ids_noflag.cfg"],
                    "Own.cfg": ["Own_uncounted.cfg", "Own_keeps.cfg", "Own_alias.cfg"],
                    "MC_Cache.cfg": ["MC_Cache_stale.cfg", "MC_Cache_alias.cfg", "MC_Cache_copy.cfg"],
                    "MC_OpenWait.cfg": ["MC_OpenWait_restart.cfg", "MC_OpenWait_reblock.cfg", "MC_OpenWait_close.cfg"],
                    "MC_Writer.cfg": ["MC_Writer_nolock.cfg", "MC_Writer_noflush.cfg", "MC_Writer_noheader.cfg"]}


def deeper(cfg, tier):
    """the thorough configuration of a model, where there is one"""
    c = cfg.replace("_quick.cfg", "_thorough.cfg")
    return c if tier == "thorough" and os.path.exists(os.path.join(core.SPEC, c)) else cfg


def deep(kw, tier):
    return kw if tier == "quick" else dict(kw, timeout=3000)


DRIVER = ("driver", ["driver.cpp"])


# ------------------------------------------------------------------ C01
def special_traces(r, tier):
    """sizes and shapes around the limits of the representation"""
    out = []

    def tr(names, types):
        t = Trace()
        t.names, t.types = list(names), list(types)
        return t
    t = tr([], [])
    out.append(("nothing", t))
    t = tr([], [])
    t.points = [[], [("S", 1 << 63)], [("X", 5)], [("B", 16, 8)]]
    out.append(("no names", t))
    # every scalar width, boundary values
    for f, sizes in ((U, range(0, 9)), (S, (1, 2, 4, 8)), (F, range(0, 9)), (P, range(0, 9))):
        t = tr([b"a", b"t"], [(1, f, s) for s in sizes])
        for i, s in enumerate(sizes):
            vals = {0, 1, 255, 128, 127, (1 << (8 * s)) - 1, (1 << (8 * s)) // 2, 0x0102030405060708,
                    (1 << (8 * s)) // 2 - 1 if s else 0}
            for v in sorted(vals):
                if f == P and s == 8 and v == gen.ONES:
                    v -= 1
                t.points.append([("S", v), ("V", 0, i, le(v, s))])
        out.append(("widths %d" % f, t))
    # blobs
    t = tr([b"v", b"blob"], [(1, B, 0), (1, B, 1), (1, B, 256), (1, B, 5000)])
    for n in (0, 1, 2, 255, 256, 257, 4095, 4096, 5000):
        t.points.append([("S", n), ("V", 0, 0, gen.rbytes(r, n))])
    t.points.append([("V", 0, 1, b"\0"), ("V", 0, 2, gen.rbytes(r, 256)), ("V", 0, 3, gen.rbytes(r, 5000)),
                     ("V", 0, 0, b""), ("V", 0, 1, b"\1")])
    out.append(("blobs", t))
    # many names and name indices above a byte
    t = tr([b"n%d" % i for i in range(700)], [(699, U, 4), (256, S, 2), (255, F, 8)])
    t.points = [[("V", i, k % 3, gen.rbytes(r, (4, 2, 8)[k % 3]))]
                for k, i in enumerate((0, 255, 256, 257, 511, 512, 699))]
    out.append(("names", t))
    # many types
    t = tr([b"n", b"t"], [(k % 2, (U, S)[k % 2], (1, 2, 4, 8)[k % 4]) for k in range(300)])
    t.points = [[("V", 0, i, le(200 + i, (1, 2, 4, 8)[i % 4]))] for i in (0, 1, 255, 256, 257, 299)]
    out.append(("types", t))
    # many variables, aux values and memory events in one point
    t = tr([b"n", b"t"], [(1, U, 2), (1, P, 8)])
    t.points = [[("S", 7)] + [("V", 0, 0, le(i, 2)) for i in range(300)]
                + [("X", i << 40) for i in range(300)]
                + [("B", 4096 + 64 * i, 32 + i) for i in range(150)]
                + [("V", 0, 1, le(4096 + 64 * i + 3, 8)) for i in range(0, 150, 7)], [("S", 8)]]
    out.append(("wide point", t))
    # many points
    t = tr([b"n", b"t"], [(1, U, 4)])
    t.points = [[("S", i % 5), ("V", 0, 0, le(i * 77, 4))] for i in range(700)]
    out.append(("points", t))
    t = tr([b"n", b"t"], [(1, U, 4)])
    t.points = [[] for i in range(300)]
    out.append(("empty points", t))
    # the same contents at several points, differing in one place only
    t = tr([b"x", b"y", b"t", b"u"], [(2, U, 4), (3, U, 4), (2, S, 4), (2, P, 8), (2, B, 4), (2, F, 4), (2, U, 8)])
    one = le(1, 4)
    for v in (("V", 0, 0, one), ("V", 1, 0, one), ("V", 0, 1, one), ("V", 0, 2, one), ("V", 0, 3, le(1, 8)),
              ("V", 0, 4, one), ("V", 0, 5, one), ("V", 0, 6, le(1, 8)), ("V", 0, 0, le(2, 4)), ("V", 0, 4, le(2, 4))):
        t.points += [[v], [("S", 1), v], [v, v], [v, ("X", 1)], [("B", 1, 1), v]]
    out.append(("neighbours", t))
    # values which agree up to some position and differ there: nothing may be shared between them
    for fixed in (True, False):
        sizes = (1, 2, 9, 33, 40, 65, 130, 300, 1100, 4100)
        t = tr([b"v", b"blob"], [(1, B, n if fixed else 0) for n in sizes])
        for i, n in enumerate(sizes):
            for base in (bytes(n), (b"abc\0" * n)[:n], b"\xff" * n):
                t.points.append([("V", 0, i, base)])
                for k in sorted({0, 1, 4, 8, 31, 32, 64, 128, 255, 256, 1024, 4096, n // 2, n - 1}):
                    if k < n:
                        t.points.append([("V", 0, i, base[:k] + bytes([base[k] ^ 1]) + base[k + 1:])])
        out.append(("blob neighbours", t))
    for f, n in ((U, 8), (S, 8), (P, 8), (F, 8), (F, 4), (U, 4), (S, 4), (U, 2), (S, 2), (U, 1)):
        t = tr([b"v", b"t"], [(1, f, n)])
        for base in (0, (1 << (8 * n)) - 2, 0x5a5a5a5a5a5a5a5a):
            t.points += [[("V", 0, 0, le(base ^ (1 << k), n))] for k in range(8 * n)]
        out.append(("value neighbours", t))
    # buffer sizes and memory events which differ in one bit
    t = tr([b"v", b"t"], [(1, P, 8)])
    for k in range(3, 63):
        t.points += [[("B", 4096, (1 << k) + 8), ("V", 0, 0, le(4096, 8))], [("B", 1 << k, 4), ("X", 1 << k), ("V", 0, 0, le(4096, 8))]]
    out.append(("buffer neighbours", t))
    # counts and indices above 16 bits
    n = 66000
    t = tr([b"%x" % i for i in range(n)], [(n - 1, U, 4), (65536, S, 2)])
    t.points = [[("V", i, 0, le(i, 4))] for i in (0, 65535, 65536, n - 1)]
    out.append(("many names", t))
    t = tr([b"n", b"t", b"u"], [(r.randrange(3), r.choice((U, S)), r.choice((1, 2, 4, 8))) for k in range(n)])
    t.points = [[("V", 0, i, le(200 + i, t.types[i][2]))] for i in
                [0, 1, 255, 256, 65535, 65536, 65537, 65541, n - 1] + [r.randrange(n) for _ in range(50)]]
    out.append(("many types", t))
    t = tr([b"n"], [(0, U, 1)])
    t.points = [[("S", i % 5)] for i in range(n)]
    out.append(("many points", t))
    t = tr([b"n"], [(0, U, 1)])
    t.points = [[("S", 1)] + [("V", 0, 0, le(i % 251, 1)) for i in range(n)], [("X", i) for i in range(n)], [("S", 2)]]
    out.append(("very wide points", t))
    t = tr([b"v"], [(0, B, 0), (0, B, 70000)])
    t.points = [[("V", 0, 0, gen.rbytes(r, n))] for n in (65535, 65536, 65537)] + \
               [[("V", 0, 1, gen.rbytes(r, 70000))]]
    out.append(("big blobs", t))
    t = tr([b"n" * 70000, b"m" * 300, b"t"], [(2, U, 4)])
    t.points = [[("V", 0, 0, le(i, 4)), ("V", 1, 0, le(i, 4))] for i in range(3)]
    out.append(("long names", t))
    if tier == "thorough":
        t = tr([b"%x" % i for i in range(300000)], [(299999, U, 4), (65536, S, 2)])
        t.points = [[("V", i, 0, le(i, 4))] for i in (0, 65535, 65536, 299999)]
        out.append(("300000 names", t))
        t = tr([b"v"], [(0, B, 0)])
        t.points = [[("V", 0, 0, gen.rbytes(r, 1 << 20))], [("V", 0, 0, gen.rbytes(r, (1 << 20) + 1))]]
        out.append(("megabyte blobs", t))
        t = tr([b"n", b"t"], [(1, U, 4)])
        t.points = [[("S", i), ("V", 0, 0, le(i, 4))] for i in range(200000)]
        out.append(("200000 points", t))
    return out


@check("C01")
def c01(res, tier, seed):
    exe, = together(res, [DRIVER], [("MC_Format", "MC_Format_quick.cfg", {"workers": 4}),
                                    ("MC_Format", "MC_Points_quick.cfg", {"workers": 4})])
    r = rng(seed, "C01")
    scns = []
    for name, t in special_traces(r, tier):
        s = Scenario("special: " + name)
        f = s.file(t.encode())
        s.db(0)
        s.add(0, f)
        s.dump_db(0)
        s.read(0, f)
        s.dump(0)
        s.read_chunks(1, f, r.choice([1, 3, 7, 64]))
        s.dump(1)
        if len(s.files[f]) < 20000:
            s.read_fifo(2, f, [r.choice([1, 5, 100, 4096]) for _ in range(3)])
            s.dump(2)
        scns.append(s)
    n = 150 if tier == "quick" else 3000
    for i in range(n):
        t = gen.rtrace(r, points=r.randrange(0, 9), vars=r.choice([2, 5]), events=r.choice([0, 0.5]))
        s = Scenario("random %d" % i)
        f = s.file(t.encode())
        s.db(0)
        s.add(0, f)
        s.dump_db(0)
        k = i % 4
        if k == 0:
            s.read(0, f)
        elif k == 1:
            s.read_chunks(0, f, r.choice([1, 2, 3, 5, 13]))
        elif k == 2:
            s.read_fifo(0, f, [r.choice([1, 2, 9, 50]) for _ in range(4)] if len(s.files[f]) < 900 else [200])
        else:
            s.add_fifo(0, f, [r.choice([1, 2, 9, 50, 1000]) for _ in range(4)] if len(s.files[f]) < 900 else [200])
            s.dump_idx(0, 1)
        if k < 3:
            s.dump(0)
        scns.append(s)
    # several traces at once whose variables agree in indices and values, but not in their types
    for i in range(25 if tier == "quick" else 400):
        s = Scenario("siblings %d" % i)
        t = small_trace(r, r.randrange(1, 5), 4) if i % 2 else gen.rtrace(r, points=3, vars=4, events=0.3, widths="std")
        s.db(0)
        for k, u in enumerate([t] + [gen.retyped(r, t) for _ in range(4)] + [t]):
            f = s.file(u.encode())
            s.add(0, f)
            s.read(k, f)
            s.dump(k)
        s.dump_db(0)
        s.dump(0)
        scns.append(s)
    core.conformance(exe, scns, res, "C01")


# ------------------------------------------------------------------ C03
def corruptions(r, t):
    """single structural faults in a well-formed trace"""
    base = t.encode()
    h = t.header()
    nb = sum(len(n) + 1 for n in t.names)
    out = []

    def put(pos, data, what):
        out.append((what, base[:pos] + data + base[pos + len(data):]))
    # names
    for n in (nb + 1, nb - 1, nb * 2 + 50, 1 << 26, 1 << 62, (1 << 64) - 1, (1 << 32) + nb, 0, 1):
        if 0 <= n:
            put(0, le(n, 8), "dictionary size %d" % n)
    if nb:
        put(8 + nb - 1, b"x", "unterminated dictionary")
    # number of types
    k = len(t.types)
    for n in (k + 1, max(0, k - 1), k + 1000, 0xffffffff, 0x80000000 + k, 0, 0x01000000 + k, 65536 + k):
        put(8 + nb, le(n, 4), "number of types %d" % n)
    for i, (nm, f, s) in enumerate(t.types):
        p = 12 + nb + 12 * i
        for v in (len(t.names), len(t.names) + 1, 0xffffffff, 0x80000000, 65536, 256, len(t.names) - 1):
            put(p, le(v, 4), "type %d name %d" % (i, v))
        for v in (5, 6, 255, 256, 0x80000000, 0xffffffff, 0x01000000, (f + 1) % 5, 256 + f, 65536 + f):
            put(p + 4, le(v, 4), "type %d format %d" % (i, v))
        for v in (0, 3, 5, 7, 9, 16, 255, 256, 65535, 0x80000000, 0xffffffff, 256 + s, s + 1, 1, 2, 4, 8):
            if f == B and v > 1 << 24:
                v = 1 << 20
            put(p + 8, le(v, 4), "type %d size %d" % (i, v))
    # entries
    pos = len(h)
    for p in t.points:
        for e in p + [None]:
            n = len(t.entry(e)) if e else 1
            for tag in (5, 6, 127, 128, 255, r.randrange(5, 256), r.randrange(0, 5)):
                put(pos, bytes([tag]), "tag %d at %d" % (tag, pos))
            if e and e[0] == "V":
                for v in (len(t.names), len(t.names) + 1, 0xffffffff, 0x80000000, 256, 65536):
                    put(pos + 1, le(v, 4), "name index %d at %d" % (v, pos))
                for v in (k, k + 1, 0xffffffff, 0x80000000, 256, 65536):
                    put(pos + 5, le(v, 4), "type index %d at %d" % (v, pos))
                ty = t.types[e[2]]
                if ty[1] == B and ty[2] == 0:
                    for v in (len(e[3]) + 1, len(base), 1 << 20, max(0, len(e[3]) - 1), 0, 65536, (1 << 24) + len(e[3])):
                        put(pos + 9, le(v, 4), "blob size %d at %d" % (v, pos))
            out.append(("byte removed at %d" % pos, base[:pos] + base[pos + 1:]))
            pos += n
    for junk in (b"\0", b"\5", b"\xff", b"\1", b"\2\0\0\0\0", b"\3" + bytes(15), b"\4" + bytes(7),
                 b"\1" + bytes(8), b"\4" + bytes(8), b"\3" + bytes(16)):
        out.append(("appended %r" % junk, base + junk))
    for _ in range(20):
        b = bytearray(base)
        for _ in range(r.choice([1, 1, 2, 4])):
            b[r.randrange(len(b))] = r.choice([0, 1, 2, 3, 4, 5, 255, 128, r.getrandbits(8)])
        # huge type counts and fixed blob sizes only exercise the memory allocator
        out.append(("bytes changed", bytes(b)))
    return out


def tame(b):
    """no declared sizes that would only exercise the memory allocator"""
    if len(b) < 12:
        return True
    n = int.from_bytes(b[:8], "little")
    if n > len(b):
        return True
    k = int.from_bytes(b[8 + n:12 + n], "little")
    for i in range(min(k, 400)):
        p = 12 + n + 12 * i
        if len(b) < p + 12:
            break
        f, s = int.from_bytes(b[p + 4:p + 8], "little"), int.from_bytes(b[p + 8:p + 12], "little")
        if f == B and s > 1 << 25:
            return False
    return True


def c03_traces(r, n):
    out = []
    t = Trace()
    t.names = [b"x", b"int", b"p", b""]
    t.types = [(1, S, 4), (2, P, 8), (3, B, 0), (0, B, 5), (1, U, 2), (0, F, 4)]
    t.points = [[("S", 3), ("B", 64, 16), ("V", 0, 0, le(-5, 4)), ("V", 2, 1, le(70, 8))],
                [("X", 9), ("V", 3, 2, b"abc"), ("V", 0, 3, b"12345"), ("S", 4)],
                [], [("V", 0, 4, b"\1\2"), ("V", 1, 5, b"\0\0\x80\x3f"), ("V", 0, 2, b"")]]
    out.append(t)
    for _ in range(n):
        out.append(gen.rtrace(r, points=r.randrange(0, 5), vars=3, events=0.4, types=4,
                              names=[r.choice(gen.NAMES[:12]) for _ in range(r.randrange(1, 5))]))
    return out


@check("C03")
def c03(res, tier, seed):
    exe, = together(res, [DRIVER], [("MC_Format", "MC_Format_quick.cfg", {"workers": 4}),
                                    ("MC_Format", "MC_Points_quick.cfg", {"workers": 4})])
    r = rng(seed, "C03")
    scns = []
    ts = c03_traces(r, 30 if tier == "quick" else 300)
    for i, t in enumerate(ts):
        b = t.encode()
        if len(b) < 1500:
            s = Scenario("all prefixes of trace %d" % i)
            s.cuts(s.file(b))
            scns.append(s)
    for i, t in enumerate(ts):
        cs = [c for c in corruptions(r, t) if tame(c[1])]
        if i and tier == "quick":
            cs = r.sample(cs, min(len(cs), 40))
        for j in range(0, len(cs), 10):
            s = Scenario("corrupted trace %d/%d" % (i, j))
            s.db(0)
            for h, (what, b) in enumerate(cs[j:j + 10]):
                f = s.file(b)
                if h % 3 == 0:
                    s.add(0, f)
                elif h % 3 == 1:
                    s.read_chunks(h, f, r.choice([1, 4, 11]))
                    s.dump(h)
                else:
                    s.read(h, f)
                    s.dump(h)
            s.dump_db(0)
            scns.append(s)
    # the end of the input at and around the blocks in which it is read
    for i in range(3 if tier == "quick" else 12):
        t = gen.rtrace(r, points=200, vars=5, types=5, events=0.2)
        if i == 1:
            # points of equal length, so that a block ends exactly between two points, and between two entries
            t = Trace()
            t.names = [b"abc", b"d"]         # header: 8 + 6 + 4 + 12 = 30 bytes
            t.types = [(0, U, 1)]
            t.points = [[("X", 1)]] * 3 + [[("S", k), ("X", 2)] + [("V", 0, 0, b"\1")] * 11 + [("X", 5)] for k in range(140)]
        b = t.encode()
        if i == 1:
            pad = 4096 - len(t.header() + b"".join(b"".join(t.entry(e) for e in p) + b"\0" for p in t.points[:20])) % 4096
            t.names[1] = b"d" * (1 + pad)
            b = t.encode()
        f = 0
        cuts = sorted({c + d for c in range(4096, len(b) + 1, 4096) for d in (-9, -2, -1, 0, 1, 2, 10)} |
                      {r.randrange(len(b)) for _ in range(10)} | {len(b) - 1})
        cuts = [c for c in cuts if c <= len(b)]
        for j in range(0, len(cuts), 6):
            s = Scenario("blocks %d/%d" % (i, j))
            f = s.file(b)
            s.db(0)
            for h, c in enumerate(cuts[j:j + 6]):
                s.read(h, f, cut=c)
                s.dump(h)
                s.add(0, f, cut=c)
            s.count(0)
            scns.append(s)
    # short and arbitrary inputs
    s = Scenario("arbitrary bytes")
    for k in range(60 if tier == "quick" else 600):
        n = r.choice([0, 1, 4, 7, 8, 9, 11, 12, 13, 20, 30])
        b = bytes(r.choice([0, 0, 0, 1, 2, 3, 4, 5, 255]) for _ in range(n))
        if tame(b):
            s.read(k, s.file(b))
            s.dump(k)
    scns.append(s)
    core.conformance(exe, scns, res, "C03")
    if res.violation is None:
        # declared sizes for which there is no memory
        scns = []
        t = ts[0]
        nb = sum(len(n) + 1 for n in t.names)
        b = t.encode()
        bad = [le(n, 8) + b[8:] for n in (1 << 27, 1 << 32, 1 << 40, 1 << 63, (1 << 64) - 1)]
        bad += [b[:8 + nb] + le(n, 4) + b[12 + nb:] for n in (1 << 24, 1 << 31, (1 << 32) - 1)]
        for n in (1 << 27, 1 << 30, 1 << 31, (1 << 32) - 1):
            p = len(t.header()) + sum(len(t.entry(e)) for e in t.points[0]) + 1 + 9 + 9
            assert b[p:p + 4] == le(3, 4)
            bad.append(b[:p] + le(n, 4) + b[p + 4:])
            u = t.copy()
            u.types[3] = (0, B, n)
            bad.append(u.encode())
        for i, x in enumerate(bad):
            s = Scenario("no memory %d" % i)
            s.db(0)
            s.add(0, s.file(b))
            f = s.file(x)
            s.add(0, f)
            s.read(0, f)
            s.read_chunks(1, f, 5)
            s.add(0, 0)
            s.dump_db(0)
            scns.append(s)
        core.conformance(exe, scns, res, "C03",
                         env={"ASAN_OPTIONS": core.ASAN.replace("max_allocation_size_mb=8192", "max_allocation_size_mb=64")})


# ------------------------------------------------------------------ C04
@check("C04")
def c04(res, tier, seed):
    exe, = together(res, [DRIVER], [("MC_Format", "MC_Points_quick.cfg", {"workers": 4})])
    r = rng(seed, "C04")
    scns = []
    for i in range(120 if tier == "quick" else 1500):
        n = r.randrange(0, 9)
        t = gen.rtrace(r, points=n, vars=3, types=4)
        b = t.encode()
        s = Scenario("limit %d" % i)
        s.db(0)
        f = s.file(b)
        limits = {0, 1, 2, n, n + 1, max(0, n - 1), 1 << 32, (1 << 32) + 1, (1 << 63), (1 << 64) - 1, 256 + 1}
        tails = [f]
        for junk in (b"\x07", b"\xff" * 5, b"\2\xff\xff\xff\xff\0\0\0\0", b"\1\0\0"):
            tails.append(s.file(b + junk))
        # a damaged point behind the limit
        if n >= 2:
            m = r.randrange(1, n)
            t2 = t.copy()
            t2.points[m] = [("raw", r.choice([b"\x09", b"\2" + b"\xff" * 8, b"\1\1"]))]
            tails.append(s.file(t2.encode()))
            limits |= {m, m + 1}
        h = 0
        for f in tails:
            for lim in sorted(limits) if f == tails[0] or f == tails[-1] else r.sample(sorted(limits), 3):
                if lim >= 1 << 31:
                    # beyond any trace: the same as no limit
                    lim_ev = 1000000
                else:
                    lim_ev = lim
                k = r.randrange(3)
                if k == 0:
                    s.op("A 0 {f%d} -1 %d 0" % (f, lim), "A", d=0, f=f, cut=-1, max=lim_ev)
                elif k == 1:
                    s.op("R %d {f%d} -1 %d" % (h, f, lim), "R", h=h, f=f, cut=-1, max=lim_ev)
                    s.dump(h)
                else:
                    s.op("RC %d {f%d} -1 %d %d" % (h, f, lim, r.choice([1, 6, 50])), "R", h=h, f=f, cut=-1, max=lim_ev)
                    s.dump(h)
                h += 1
        s.dump_db(0)
        scns.append(s)
    # through a pipe which stays open behind the last point within the limit, with and without more bytes
    for i in range(12 if tier == "quick" else 120):
        s = Scenario("held %d" % i)
        t = gen.rtrace(r, points=r.randrange(1, 6), vars=3, types=4)
        s.db(0)
        n = len(t.points)
        f = s.file(t.encode())
        g = s.file(t.encode() + r.choice([b"\1", b"\2\0\0", b"\7", b"\0"]))
        s.add_held(0, f, n)
        s.read_held(0, g, n)
        s.dump(0)
        m = r.randrange(1, n + 1)
        s.read_held(1, f, m)
        s.dump(1)
        s.add_held(0, g, m)
        s.dump_db(0)
        scns.append(s)
    # long traces: the limit among many points and blocks
    t = Trace()
    t.names = [b"n"]
    t.types = [(0, U, 2)]
    t.points = [[("S", i % 7), ("V", 0, 0, le(i, 2))] if i % 3 else [] for i in range(700)]
    for lims in ([0, 255, 256, 257], [1, 340, 341, 699], [700, 701, 512, 2]):
        s = Scenario("long")
        f = s.file(t.encode())
        g = s.file(t.encode() + b"\x09")
        for h, lim in enumerate(lims):
            s.read(h, f, max=lim)
            s.dump(h)
            s.read(10 + h, g, max=lim)
            s.dump(10 + h)
        scns.append(s)
    n = 66000
    t = Trace()
    t.names = [b"n"]
    t.types = [(0, U, 1)]
    t.points = [[("S", i % 5)] for i in range(n)]
    for lim in (65535, 65536, 65537, n - 1, n + 65536):
        s = Scenario("many points, limit %d" % lim)
        s.read(0, s.file(t.encode()), max=lim)
        s.dump(0)
        scns.append(s)
    core.conformance(exe, scns, res, "C04")


# ------------------------------------------------------------------ C02
@check("C02")
def c02(res, tier, seed):
    exe, = together(res, [DRIVER], [("MC_Format", "MC_Points_quick.cfg", {"workers": 4}),
                                    ("MC_Format", "MC_Format_quick.cfg", {"workers": 4})])
    r = rng(seed, "C02")
    scns = []

    def round_trip(s, f, again=True):
        s.db(0)
        s.add(0, f)
        s.read(0, f)
        g = s.write(("d", 0, 0))
        s.read(1, g)
        s.dump(1)
        g2 = s.write(("t", 0))
        s.add(0, g2)
        s.dump_idx(0, 1)
        s.dump_idx(0, 0)
        if again:
            g3 = s.write(("d", 0, 1))
            s.read(2, g3, max=2)
            s.dump(2)
    for name, t in special_traces(r, tier):
        if any(f in (U, F) and sz not in ((1, 2, 4, 8) if f == U else (4, 8)) for _, f, sz in t.types):
            t = t.copy()
            ok = [f not in (U, F) or sz in ((1, 2, 4, 8) if f == U else (4, 8)) for _, f, sz in t.types]
            t.points = [p for p in t.points if all(e[0] != "V" or ok[e[2]] for e in p)]
        s = Scenario("special: " + name)
        round_trip(s, s.file(t.encode()), len(t.points) < 300)
        scns.append(s)
    n = 150 if tier == "quick" else 2500
    for i in range(n):
        canon = i % 2 == 0
        t = gen.rtrace(r, points=r.randrange(0, 8), vars=r.choice([2, 5]), events=r.choice([0, 0.5]),
                       widths="std", canon=canon)
        s = Scenario("random %d" % i)
        round_trip(s, s.file(t.encode()))
        if canon:
            s.equal(("t", 0), ("t", 1))
            s.equal(("d", 0, 0), ("d", 0, 1))
        if i % 5 == 0:
            s.serialize(0, 0)
            s.restore(0, 1)
            g = s.write(("d", 1, 0))
            s.read(5, g)
            s.dump(5)
        scns.append(s)
    for i in range(20 if tier == "quick" else 200):
        s = Scenario("points %d" % i)
        s.db(0)
        rpoints(r, s, 0)
        g = s.write(("d", 0, 0))
        s.read(0, g)
        s.dump(0)
        scns.append(s)
    # traces made of objects
    for i in range(60 if tier == "quick" else 900):
        s = Scenario("objects %d" % i)
        t = gen.rtrace(r, points=r.randrange(0, 6), vars=r.choice([2, 5]), events=r.choice([0, 0.5]),
                       widths="std", canon=i % 2 == 0)
        s.build(0, gen.contents(t, r if i % 3 == 0 else None))
        s.dump(0)
        g = s.write(("t", 0))
        s.read(1, g)
        s.dump(1)
        s.equal(("t", 0), ("t", 1))
        s.db(0)
        s.add_object(0, 0)
        g2 = s.write(("d", 0, 0))
        s.add(0, g2)
        s.dump_db(0)
        s.copy(2, ("d", 0, 1))
        s.read(3, s.write(("t", 2)))
        s.dump(3)
        scns.append(s)
    core.conformance(exe, scns, res, "C02")


def writable(t):
    """only the widths C02 speaks of"""
    w = {U: (1, 2, 4, 8), F: (4, 8)}
    return all(e[0] != "V" or t.types[e[2]][1] not in w or t.types[e[2]][2] in w[t.types[e[2]][1]]
               for p in t.points for e in p)


def rpoints(r, s, d, np=None):
    """in-memory points added to database d"""
    big = r.random() < 0.08
    nn = r.choice([200, 256, 257, 300, 700]) if big else r.randrange(1, 7)
    names = [r.choice(gen.NAMES) for _ in range(nn)] if not big else [b"n%d" % (k % 400) for k in range(nn)]
    pts = []
    for _ in range(r.randrange(0, 6) if np is None else np):
        vs = []
        for _ in range(r.randrange(0, 5) if not big else r.choice([1, 5, 40])):
            has = r.random() < 0.4
            vs.append((r.randrange(nn), r.randrange(nn), gen.rword(r), has, gen.rword(r) if has else 0))
        pts.append((gen.rword(r), [gen.rword(r) for _ in range(r.choice([0, 0, 1, 2, 5]))], vs))
    s.add_points(d, names, pts)


# ------------------------------------------------------------------ C05
@check("C05")
def c05(res, tier, seed):
    exe, = together(res, [DRIVER], [("SkipList", "SkipList_quick.cfg" if tier == "quick" else
                                     "SkipList_thorough.cfg", {"workers": 4})])
    r = rng(seed, "C05")
    scns = []
    # every transition of the skip list model, with its node heights
    es = core.edges("SkipList", "SkipList_edges.cfg", res)
    init = '[1, []]'
    for i, w in enumerate(core.walks(es, init, 120, r)):
        s = Scenario("skip list walk %d" % i)
        bits = []
        for op in w:
            if op[0] == "set" and op[3] > 0:
                bits += [1] * (op[3] - 1) + [0]
        base = r.choice([0, 0x1000, (1 << 32) - 6, (1 << 63) - 6, gen.M64 - 200])
        s.map_new(0, bits)
        for op in w:
            s.map_update(0, base + op[1], op[2] if op[0] == "set" else 0)
            s.map_lookup(0, [(base + p) & gen.M64 for p in range(17)])
        scns.append(s)
    res.extra["skip_list_transitions_replayed"] = len(es)
    # long histories, many allocations, extreme addresses and sizes
    for i in range(40 if tier == "quick" else 600):
        s = Scenario("map %d" % i)
        s.map_new(0, [r.randrange(2) if r.random() < 0.7 else 1 for _ in range(r.choice([0, 50, 200]))])
        live = {}
        wide = i % 4 == 0
        for k in range(r.choice([20, 60, 150])):
            if live and r.random() < 0.3:
                a, sz = r.choice(sorted(live)), 0
            elif r.random() < 0.1:
                a, sz = 0x1000 + 8 * r.randrange(64), 0
            else:
                a = r.getrandbits(64) if wide else 0x1000 + 8 * r.randrange(64)
                if r.random() < 0.04:
                    a = r.choice([0, 1, gen.M64 - 1, gen.M64 - 8, 1 << 63, (1 << 63) - 1, (1 << 32)])
                sz = r.choice([1, 7, 8, 9, 16, 100, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, gen.M64 - 1])
                if r.random() < 0.7:
                    sz = r.choice([1, 7, 8, 9, 16, 40])
            s.map_update(0, a, sz)
            if sz:
                live[a] = sz
            else:
                live.pop(a, None)
            if k % 7 == 0 or k < 10:
                ps = []
                for a in r.sample(sorted(live), min(4, len(live))):
                    ps += [a, a + live[a], a + live[a] + 1, a - 1, a + live[a] // 2]
                ps += [0, 1, gen.M64 - 1, 0x1000 + r.randrange(600)]
                s.map_lookup(0, [p & gen.M64 for p in ps if p & gen.M64 != gen.ONES])
        s.map_clear(0)
        s.map_lookup(0, [0, 0x1000, 1 << 63])
        s.map_update(0, 0x1000, 16)
        s.map_lookup(0, [0x1000, 0x1010, 0x1011, 0xfff])
        scns.append(s)
    # the greatest possible heights
    for i in range(2):
        s = Scenario("heights %d" % i)
        s.map_new(0, [1] * 4000)
        ks = list(range(80))
        if i:
            r.shuffle(ks)
        for k in ks:
            s.map_update(0, 0x1000 + 16 * k, 8)
        s.map_lookup(0, [0x1000 + 4 * k for k in range(330)])
        for k in r.sample(ks, 60):
            s.map_update(0, 0x1000 + 16 * k, 0)
        s.map_lookup(0, [0x1000 + 4 * k for k in range(330)])
        for k in ks[:30]:
            s.map_update(0, 0x1000 + 16 * k, 9)
        s.map_lookup(0, [0x1000 + 4 * k for k in range(330)])
        scns.append(s)
    # the same through traces; the traces of one database do not influence each other
    for i in range(60 if tier == "quick" else 800):
        s = Scenario("memory events %d" % i)
        s.db(0)
        if r.random() < 0.5:
            s.rand_bits([r.randrange(2) for _ in range(100)])
        base = r.choice([None, 0x1000, 0x1000])
        for k in range(r.randrange(1, 4)):
            t = Trace()
            t.names = [b"p", b"int*"]
            t.types = [(1, P, 8), (1, P, 8), (1, P, 4), (1, U, 8)]
            heap = gen.Heap(r, base)
            for _ in range(r.choice([3, 10, 25])):
                es = [("S", r.randrange(4))] if r.random() < 0.9 else []
                for _ in range(r.randrange(0, 6)):
                    if r.random() < 0.45:
                        es.append(("B",) + heap.event())
                    else:
                        ti = r.choice([0, 0, 0, 1, 2, 3])
                        es.append(("V", 0, ti, le(heap.pointer(), t.types[ti][2])))
                t.points.append(es)
            f = s.file(t.encode())
            s.add(0, f)
            s.read(k, f, max=r.choice([0, 0, 2, 5]))
            s.dump(k)
        s.dump_db(0)
        scns.append(s)
    core.conformance(exe, scns, res, "C05")


# ------------------------------------------------------- queries (C06 - C11)
QMODELS = [("MC_Query", "MC_Query_quick.cfg", {"workers": 4})]


def small_trace(r, points, vars=3, dup=False):
    """few names, types and values, so that queries have something to say"""
    t = Trace()
    t.names = [b"x", b"y", b"z", b"int", b"char*", b"double"]
    t.types = r.sample([(3, S, 4), (4, P, 8), (5, F, 8), (3, U, 1), (3, U, 8), (5, F, 4), (3, S, 8), (4, B, 0),
                        (3, S, 1), (3, U, 4), (4, B, 3), (3, S, 2), (3, U, 2)], r.randrange(2, 6))
    heap = gen.Heap(r, 0x1000)
    pool = []
    for _ in range(points):
        es = [("S", r.choice([1, 2, 3, 4, 5, (1 << 63) | 1, (1 << 32) | 1, 0]))]
        for _ in range(r.randrange(vars + 1)):
            ti = r.randrange(len(t.types))
            if t.types[ti][1] == P and r.random() < 0.7:
                es.append(("B",) + heap.event())
            es.append(("V", r.randrange(3), ti, gen.rvalue(r, t.types[ti], heap, pool)))
        for _ in range(r.choice([0, 0, 1, 2])):
            es.append(("X", gen.rword(r)))
        t.points.append(es)
        if dup and r.random() < 0.4:
            t.points.append(list(r.choice(t.points)))
    return t


@check("C06")
def c06(res, tier, seed):
    exe, = together(res, [DRIVER], QMODELS)
    r = rng(seed, "C06")
    scns = []
    for i in range(130 if tier == "quick" else 2500):
        s = Scenario("query %d" % i)
        t = small_trace(r, r.randrange(0, 7), r.choice([1, 3, 4])) if i % 3 else \
            gen.rtrace(r, points=r.randrange(0, 5), vars=3, widths="std")
        s.db(0)
        s.add(0, s.file(t.encode()))
        if i % 4 == 0:
            t2 = small_trace(r, 3)
            s.add(0, s.file(t2.encode()))
        for _ in range(8):
            q = gen.rquery(r, t, nv=r.choice([0, 1, 1, 2, 2, 3]) if i % 10 else 4, depth=2)
            s.query(0, 0, q)
        if i % 4 == 0:
            s.query(0, 1, gen.rquery(r, t2))
        # no predicate: all combinations
        s.query(0, 0, {"vars": [list(range(len(t.types)))] * r.randrange(0, 3), "hard": None, "soft": [],
                       "mask": 0, "stmt": 0})
        # statement selection
        for st in sorted(set(gen.stmts_of(t)))[:4]:
            for m in (gen.M64, 0xff, 0xffffffff, 1 << 63):
                if r.random() < 0.4:
                    s.query(0, 0, {"vars": r.choice([[], [list(range(len(t.types)))]]), "hard": None,
                                   "soft": [], "mask": m, "stmt": st & m})
        scns.append(s)
    # many variables in a point; many points
    s = Scenario("wide")
    t = Trace()
    t.names = [b"x", b"t"]
    t.types = [(1, U, 4), (1, S, 2)]
    t.points = [[("S", 1)] + [("V", 0, k % 2, le(k, (4, 2)[k % 2])) for k in range(40)]]
    s.db(0)
    s.add(0, s.file(t.encode()))
    s.query(0, 0, {"vars": [[0], [1]], "hard": ["<", ["value", 0], ["value", 1]], "soft": [], "mask": 0, "stmt": 0}, cost=100)
    s.query(0, 0, {"vars": [[0, 1]], "hard": [">", ["value", 0], ["u", 37]], "soft": [], "mask": 0, "stmt": 0})
    t = Trace()
    t.names = [b"x", b"t"]
    t.types = [(1, U, 4), (1, S, 2)]
    t.points = [[("S", k % 7), ("V", 0, 0, le(k, 4))] for k in range(500)]
    s.add(0, s.file(t.encode()))
    s.query(0, 1, {"vars": [[0]], "hard": None, "soft": [], "mask": 0, "stmt": 0}, cost=50)
    s.query(0, 1, {"vars": [[0]], "hard": [">=", ["value", 0], ["u", 490]], "soft": [], "mask": 3, "stmt": 2}, cost=50)
    s.query(0, 1, {"vars": [], "hard": None, "soft": [], "mask": gen.M64, "stmt": 6}, cost=50)
    scns.append(s)
    # many free variables
    for i in range(6 if tier == "quick" else 40):
        s = Scenario("free variables %d" % i)
        nv = r.choice([5, 6, 7, 8])
        t = Trace()
        t.names = [b"x", b"y", b"t"]
        t.types = [(2, U, 4), (2, S, 2), (2, U, 1)]
        t.points = [[("S", 1)] + [("V", k % 2, k % 3, le(r.randrange(3), (4, 2, 1)[k % 3])) for k in range(r.choice([5, 6, 6]))]
                    for _ in range(2)]
        s.db(0)
        s.add(0, s.file(t.encode()))
        vs = [r.choice([[0], [1], [2, 2], [0, 5]]) for _ in range(nv)]
        s.query(0, 0, {"vars": vs, "hard": ["<", ["value", 0], ["value", nv - 1]], "soft": [], "mask": 0, "stmt": 0}, cost=100)
        s.query(0, 0, {"vars": vs, "hard": ["and"] + [["<=", ["value", k], ["value", k + 1]] for k in range(nv - 1)],
                       "soft": [], "mask": 0, "stmt": 0}, cost=100)
        scns.append(s)
    # traces with the same indices and values, but other types
    for i in range(10 if tier == "quick" else 150):
        s = Scenario("siblings %d" % i)
        t = small_trace(r, r.randrange(1, 4), 3)
        ts = [t] + [gen.retyped(r, t) for _ in range(2)]
        s.db(0)
        for u in ts:
            s.add(0, s.file(u.encode()))
        for k in range(4):
            q = gen.rquery(r, t, nv=r.choice([1, 2]), depth=1)
            for j in range(3):
                s.query(0, j, q)
        scns.append(s)
    n = 66000
    t = Trace()
    t.names = [b"n", b"m"]
    t.types = [(0, U, 4)]
    t.points = [[("S", i % 16384), ("V", i % 2, 0, le(i, 4))] if i % 5 == 0 else [("S", i % 16384)] for i in range(n)]
    s = Scenario("many points")
    s.db(0)
    s.add(0, s.file(t.encode()))
    s.query(0, 0, {"vars": [], "hard": None, "soft": [], "mask": gen.M64, "stmt": 5}, cost=400)
    s.query(0, 0, {"vars": [[0]], "hard": [">", ["value", 0], ["u", n - 20]], "soft": [], "mask": 0xff, "stmt": 200}, cost=400)
    scns.append(s)
    s = Scenario("many eligible points")
    n = 9000
    t = t.copy()
    t.points = [[("S", i % 7), ("V", i % 2, 0, le(i, 4))] if i % 5 == 0 else [("S", i)] for i in range(n)]
    s.db(0)
    s.add(0, s.file(t.encode()))
    s.query(0, 0, {"vars": [[0]], "hard": [">", ["value", 0], ["u", n - 20]], "soft": [], "mask": 0, "stmt": 0}, cost=400)
    scns.append(s)
    # many candidates for one variable
    for i in range(3 if tier == "quick" else 12):
        s = Scenario("candidates %d" % i)
        k = (70, 140, 280)[i % 3]
        t = Trace()
        t.names = [b"x", b"y", b"t"]
        t.types = [(2, U, 4), (2, S, 2), (2, U, 1)]
        es = [("V", j % 2, 0, le(j, 4)) for j in range(k)] + [("V", 0, 1, le(k - 2, 2)), ("V", 1, 2, b"\5")]
        r.shuffle(es)
        t.points = [[("S", 1)] + es, [("S", 2), ("V", 0, 1, le(7, 2))]]
        s.db(0)
        s.add(0, s.file(t.encode()))
        for q in ({"vars": [[0]], "hard": None}, {"vars": [[0, 1, 2]], "hard": [">", ["value", 0], ["u", k - 5]]},
                  {"vars": [[1], [0]], "hard": ["<", ["value", 0], ["value", 1]]},
                  {"vars": [[0], [1, 2]], "hard": ["=", ["value", 0], ["value", 1]]}):
            s.query(0, 0, dict(q, soft=[], mask=0, stmt=0), cost=40)
        scns.append(s)
    # more than 2^16 combinations at one point
    s = Scenario("combinations")
    k = 260 if tier == "quick" else 400
    t = Trace()
    t.names = [b"x", b"y", b"t"]
    t.types = [(2, U, 4), (2, U, 4)]
    es = [("V", 0, 0, le(j, 4)) for j in range(k)] + [("V", 1, 1, le(j, 4)) for j in range(k)]
    r.shuffle(es)
    t.points = [[("S", 1)] + es]
    s.db(0)
    s.add(0, s.file(t.encode()))
    s.query(0, 0, {"vars": [[0], [1]], "hard": ["=", ["value", 0], ["value", 1]], "soft": [], "mask": 0, "stmt": 0}, cost=2000)
    scns.append(s)
    # queries of traces made of objects, and of copies
    for i in range(12 if tier == "quick" else 200):
        s = Scenario("objects %d" % i)
        t = small_trace(r, r.randrange(1, 6), 3)
        s.build(0, gen.contents(t, r if i % 2 else None))
        s.db(0)
        s.add_object(0, 0)
        qs = [gen.rquery(r, t, nv=r.choice([1, 1, 2]), depth=1) for _ in range(4)]
        for q in qs[:2]:
            s.query(0, 0, q)
        s.copy_db(0, 1)
        s.add_object(1, 0)
        for q in qs:
            for d, k in ((1, 0), (0, 0), (1, 1)):
                s.query(d, k, q)
        scns.append(s)
    core.conformance(exe, scns, res, "C06")


def big_const(v):
    """an expression with the exact (unbounded) integer value v"""
    if v < 0:
        return ["-", ["u", 0], big_const(-v)]
    if v <= gen.M64:
        return ["u", v]
    hi, lo = divmod(v, 1 << 64)
    return ["+", ["*", big_const(hi), ["*", ["u", 1 << 32], ["u", 1 << 32]]], ["u", lo]]


def rand_int_expr(r, vals, depth):
    """(expression, exact value) over integer variables with the given values"""
    k = r.random()
    if depth and k < 0.7:
        op = r.choice("+-*")
        a, x = rand_int_expr(r, vals, depth - 1)
        b, y = rand_int_expr(r, vals, depth - 1)
        return [op, a, b], x + y if op == "+" else x - y if op == "-" else x * y
    if k < 0.85 and vals:
        i = r.randrange(len(vals))
        return ["value", i], vals[i]
    v = gen.rword(r)
    if r.random() < 0.5:
        return ["s", v], v - (1 << 64) if v >> 63 else v
    return ["u", v], v


@check("C07")
def c07(res, tier, seed):
    exe, = together(res, [DRIVER], [("MC_Arith", "MC_Arith.cfg", {"workers": 4})] + QMODELS)
    r = rng(seed, "C07")
    scns = []
    cmps = [">", ">=", "<", "<=", "="]
    # expressions compared with their own exact value and its neighbours
    for i in range(90 if tier == "quick" else 1500):
        s = Scenario("arithmetic %d" % i)
        t = Trace()
        t.names = [b"a", b"b", b"c", b"t"]
        forms = [(U, 1), (U, 2), (U, 4), (U, 8), (S, 1), (S, 2), (S, 4), (S, 8), (P, 8)]
        pick = [r.choice(forms) for _ in range(r.randrange(1, 4))]
        t.types = [(3, f, n) for f, n in pick]
        vals, es = [], [("S", 1)]
        for k, (f, n) in enumerate(pick):
            v = gen.rint(r, n)
            if f == P and v == gen.ONES:
                v -= 1
            es.append(("V", k, k, le(v, n)))
            vals.append(v - (1 << (8 * n)) if f == S and v >> (8 * n - 1) else v)
        t.points = [es]
        s.db(0)
        s.add(0, s.file(t.encode()))
        fv = [[k] for k in range(len(pick))]
        for _ in range(10):
            e, v = rand_int_expr(r, vals, r.choice([0, 1, 2, 3]))
            d = r.choice([0, 0, 1, -1, 2, 1 << 64, -(1 << 64), 1 << 63])
            p = [r.choice(cmps), e, big_const(v + d)]
            if r.random() < 0.2:
                p = ["not", p]
            s.query(0, 0, {"vars": fv, "hard": p, "soft": [], "mask": 0, "stmt": 0})
        scns.append(s)
    # products of many factors: no fixed number of bits is enough
    for i in range(6 if tier == "quick" else 40):
        s = Scenario("long products %d" % i)
        t = Trace()
        t.names = [b"a", b"b", b"t"]
        t.types = [(2, U, 8), (2, S, 8), (2, U, 4)]
        vals = [r.getrandbits(64) | (1 << 63) | 1, -(r.getrandbits(62) | (1 << 61) | 1), r.getrandbits(32) | 1]
        t.points = [[("S", 1)] + [("V", k % 2, k, le(v, (8, 8, 4)[k])) for k, v in enumerate(vals)]]
        s.db(0)
        s.add(0, s.file(t.encode()))
        k = (5, 9, 17, 33, 40, 12)[i % 6]
        fs = [["value", r.randrange(3)] for _ in range(k)]

        def left(xs):
            e = xs[0]
            for x in xs[1:]:
                e = ["*", e, x]
            return e

        def tree(xs):
            return xs[0] if len(xs) == 1 else ["*", tree(xs[:len(xs) // 2]), tree(xs[len(xs) // 2:])]
        ys = list(fs)
        r.shuffle(ys)
        for c in cmps:
            for d in (["u", 0], ["u", 1], ["s", gen.M64]):
                s.query(0, 0, {"vars": [[0], [1], [2]], "hard": [c, left(fs), ["+", tree(ys), d]], "soft": [], "mask": 0, "stmt": 0}, cost=k)
        s.query(0, 0, {"vars": [[0], [1], [2]], "hard": ["=", ["-", left(fs), tree(ys)], ["u", 0]], "soft": [], "mask": 0, "stmt": 0}, cost=k)
        s.query(0, 0, {"vars": [[0], [1], [2]], "hard": [">", ["*", left(fs), left(fs)], left(ys[1:])], "soft": [], "mask": 0, "stmt": 0}, cost=k)
        scns.append(s)
    # sums, differences and products of integers and floats against their exact value and its neighbours
    import struct
    from fractions import Fraction
    for i in range(60 if tier == "quick" else 900):
        s = Scenario("mixed %d" % i)
        t = Trace()
        t.names = [b"a", b"b", b"c", b"t"]
        pick = [r.choice([(U, 8), (S, 8), (F, 8), (F, 4), (U, 4), (S, 4)]) for _ in range(r.randrange(1, 4))]
        t.types = [(3, f, n) for f, n in pick]
        vals, es = [], [("S", 1)]
        for k, (f, n) in enumerate(pick):
            if f == F:
                x = r.choice([1.0, 0.5, -2.25, 3.0, 2.0 ** 53, 2.0 ** 52 + 1, 2.0 ** 63, 2.0 ** 64, 1e15, 0.1, 16777216.0, -7.0,
                              16777215.0, 4096.5]) * r.choice([1, 1, -1, 2])
                raw = struct.pack("<d" if n == 8 else "<f", x)
                v = Fraction(struct.unpack("<d" if n == 8 else "<f", raw)[0])
            else:
                v = r.choice([gen.rint(r, n), (1 << 53) + r.randrange(-2, 3), (1 << 63) + r.randrange(-3, 3), (1 << 24) + 1,
                              r.getrandbits(8 * n)]) & ((1 << (8 * n)) - 1)
                raw = le(v, n)
                v = Fraction(v - (1 << (8 * n)) if f == S and v >> (8 * n - 1) else v)
            es.append(("V", k, k, raw))
            vals.append(v)

        def mix(d):
            k = r.random()
            if d and k < 0.7:
                op = r.choice("+-*")
                a, x = mix(d - 1)
                b, y = mix(d - 1)
                return [op, a, b], x + y if op == "+" else x - y if op == "-" else x * y
            if k < 0.85:
                j = r.randrange(len(vals))
                return ["value", j], vals[j]
            if k < 0.93:
                x = r.choice([1.0, -1.0, 0.5, 2.0 ** 53, 2.0 ** 60, 3.0, 1.0, 0.0])
                return ["f", gen.d2w(x)], Fraction(x)
            v = r.choice([1, 3, (1 << 53) + 1, (1 << 64) - 1, 1 << 63])
            return ["u", v], Fraction(v)
        t.points = [es]
        s.db(0)
        s.add(0, s.file(t.encode()))
        fv = [[k] for k in range(len(pick))]
        for _ in range(8):
            e, v = mix(r.choice([0, 0, 1, 1, 2, 3]))
            d = r.choice([0, 0, 1, -1, 1 << 10])
            c = big_const(v.numerator + d)
            if v.denominator > 1:
                e = ["*", e, ["u", v.denominator]] if v.denominator < 1 << 64 else e
            elif r.random() < 0.3 and float(v) == v + d:
                c = ["f", gen.d2w(float(v))]
            p = [r.choice(cmps)] + r.choice([[e, c], [c, e]])
            s.query(0, 0, {"vars": fv, "hard": p, "soft": [], "mask": 0, "stmt": 0}, cost=3)
            # and against the float nearest to it
            if abs(v) < 1 << 200:
                s.query(0, 0, {"vars": fv, "hard": [r.choice(cmps)] + r.choice([[e, ["f", gen.d2w(float(v * (v.denominator if e[0] == "*" and v.denominator > 1 else 1)))]]]),
                               "soft": [], "mask": 0, "stmt": 0}, cost=3)
        # quotients and their neighbours at a relative distance of 10^-25
        for _ in range(3):
            j = r.randrange(len(vals))
            a, b = r.choice([1, 2, 7, 10 ** 9 + 7, (1 << 64) - 1, 355]), r.choice([3, 7, 113, 9, 1 << 40, (1 << 61) - 1])
            K = 10 ** 25
            lhs = ["/", ["u", a], ["u", b]]
            rhs = ["/", big_const(a * K + r.choice([1, -1, 2]) * a), big_const(b * K)]
            s.query(0, 0, {"vars": fv, "hard": [r.choice(cmps), lhs, rhs], "soft": [], "mask": 0, "stmt": 0}, cost=3)
        scns.append(s)
    # the IEEE values of floats against integers, quotients and each other
    fl = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1.0 / 3, 3.25, -2.5, 1e10, 1e18, 9007199254740992.0, 9007199254740994.0,
          16777216.0, 123456789.125, 1e-10, 5e-5, -1e9, 2.0 ** 64, 2.0 ** 63, 1e22, 255.0]
    for i in range(90 if tier == "quick" else 1200):
        s = Scenario("floats %d" % i)
        t = Trace()
        t.names = [b"a", b"b", b"t"]
        t.types = [(2, F, 8), (2, F, 4), (2, S, 8), (2, U, 8), (2, B, 0), (2, P, 8)]
        for _ in range(2):
            x = r.choice(fl) * r.choice([1, 1, 1.5, -1])
            y = r.choice(fl[:16]) * r.choice([1, 1, 1.5, -1])
            z = int(x) + r.choice([0, 1, -1]) if abs(x) < 1 << 62 else gen.rword(r)
            t.points.append([("S", 1), ("V", 0, 0, struct.pack("<d", x)), ("V", 0, 1, struct.pack("<f", y)),
                             ("V", 1, 2, le(z, 8)), ("V", 1, 3, le(abs(z), 8)), ("V", 1, 4, b"blob"),
                             ("B", 64, 32), ("V", 0, 5, le(r.choice([64, 70, 96, 97, 10]), 8))])
        s.db(0)
        s.add(0, s.file(t.encode()))
        for _ in range(12):
            nv = r.randrange(1, 3)
            fv = [[r.randrange(6)] for _ in range(nv)]

            def num(d):
                k = r.random()
                if d and k < 0.5:
                    return [r.choice("+-*//"), num(d - 1), num(d - 1)]
                if k < 0.75:
                    return [r.choice(["value", "value", "value", "size"]), r.randrange(nv)]
                k = r.randrange(3)
                if k == 0:
                    return ["f", gen.d2w(r.choice(fl))]
                if k == 1:
                    return ["s", r.choice([0, 1, -1, 3, 7, 10, 1 << 53, (1 << 53) + 1, 16777217, -2]) & gen.M64]
                return ["u", r.choice([0, 1, 2, 3, 32, 64, 96, 10, gen.M64, 1 << 63])]
            p = [r.choice(cmps), num(r.choice([0, 1, 2])), num(r.choice([0, 0, 1]))]
            k = r.random()
            if k < 0.2:
                p = ["not", p]
            elif k < 0.4:
                p = [r.choice(["and", "or"]), p] + [[r.choice(cmps), num(1), num(0)] for _ in range(r.randrange(3))]
            s.query(0, 0, {"vars": fv, "hard": p, "soft": [], "mask": 0, "stmt": 0}, cost=5)
        scns.append(s)
    # every kind of zero as a divisor of every kind of value
    nums = [["value", 0], ["value", 1], ["value", 2], ["size", 3], ["u", 5], ["s", gen.M64 - 4], ["f", gen.d2w(2.5)], ["u", 0],
            ["f", gen.d2w(0.0)]]
    zeros = [["u", 0], ["s", 0], ["f", gen.d2w(0.0)], ["f", gen.d2w(-0.0)], ["-", ["value", 0], ["value", 0]],
             ["-", ["value", 2], ["value", 2]], ["*", ["f", gen.d2w(0.0)], ["value", 1]], ["value", 4], ["value", 5], ["value", 6],
             ["/", ["u", 0], ["u", 3]], ["/", ["f", gen.d2w(0.0)], ["value", 0]]]
    pairs = [(x, y) for x in nums for y in zeros]
    r.shuffle(pairs)
    t = Trace()
    t.names = [b"v", b"t"]
    t.types = [(1, U, 4), (1, S, 8), (1, F, 8), (1, P, 8), (1, U, 2), (1, F, 8), (1, F, 4)]
    t.points = [[("S", 1), ("V", 0, 0, le(7, 4)), ("V", 0, 1, le(gen.M64 - 2, 8)), ("V", 0, 2, struct.pack("<d", 0.75)), ("B", 64, 32),
                 ("V", 0, 3, le(64, 8)), ("V", 0, 4, le(0, 2)), ("V", 0, 5, struct.pack("<d", 0.0)), ("V", 0, 6, struct.pack("<f", -0.0))]]
    for i in range(9 if tier == "quick" else 36):
        s = Scenario("zero divisors %d" % i)
        s.db(0)
        s.add(0, s.file(t.encode()))
        for x, y in pairs[i % 9::9]:
            p = [r.choice(cmps)] + r.choice([[["/", x, y], r.choice(nums)], [r.choice(nums), ["/", x, y]]])
            k = r.random()
            if k < 0.4:
                p = ["not", p]
            elif k < 0.6:
                p = [r.choice(["and", "or"]), p, r.choice([["=", ["u", 1], ["u", 1]], ["<", ["u", 1], ["u", 1]]])]
            s.query(0, 0, {"vars": [[k] for k in range(7)], "hard": p, "soft": [], "mask": 0, "stmt": 0}, cost=3)
        scns.append(s)
    # floats at the ends of their range
    ends = [5e-324, 1e-323, 2.2250738585072014e-308, 2.225073858507201e-308, 1e-300, 1e300, 1.0000000000000002e300, 1e305, 1e306,
            1.7976931348623157e308, 1.7976931348623155e308, 2.0 ** 1023, 0.0]
    ends4 = [1e-45, 3e-45, 1.1754943508222875e-38, 3.4028234663852886e38, 3.4028232635611926e38, 2.0 ** 127]
    for i in range(12 if tier == "quick" else 120):
        s = Scenario("ends of floats %d" % i)
        a, b = r.choice(ends) * r.choice([1, 1, -1]), r.choice(ends) * r.choice([1, 1, -1])
        c = r.choice(ends4) * r.choice([1, 1, -1])
        t = Trace()
        t.names = [b"v", b"t"]
        t.types = [(1, F, 8), (1, F, 8), (1, F, 4), (1, U, 8)]
        t.points = [[("S", 1), ("V", 0, 0, struct.pack("<d", a)), ("V", 0, 1, struct.pack("<d", b)), ("V", 0, 2, struct.pack("<f", c)),
                     ("V", 0, 3, le(gen.rword(r), 8))]]
        s.db(0)
        s.add(0, s.file(t.encode()))
        es = [["value", 0], ["value", 1], ["value", 2], ["value", 3], ["f", gen.d2w(a)], ["f", gen.d2w(b)], ["f", gen.d2w(c)],
              ["f", gen.d2w(r.choice(ends))]]
        for _ in range(10):
            x, y = r.choice(es), r.choice(es)
            if r.random() < 0.3:
                y = ["-", y, ["value", 0]]
            s.query(0, 0, {"vars": [[0], [1], [2], [3]], "hard": [r.choice(cmps), x, y], "soft": [], "mask": 0, "stmt": 0}, cost=5)
        scns.append(s)
    # sizes of buffers, up to the greatest
    for i in range(25 if tier == "quick" else 300):
        s = Scenario("sizes %d" % i)
        t = Trace()
        t.names = [b"p", b"q", b"t"]
        t.types = [(2, P, 8), (2, P, 4), (2, U, 8)]
        sz = r.choice([1, 8, 255, 256, 65536, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 5, (1 << 63) - 1, 1 << 63, (1 << 63) + 9,
                       gen.M64 - 0x3000, gen.M64 - 1])
        off = r.choice([0, 0, 1, 5, min(sz, 1 << 33), sz // 2, sz])
        base = 0x1000 if sz < gen.M64 - 0x2000 else 0
        off = min(off, gen.M64 - 1 - base)
        t.points = [[("S", 1), ("V", 1, 0, le(base + off, 8)), ("B", base, sz), ("V", 0, 0, le(base + off, 8)),
                     ("V", 0, 1, le(base, 4)), ("V", 0, 2, le(base + off, 8))]]
        s.db(0)
        s.add(0, s.file(t.encode()))
        for v, x in ((sz - off, 0), (sz, 1)):
            for d in (-1, 0, 1):
                for c in cmps:
                    if r.random() < 0.6:
                        s.query(0, 0, {"vars": [[x]], "hard": [c, ["size", 0], big_const(v + d)], "soft": [], "mask": 0, "stmt": 0})
        s.query(0, 0, {"vars": [[0], [0]], "hard": ["<", ["size", 0], ["+", ["size", 1], ["u", 1]]], "soft": [], "mask": 0, "stmt": 0})
        s.query(0, 0, {"vars": [[0], [1]], "hard": ["=", ["+", ["value", 0], ["size", 0]], ["+", ["value", 1], ["size", 1]]],
                       "soft": [], "mask": 0, "stmt": 0})
        s.query(0, 0, {"vars": [[0, 2]], "hard": [">=", ["size", 0], ["u", 0]], "soft": [], "mask": 0, "stmt": 0})
        s.query(0, 0, {"vars": [[0, 2]], "hard": ["not", [">=", ["size", 0], ["u", 0]]], "soft": [], "mask": 0, "stmt": 0})
        scns.append(s)
    # extreme floats against themselves and their neighbours
    for i in range(8 if tier == "quick" else 60):
        s = Scenario("extreme floats %d" % i)
        t = Trace()
        t.names = [b"a", b"t"]
        t.types = [(1, F, 8), (1, F, 4)]
        w = r.choice([1, 2, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x7fe0000000000000, gen.d2w(1e-300),
                      gen.d2w(-1e300), gen.d2w(1e100), gen.d2w(1e-50), (1 << 63) | 1])
        w4 = r.choice([1, 0x007fffff, 0x00800000, 0x7f7fffff, 0x80000001, 0x00000002])
        t.points = [[("S", 1), ("V", 0, 0, le(w, 8)), ("V", 0, 1, le(w4, 4))]]
        s.db(0)
        s.add(0, s.file(t.encode()))
        f4 = struct.unpack("<f", le(w4, 4))[0]
        for c in cmps:
            for ww in (w, w + 1 if w not in (0x7fefffffffffffff,) else w, w - 1 if w not in (0, 1 << 63) else w, w ^ (1 << 63)):
                if r.random() < 0.5:
                    s.query(0, 0, {"vars": [[0]], "hard": [c, ["value", 0], ["f", ww]], "soft": [], "mask": 0, "stmt": 0}, cost=6)
            s.query(0, 0, {"vars": [[1]], "hard": [c, ["value", 0], ["f", gen.d2w(f4)]], "soft": [], "mask": 0, "stmt": 0}, cost=6)
            s.query(0, 0, {"vars": [[1]], "hard": [c, ["value", 0], ["f", gen.d2w(f4) + 1]], "soft": [], "mask": 0, "stmt": 0}, cost=6)
            s.query(0, 0, {"vars": [[0]], "hard": [c, ["value", 0], ["u", 0]], "soft": [], "mask": 0, "stmt": 0}, cost=6)
        scns.append(s)
    # logical structure and distinctness
    s = None
    for i in range(40 if tier == "quick" else 600):
        s = Scenario("logic %d" % i)
        t = Trace()
        t.names = [b"x", b"y", b"t", b"u"]
        t.types = [(2, U, 4), (3, U, 4), (2, S, 4), (2, P, 8), (2, B, 0), (2, B, 4)]
        one = le(r.choice([1, 0, 7]), 4)
        cand = [("V", 0, 0, one), ("V", 0, 0, one), ("V", 1, 0, one), ("V", 0, 1, one), ("V", 0, 2, one),
                ("V", 0, 4, b"ab"), ("V", 0, 4, b"ab"), ("V", 0, 4, b"ac"), ("V", 0, 4, b"abc"),
                ("V", 0, 5, one), ("V", 0, 0, le(2, 4)), ("B", 0x40, 16), ("B", 0x40, 24),
                ("V", 0, 3, le(0x42, 8)), ("V", 0, 3, le(0x42, 8)), ("B", 0x40, 0)]
        t.points = [[("S", 1)] + [r.choice(cand) for _ in range(r.randrange(1, 7))] for _ in range(3)]
        s.db(0)
        s.add(0, s.file(t.encode()))
        allt = list(range(6))
        for p in (["distinct", 0, 1], ["not", ["distinct", 0, 1]], ["distinct", 1, 0], ["distinct", 0, 0]):
            s.query(0, 0, {"vars": [allt, allt], "hard": p, "soft": [], "mask": 0, "stmt": 0}, cost=10)
        for _ in range(6):
            s.query(0, 0, {"vars": [allt] * 2, "hard": gen.rpred(r, 2, 3, [0, 1, 7, 16]), "soft": [],
                           "mask": 0, "stmt": 0}, cost=10)
        for p in (["and"], ["or"], ["not", ["and"]], ["not", ["or"]], ["and", ["and"], ["or"]], ["or", ["and"], ["or"]],
                  ["and", ["="] + [["u", 1]] * 2], ["or", [">"] + [["u", 1]] * 2],
                  ["and"] + [["<", ["u", k], ["u", 5]] for k in range(r.choice([5, 6]))],
                  ["or"] + [[">", ["u", k], ["u", 3]] for k in range(r.choice([4, 5]))]):
            s.query(0, 0, {"vars": [allt], "hard": p, "soft": [], "mask": 0, "stmt": 0})
        scns.append(s)
    # one pointer value with and without a known buffer, also of no bytes
    for i in range(6 if tier == "quick" else 60):
        s = Scenario("ends of buffers %d" % i)
        t = Trace()
        t.names = [b"p", b"q", b"char*"]
        t.types = [(2, P, 8)]
        a, n = r.choice([0, 0x1000, 1 << 63]), r.choice([1, 8, 4096])
        ptr = lambda: ("V", r.randrange(2), 0, le(a + n, 8))
        on, off, more = ("B", a, n), ("B", a, 0), ("B", a, n + r.randrange(1, 9))
        k = r.choice([[off, on, more], [on, off, on], [more, on, off, on, off]])
        t.points = [[("S", j), e, ptr(), ptr()] for j, e in enumerate(k)] + [[("S", 9)] + [x for e in k for x in (e, ("V", 0, 0, le(a + n, 8)))]]
        s.db(0)
        s.add(0, s.file(t.encode()))
        for h in ([r.choice(["=", ">=", "<="]), ["size", 0], ["u", 0]], ["not", ["=", ["size", 0], ["u", 0]]],
                  [">=", ["size", 0], ["s", gen.M64]], ["distinct", 0, 1], ["=", ["size", 0], ["size", 1]],
                  [">", ["size", 0], ["size", 1]]):
            s.query(0, 0, {"vars": [[0], [0]], "hard": h, "soft": [], "mask": 0, "stmt": 0}, cost=10)
        scns.append(s)
    core.conformance(exe, scns, res, "C07")


@check("C08")
def c08(res, tier, seed):
    exe, = together(res, [DRIVER], QMODELS)
    r = rng(seed, "C08")
    scns = []
    for i in range(150 if tier == "quick" else 2500):
        s = Scenario("soft %d" % i)
        t = small_trace(r, r.randrange(1, 6), r.choice([2, 4]))
        s.db(0)
        s.add(0, s.file(t.encode()))
        for _ in range(7):
            q = gen.rquery(r, t, nv=r.choice([1, 1, 2, 2, 3, 0]), soft=r.choice([1, 2, 3, 4, 6]), depth=1)
            if r.random() < 0.2:
                q["soft"] = q["soft"] + q["soft"][:1]
            s.query(0, 0, q, keep=r.choice([1, 1, 1, 0]), seed=r.choice([0, 0, 0, 5, 77]))
        # predicates over values and names only some points can satisfy
        allt = list(range(len(t.types)))
        cs = gen.consts_of(t) or [0]
        q = {"vars": [allt], "hard": None, "mask": 0, "stmt": 0,
             "soft": [[r.choice([">", "<", "=", ">=", "<="]), ["value", 0], ["s", r.choice(cs)]] for _ in range(r.randrange(1, 6))]}
        s.query(0, 0, q)
        q = dict(q, vars=[allt, allt], soft=q["soft"] + [["distinct", 0, 1], [">", ["value", 0], ["value", 1]]])
        s.query(0, 0, q, cost=10)
        # connectives over comparisons which hold for some candidates only
        cmp = lambda v: [r.choice([">", "<", "=", ">=", "<="]), ["value", v], ["s", r.choice(cs)]]
        sp = []
        for _ in range(r.randrange(2, 7)):
            k = r.randrange(5)
            v = r.randrange(2)
            sp.append(["not", cmp(v)] if k == 0 else ["and", cmp(0), cmp(1)] if k == 1 else ["or", cmp(0), cmp(1)] if k == 2
                      else ["not", ["and", cmp(v), cmp(v)]] if k == 3 else cmp(v))
        s.query(0, 0, {"vars": [allt, allt], "hard": r.choice([None, cmp(0)]), "mask": 0, "stmt": 0, "soft": sp}, cost=10)
        sp = r.sample(sp, len(sp))
        s.query(0, 0, {"vars": [allt, allt], "hard": None, "mask": 0, "stmt": 0, "soft": sp}, cost=10)
        # many soft predicates
        if i % 10 == 0:
            q = {"vars": [allt], "hard": None, "mask": 0, "stmt": 0,
                 "soft": [[">", ["value", 0], ["s", (k - 130) & gen.M64]] for k in range(300)]}
            s.query(0, 0, q, cost=60)
        scns.append(s)
    core.conformance(exe, scns, res, "C08")


@check("C09")
def c09(res, tier, seed):
    exe, = together(res, [DRIVER], QMODELS + [("MC_Cache", "MC_Cache.cfg", {"workers": 4})])
    r = rng(seed, "C09")
    scns = []
    depth = 40
    hs = core.histories("MC_DB", "MC_DB_sim.cfg", 60 if tier == "quick" else 600, depth, seed, res)
    for i, h in enumerate(hs):
        s = Scenario("history %d" % i)
        ts = [small_trace(r, r.randrange(1, 6)), small_trace(r, r.randrange(1, 6))]
        if i % 2:
            # nearly the same trace again: same types, other values
            t2 = ts[0].copy()
            for p in t2.points:
                for k, e in enumerate(p):
                    if e[0] == "V" and r.random() < 0.5 and t2.types[e[2]][1] in (U, S):
                        p[k] = e[:3] + (le(gen.rint(r, len(e[3])), len(e[3])),)
            ts.append(t2)
        else:
            ts.append(gen.retyped(r, ts[0]) if i % 4 else small_trace(r, r.randrange(1, 6)))
        files = {k: s.file(t.encode()) for k, t in enumerate(ts)}
        files[3] = s.file(ts[0].encode() + b"\x09")
        qs = []
        for k in range(8):
            q = gen.rquery(r, ts[k % 3], nv=r.choice([0, 1, 1, 2, 2]), soft=r.choice([0, 0, 2]))
            if k >= 5 and qs:
                # a variation of an earlier query: other mask, other constants, operands exchanged
                q = dict(r.choice(qs))
                m = r.randrange(3)
                if m == 0:
                    q["mask"] = r.choice([0, 1, 0xff, gen.M64])
                    q["stmt"] = r.choice(gen.stmts_of(ts[0]) + [0]) & q["mask"]
                elif m == 1 and q["hard"] and len(q["hard"]) == 3:
                    q["hard"] = [q["hard"][0], q["hard"][2], q["hard"][1]]
                else:
                    q["vars"] = list(reversed(q["vars"]))
            qs.append(q)
        solo = set()
        for op in h:
            if op[0] == "D":
                s.db(op[1])
            elif op[0] == "XD":
                s.free_db(op[1])
            elif op[0] == "A":
                s.add(op[1], files[op[2]])
            elif op[0] == "AM":
                s.add_missing(op[1])
            elif op[0] == "R":
                s.read(op[1], files[op[2]])
            elif op[0] == "X":
                s.free(op[1])
            elif op[0] == "S":
                s.serialize(op[1], op[2])
            elif op[0] == "U":
                s.restore(op[1], op[2])
            elif op[0] == "Q":
                n = op[3]
                s.query(op[1], op[2], qs[n], keep=(n + 1) % 3 and 1 or 0,
                        seed=0 if n % 4 else r.choice([3, 9]), memo=True)
        # queries left every trace as it was
        for d in range(3):
            s.op("DD %d" % d, "DD", d=d)
        scns.append(s)
    # queries which differ in one place only, one after the other on the same database, in several orders
    for i in range(30 if tier == "quick" else 500):
        s = Scenario("twins %d" % i)
        t = small_trace(r, r.randrange(2, 6))
        if i % 3 == 0:
            # values for which it matters whether a constant is signed, unsigned or floating
            t.types = [(3, S, 8), (3, U, 8), (5, F, 8)]
            t.points = [[("S", r.choice([1, 2, (1 << 63) | 1]))] + [("V", r.randrange(3), k, le(v, 8)) for k in range(3)
                        for v in r.sample([0, 1, gen.M64, gen.M64 - 1, 1 << 63, (1 << 63) - 1, gen.d2w(1.0), gen.d2w(-2.0)], 2)
                        if k < 2 or gen._finite(v)] for _ in range(3)]
        s.db(0)
        s.db(1)
        f = s.file(t.encode())
        s.add(0, f)
        s.add(1, f)
        q = gen.rquery(r, t, nv=r.choice([1, 1, 2]), soft=r.choice([0, 0, 2]))
        if i % 3 == 0 or not q["hard"]:
            q["hard"] = [r.choice([">", "<", ">=", "=", "<="]), ["value", 0],
                         [r.choice("us"), r.choice([0, 1, gen.M64, gen.M64 - 1, 1 << 63, gen.d2w(1.0), gen.d2w(-2.0)])]]
        tw = gen.query_twins(r, q, len(t.types))
        tw = [q] + r.sample(tw, min(len(tw), 22))
        order = tw + tw[::-1] + r.sample(tw, len(tw) // 2)
        for k, x in enumerate(order):
            s.query(k % 7 == 3 and 1 or 0, 0, x, keep=int(k % 5 != 4), seed=0 if k % 6 != 5 else r.choice([3, 9]), memo=True)
        scns.append(s)
    # the same pointer with other buffer sizes, the same values under other names and types
    for i in range(16 if tier == "quick" else 250):
        s = Scenario("sizes %d" % i)
        t = Trace()
        t.names = [b"p", b"q", b"t"]
        t.types = [(2, P, 8), (2, P, 8), (2, U, 8)]
        a = r.choice([0x1000, 0x7fff0000, 1 << 40])
        ts = []
        for k in range(2):
            u = t.copy()
            for _ in range(r.randrange(2, 6)):
                es = [("S", r.randrange(3))]
                if r.random() < 0.8:
                    es.append(("B", a, r.choice([0, 8, 16, 16, 40, 41])))
                for _ in range(r.randrange(1, 4)):
                    es.append(("V", r.randrange(2), r.choice([0, 0, 1, 2]), le(a + r.choice([0, 0, 8]), 8)))
                u.points.append(es)
            ts.append(u)
        for d in (0, 1):
            s.db(d)
            for u in ts:
                s.add(d, s.file(u.encode()))
        qs = [{"vars": [[0, 1, 2]], "hard": [c, ["size", 0], ["u", n]], "soft": [], "mask": 0, "stmt": 0}
              for c in (">", "=", "<=") for n in (8, 16, 40)]
        qs += [{"vars": [[0], [0, 1]], "hard": ["<", ["size", 0], ["size", 1]], "soft": [["=", ["value", 0], ["value", 1]]], "mask": 0, "stmt": 0},
               {"vars": [[0, 2], [0, 1]], "hard": ["distinct", 0, 1], "soft": [["=", ["size", 0], ["u", 16]]], "mask": 0, "stmt": 0}]
        for k in range(24):
            s.query(r.randrange(2), r.randrange(2), r.choice(qs), keep=int(r.random() < 0.7), seed=r.choice([0, 0, 0, 3]), memo=True)
        scns.append(s)
    core.conformance(exe, scns, res, "C09")
    if res.violation is None:
        # once more with freed memory reused at once
        core.conformance(exe, scns, res, "C09", env={"ASAN_OPTIONS": core.ASAN +
                         ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"})


@check("C10")
def c10(res, tier, seed):
    exe, = together(res, [DRIVER], QMODELS)
    r = rng(seed, "C10")
    scns = []
    for i in range(150 if tier == "quick" else 2500):
        s = Scenario("duplicates %d" % i)
        t = small_trace(r, r.randrange(1, 7), r.choice([1, 2, 3]), dup=True)
        s.db(0)
        s.add(0, s.file(t.encode()))
        for _ in range(7):
            q = gen.rquery(r, t, nv=r.choice([0, 1, 1, 2, 2]), soft=r.choice([0, 0, 0, 2]), depth=1)
            if r.random() < 0.4:
                q["hard"] = None
            for keep in (0, 1) if r.random() < 0.3 else (0,):
                s.query(0, 0, q, keep=keep)
        allt = list(range(len(t.types)))
        for nv in (0, 1, 2):
            s.query(0, 0, {"vars": [allt] * nv, "hard": None, "soft": [], "mask": 0, "stmt": 0}, keep=0, cost=10)
        s.query(0, 0, {"vars": [allt], "hard": None, "soft": [], "mask": 0, "stmt": 0}, keep=0, seed=r.randrange(1, 99))
        scns.append(s)
    # two results which agree in everything but one position of the key
    for i in range(10 if tier == "quick" else 60):
        s = Scenario("near duplicates %d" % i)
        t = Trace()
        t.names = [b"n%d" % k for k in range(300)] + [b"t"]
        t.types = [(300, U, 2), (300, S, 2), (300, U, 2)] * 90
        for _ in range(30):
            n, ty = r.choice([0, 1, 255, 256, 257]), r.choice([0, 1, 2, 255, 256, 258])
            t.points.append([("S", r.choice([1, 2, 1 << 32, (1 << 32) + 1, 1 << 63])), ("V", n, ty, le(r.randrange(3), 2)),
                             ("V", ty, n % 270, le(5, 2))])
        s.db(0)
        s.add(0, s.file(t.encode()))
        allt = list(range(270))
        s.query(0, 0, {"vars": [allt], "hard": None, "soft": [], "mask": 0, "stmt": 0}, keep=0, cost=60)
        s.query(0, 0, {"vars": [allt, allt], "hard": None, "soft": [], "mask": 0, "stmt": 0}, keep=0, cost=120)
        s.query(0, 0, {"vars": [], "hard": None, "soft": [], "mask": 0, "stmt": 0}, keep=0)
        scns.append(s)
    # thousands of classes, each more than once
    s = Scenario("many classes")
    n = 1500 if tier == "quick" else 5000
    t = Trace()
    t.names = [b"x", b"y", b"t"]
    t.types = [(2, U, 1), (2, S, 1)]
    keys = [(a, b, c) for a in range(n // 4 + 1) for b in range(2) for c in range(2)]
    for _ in range(2):
        r.shuffle(keys)
        t.points += [[("S", a), ("V", b, c, le(a & 0xff, 1))] for a, b, c in keys]
    s.db(0)
    s.add(0, s.file(t.encode()))
    s.query(0, 0, {"vars": [[0, 1]], "hard": None, "soft": [], "mask": 0, "stmt": 0}, keep=0, cost=2000)
    scns.append(s)
    # several bound variables, which differ in one of them only
    for i in range(16 if tier == "quick" else 150):
        s = Scenario("bindings %d" % i)
        nv = r.choice([3, 3, 4, 5])
        t = Trace()
        t.names = [b"x", b"y", b"t"]
        t.types = [(2, U, 2), (2, S, 2), (2, U, 2)]
        base = [("V", 0, 0, le(k, 2)) for k in range(nv)]
        for _ in range(14):
            es = list(base)
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                k = r.randrange(nv)
                v = es[k]
                es[k] = r.choice([("V", 1, v[2], v[3]), ("V", v[1], r.randrange(3), v[3]), v[:3] + (le(9, 2),)])
            t.points.append([("S", r.choice([1, 1, 1, 2]))] + es)
        s.db(0)
        s.add(0, s.file(t.encode()))
        # bind each variable in its place, where the values allow it
        q = {"vars": [[0, 1, 2]] * nv, "hard": ["and"] + [["=", ["value", k], ["u", k]] for k in range(nv)],
             "soft": [], "mask": 0, "stmt": 0}
        s.query(0, 0, q, keep=0, cost=60)
        s.query(0, 0, q, keep=1, cost=60)
        if nv == 3:
            s.query(0, 0, dict(q, hard=["and", ["<", ["value", 0], ["value", 1]], ["<", ["value", 1], ["value", 2]]]), keep=0, cost=60)
        scns.append(s)
    core.conformance(exe, scns, res, "C10")


@check("C11")
def c11(res, tier, seed):
    exe, = together(res, [DRIVER], QMODELS)
    r = rng(seed, "C11")
    scns = []
    for i in range(60 if tier == "quick" else 900):
        s = Scenario("seeded %d" % i)
        t = small_trace(r, r.randrange(0, 9), 3)
        s.db(0)
        s.db(1)
        f = s.file(t.encode())
        s.add(0, f)
        s.add(1, s.file(small_trace(r, 2).encode()))
        s.add(1, f)
        qs = [gen.rquery(r, t, nv=r.choice([0, 1, 1, 2]), soft=r.choice([0, 0, 2]), depth=1) for _ in range(2)]
        qs.append({"vars": [], "hard": None, "soft": [], "mask": 0, "stmt": 0})
        for q in qs:
            for sd in [1, 2, 0xffffffff, 0x80000000, r.getrandbits(32) or 1]:
                k = r.choice([0, 1])
                s.query(0, 0, q, seed=sd, keep=k, memo=True)
                s.query(1, 1, q, seed=sd, keep=k, memo=True)
            s.query(0, 0, q, seed=0)
        s.serialize(0, 0)
        s.restore(0, 2)
        for q in qs:
            for sd in [1, 2, 0xffffffff]:
                for d in (2, 0):
                    s.query(d, 0, q, seed=sd, keep=1, memo=True)
        scns.append(s)
    # every eligible point is chosen by some seed
    for i in range(12 if tier == "quick" else 60):
        s = Scenario("coverage %d" % i)
        n = [1, 2, 3, 4, 5, 6][i % 6]
        t = Trace()
        t.names = [b"x", b"t"]
        t.types = [(1, U, 4)]
        extra = [[("S", 9), ("V", 0, 0, le(999, 4))]] * (i // 6)
        t.points = extra + [[("S", 4 + (k % 2)), ("V", 0, 0, le(1000 + k, 4))] for k in range(n)] + extra
        s.db(0)
        s.add(0, s.file(t.encode()))
        q = {"vars": [[0]], "hard": None, "soft": [], "mask": 0xfe, "stmt": 4}
        for sd in range(1, 40 * n + 60):
            s.query(0, 0, q, seed=sd if sd % 3 else sd << 20, memo=True, cost=0.5)
        s.cover(0, 0, q)
        scns.append(s)
    for n, seeds in ((600, 60),) if tier == "quick" else ((600, 200), (2000, 60)):
        s = Scenario("coverage of %d points" % n)
        t = Trace()
        t.names = [b"x", b"t"]
        t.types = [(1, U, 4)]
        t.points = [[("S", k)] for k in range(n)]
        s.db(0)
        s.add(0, s.file(t.encode()))
        q = {"vars": [], "hard": None, "soft": [], "mask": 0, "stmt": 0}
        for sd in range(1, seeds):
            s.query(0, 0, q, seed=sd if sd % 3 else sd << 20, memo=True, cost=n / 20)
        for lo in range(0, n, n // 4):
            s.cover_by(0, 0, q, lo + 1, lo + n // 4)
        scns.append(s)
    core.conformance(exe, scns, res, "C11")


# ------------------------------------------------------------------ C12
@check("C12")
def c12(res, tier, seed):
    exe, = together(res, [DRIVER], [("MC_DB", "MC_DB_seq.cfg", {"workers": 4})])
    r = rng(seed, "C12")
    scns = []
    # every transition of the model with texts
    es = core.edges("MC_DB", "MC_DB_edges12.cfg", res)
    init = next(s for s, op, t in es if op == ["D", 0] and ":>" not in s)
    for i, w in enumerate(core.walks(es, init, 60, r)):
        s = Scenario("walk %d" % i)
        fs = [s.file(gen.rtrace(r, points=2, vars=2, types=3, names=[b"x", b"y"]).encode()) for _ in range(2)]
        for op in w:
            db_op(s, op, fs)
            if op[0] in ("U", "A"):
                s.dump_db(op[2] if op[0] == "U" else op[1])
            elif op[0] == "S":
                s.dump_db(op[1])
        scns.append(s)
    res.extra["transitions_replayed"] = len(es)

    def whole(s, ts):
        s.db(0)
        for t in ts:
            s.add(0, s.file(t.encode()))
        s.serialize(0, 0)
        s.restore(0, 1)
        s.dump_db(1)
        s.dump_db(0)
        s.equal_db(0, 1)
        qs = [gen.rquery(r, t, nv=r.choice([0, 1, 2]), soft=r.choice([0, 1])) for t in ts if len(t.types)]
        for k, t in enumerate(ts):
            if not t.types or len(t.points) > 100 or any(len(p) > 20 for p in t.points):
                continue
            q = gen.rquery(r, t, nv=r.choice([0, 1, 2]), soft=r.choice([0, 1]))
            for d in (0, 1):
                s.query(d, k, q, memo=True)
                s.query(d, k, q, seed=7, memo=True)
        if ts and writable(ts[-1]):
            w = s.write(("d", 1, len(ts) - 1))
            s.read(0, w)
            s.dump(0)
        # later changes of the one do not show in the other
        t = gen.rtrace(r, points=2, vars=2)
        s.add(1, s.file(t.encode()))
        s.dump_db(0)
        s.free_db(0)
        s.dump_db(1)
        s.serialize(1, 1)
        s.restore(1, 2)
        s.restore(0, 0)
        s.dump_db(2)
        s.dump_db(0)
        s.free_db(1)
        s.equal_db(0, 2)
        s.dump_db(2)
    for i in range(60 if tier == "quick" else 1000):
        s = Scenario("database %d" % i)
        whole(s, [gen.rtrace(r, points=r.randrange(0, 6), vars=4, events=r.choice([0, 0.5]))
                  for _ in range(r.randrange(0, 4))])
        if i % 4 == 0:
            s.db(5)
            rpoints(r, s, 5)
            s.serialize(5, 5)
            s.restore(5, 6)
            s.dump_db(6)
            s.equal_db(5, 6)
        scns.append(s)
    for i in range(10 if tier == "quick" else 150):
        s = Scenario("siblings %d" % i)
        t = small_trace(r, r.randrange(1, 4), 4)
        whole(s, [t] + [gen.retyped(r, t) for _ in range(2)])
        scns.append(s)
    for name, t in special_traces(r, tier):
        s = Scenario("special: " + name)
        if len(t.points) > 300:
            t.points = t.points[:300]
        whole(s, [t])
        scns.append(s)
    # traces made of objects
    for i in range(20 if tier == "quick" else 300):
        s = Scenario("objects %d" % i)
        s.db(0)
        for k in range(r.randrange(1, 4)):
            s.build(k, gen.contents(gen.rtrace(r, points=r.randrange(0, 5), vars=4), r if k else None))
            s.add_object(0, k)
        s.copy_db(0, 3)
        s.serialize(0, 0)
        s.serialize(3, 1)
        s.free_db(0)
        for x, d in ((0, 1), (1, 2)):
            s.restore(x, d)
            s.dump_db(d)
            s.equal_db(d, 3)
        scns.append(s)
    core.conformance(exe, scns, res, "C12")


def db_op(s, op, fs):
    if op[0] == "D":
        s.db(op[1])
    elif op[0] == "XD":
        s.free_db(op[1])
    elif op[0] == "A":
        s.add(op[1], fs[op[2]])
    elif op[0] == "AM":
        s.add_missing(op[1])
    elif op[0] == "R":
        s.read(op[1], fs[op[2]])
    elif op[0] == "X":
        s.free(op[1])
    elif op[0] == "S":
        s.serialize(op[1], op[2])
    elif op[0] == "U":
        s.restore(op[1], op[2])


# ------------------------------------------------------------------ C14
@check("C14")
def c14(res, tier, seed):
    exe, = together(res, [DRIVER], [("MC_DB", "MC_DB_seq.cfg", {"workers": 4})])
    r = rng(seed, "C14")
    scns = []
    es = core.edges("MC_DB", "MC_DB_edges14.cfg", res)
    init = next(s for s, op, t in es if op == ["D", 0] and ":>" not in s)
    for i, w in enumerate(core.walks(es, init, 50, r)):
        s = Scenario("walk %d" % i)
        ts = [gen.rtrace(r, points=2, vars=2, types=3, names=[b"x", b"y"]) for _ in range(2)]
        fs = {0: s.file(ts[0].encode()), 1: s.file(ts[1].encode())}
        fs[3] = s.file(r.choice([ts[0].encode() + b"\x07", ts[1].encode()[:-3] + b"\2\2", b"", b"\1", ts[0].encode()[:13]]))
        live = set()
        for op in w:
            if op[0] == "A" and op[2] == 2:
                rpoints(r, s, op[1])
            else:
                db_op(s, op, fs)
            if op[0] == "D":
                live.add(op[1])
            elif op[0] == "XD":
                live.discard(op[1])
            for d in sorted(live):
                s.dump_db(d)
        scns.append(s)
    res.extra["transitions_replayed"] = len(es)
    # longer histories: many traces, failures in between
    for i in range(25 if tier == "quick" else 300):
        s = Scenario("long %d" % i)
        fs = [s.file(gen.rtrace(r, points=r.randrange(0, 4), vars=2, types=3).encode()) for _ in range(4)]
        bad = [s.file(b) for b in (b"", b"\5", s.files[0] + b"\xff", s.files[1][:9])]
        s.db(0)
        s.db(1)
        for k in range(30):
            d = r.randrange(2)
            x = r.random()
            if x < 0.5:
                s.add(d, r.choice(fs), max=r.choice([0, 0, 1]))
            elif x < 0.65:
                s.add(d, r.choice(bad))
            elif x < 0.75:
                s.add_missing(d, r.choice([0, 1]))
            elif x < 0.9:
                rpoints(r, s, d)
            else:
                s.count(d)
            if k % 10 == 9:
                s.dump_db(0)
                s.dump_db(1)
        s.free_db(0)
        s.dump_db(1)
        scns.append(s)
    for i in range(30 if tier == "quick" else 400):
        s = Scenario("points %d" % i)
        s.db(0)
        for _ in range(3):
            rpoints(r, s, 0)
        s.dump_db(0)
        scns.append(s)
    for i in range(12 if tier == "quick" else 150):
        s = Scenario("siblings %d" % i)
        t = small_trace(r, r.randrange(1, 5), 4)
        s.db(0)
        s.db(1)
        for k, u in enumerate([t] + [gen.retyped(r, t) for _ in range(5)]):
            s.add(k % 2, s.file(u.encode()))
            s.dump_db(0)
            s.dump_db(1)
        s.free_db(0)
        s.dump_db(1)
        scns.append(s)
    # many traces in one database
    s = Scenario("many traces")
    s.db(0)
    fs = [s.file(gen.rtrace(r, points=1, vars=1, types=2).encode()) for _ in range(5)]
    for k in range(300 if tier == "quick" else 3000):
        s.add(0, r.choice(fs))
        if k in (254, 255, 256, 257):
            s.count(0)
    s.dump_db(0)
    for k in (0, 1, 255, 256, 299):
        s.dump_idx(0, k)
    scns.append(s)
    # traces and databases made of objects: additions and copies are independent of each other
    for i in range(25 if tier == "quick" else 300):
        s = Scenario("objects %d" % i)
        s.db(0)
        for k in range(3):
            t = gen.rtrace(r, points=r.randrange(0, 4), vars=3)
            s.build(k, gen.contents(t, r if k else None))
            s.add_object(0, k)
            if k == 1:
                s.free(0)
        rpoints(r, s, 0)
        s.copy_db(0, 1)
        s.dump_db(1)
        s.add_object(1, 2)
        s.add(0, s.file(gen.rtrace(r, points=2, vars=2).encode()))
        s.copy(5, ("d", 0, 1))
        s.dump_db(0)
        s.dump_db(1)
        s.add_object(1, 5)
        s.free_db(0)
        s.free(5)
        s.dump_db(1)
        s.copy_db(1, 0)
        s.free_db(1)
        s.dump_db(0)
        scns.append(s)
    core.conformance(exe, scns, res, "C14")


# ------------------------------------------------------------------ C15
def variations(r, t):
    """copies of a trace changed in one place"""
    out = []

    def v(f):
        u = t.copy()
        f(u)
        out.append(u)
    k = r.randrange(len(t.points))

    def setp(u, es):
        u.points[k] = es
    p = t.points[k]
    st = [i for i, e in enumerate(p) if e[0] == "S"]
    if st:
        v(lambda u: setp(u, p[:st[-1]] + [("S", p[st[-1]][1] ^ r.choice([1, 1 << 32, 1 << 63]))] + p[st[-1] + 1:]))
    else:
        v(lambda u: setp(u, [("S", 5)] + p))
    v(lambda u: setp(u, p + [("X", 5)]))
    v(lambda u: setp(u, [e for e in p if e[0] != "X"]))
    v(lambda u: setp(u, p + [("B", 0x9000, 5)]))
    v(lambda u: setp(u, [("B", 0x9000, 6)] + p))
    v(lambda u: u.points.append([]))
    v(lambda u: u.points.insert(0, []))
    v(lambda u: u.points.pop())
    v(lambda u: u.points.reverse())
    v(lambda u: u.names.append(b"more"))
    v(lambda u: u.names.__setitem__(0, u.names[0] + b"'"))
    v(lambda u: u.types.append((0, U, 4)))
    v(lambda u: u.types.append((0, U, 8)))
    v(lambda u: u.types.append((0, S, 8)))
    v(lambda u: u.types.append((len(u.names) - 1, S, 8)))
    for i, e in enumerate(p):
        if e[0] == "V":
            ty = t.types[e[2]]
            if e[3]:
                j = r.randrange(len(e[3]))
                nb = e[3][:j] + bytes([e[3][j] ^ r.choice([1, 128])]) + e[3][j + 1:]
                if nb != b"\xff" * 8:
                    v(lambda u: setp(u, p[:i] + [e[:3] + (nb,)] + p[i + 1:]))
            if ty[1] == B and ty[2] == 0:
                v(lambda u: setp(u, p[:i] + [e[:3] + (e[3] + b"\0",)] + p[i + 1:]))
                v(lambda u: setp(u, p[:i] + [e[:3] + (e[3][:-1],)] + p[i + 1:]))
            v(lambda u: setp(u, p[:i] + [("V", (e[1] + 1) % len(t.names)) + e[2:]] + p[i + 1:]))
            for t2 in range(len(t.types)):
                if t2 != e[2] and t.types[t2][2] == ty[2] and (t.types[t2][1] == B) == (ty[1] == B):
                    v(lambda u: setp(u, p[:i] + [("V", e[1], t2, e[3])] + p[i + 1:]))
                    break
            v(lambda u: setp(u, p[:i] + p[i + 1:]))
            v(lambda u: setp(u, p[:i] + [e] + p[i:]))
        elif e[0] == "X":
            v(lambda u: setp(u, p[:i] + [("X", e[1] ^ (1 << r.randrange(64)))] + p[i + 1:]))
        elif e[0] == "B":
            v(lambda u: setp(u, p[:i] + [("B", e[1], e[2] + 1)] + p[i + 1:]))
            v(lambda u: setp(u, p[:i] + [("B", e[1] ^ 8, e[2])] + p[i + 1:]))
    if len(p) >= 2:
        v(lambda u: setp(u, [p[-1]] + p[1:-1] + [p[0]]))
    return out


LONG = [31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 513]


def long_trace(r, i):
    """a trace with one thing that is long: blobs, points, variables, auxiliary
    values, names or types"""
    n = r.choice(LONG)
    t = Trace()
    t.names = [b"x", b"y", b"int", b"blob"]
    t.types = [(2, S, 8), (3, B, 0), (2, U, 4)]
    e8 = lambda: ("V", r.randrange(2), 0, gen.rbytes(r, 8)[:7] + b"\1")
    kind = i % 6
    if kind == 0:
        t.points = [[("S", 1), ("V", 0, 1, gen.rbytes(r, n)), ("V", 1, 1, gen.rbytes(r, r.choice(LONG)))],
                    [("S", 2), e8()]]
    elif kind == 1:
        t.points = [[("S", k % 5), e8()] for k in range(n)]
    elif kind == 2:
        t.points = [[("S", 1)] + [e8() for _ in range(n)]]
    elif kind == 3:
        t.points = [[("S", 1)] + [("X", r.randrange(1 << 20)) for _ in range(n)] + [e8()]]
    elif kind == 4:
        t.names += [b"n%d" % k for k in range(n)]
        t.points = [[("S", 1), ("V", len(t.names) - 1, 0, b"\1" * 8), e8()]]
    else:
        t.types += [(r.randrange(4), r.choice([S, U, P]), r.choice([1, 2, 4, 8])) for k in range(n)]
        ty = len(t.types) - 1
        t.points = [[("S", 1), ("V", 0, ty, b"\1" * t.types[ty][2]), e8()]]
    return t


def late_changes(r, t):
    out = []

    def v(f):
        u = t.copy()
        f(u)
        out.append(u)

    def entry(u, p, k):
        e = u.points[p][k]
        if e[0] == "V":
            j = r.choice([len(e[3]) - 1, len(e[3]) - 1, r.randrange(len(e[3])), 0])
            e = e[:3] + (e[3][:j] + bytes([e[3][j] ^ 1]) + e[3][j + 1:],)
        else:
            e = (e[0], e[1] ^ 1)
        u.points[p] = u.points[p][:k] + [e] + u.points[p][k + 1:]
    v(lambda u: entry(u, -1, len(u.points[-1]) - 1))
    v(lambda u: entry(u, 0, 1))
    for _ in range(2):
        p = r.randrange(len(t.points))
        v(lambda u: entry(u, p, r.randrange(len(t.points[p]))))
    p = t.points[-1]
    if len(p) > 2:
        v(lambda u: entry(u, -1, len(p) - 2))
        v(lambda u: u.points[-1].pop())
    if len(t.points) > 1:
        v(lambda u: u.points.pop())
        v(lambda u: u.points.append(u.points[-1]))
    v(lambda u: u.names.__setitem__(len(u.names) - 1, b"other"))
    n, f, w = t.types[-1]
    v(lambda u: u.types.__setitem__(len(u.types) - 1, ((n + 1) % 4, f, w)))
    return out


@check("C15")
def c15(res, tier, seed):
    exe, = together(res, [DRIVER], [("MC_Format", "MC_Points_quick.cfg", {"workers": 4})])
    r = rng(seed, "C15")
    scns = []
    for i in range(70 if tier == "quick" else 1000):
        s = Scenario("equality %d" % i)
        if i % 3 == 0:
            t = small_trace(r, r.randrange(1, 5), 4)
        else:
            t = gen.rtrace(r, points=r.randrange(1, 5), vars=4, events=0.4)
        vs = variations(r, t)
        if tier == "quick":
            vs = r.sample(vs, min(len(vs), 16))
        f = s.file(t.encode())
        s.read(0, f)
        s.db(0)
        s.add(0, f)
        s.equal(("t", 0), ("d", 0, 0))
        s.equal_points(("t", 0), ("t", 0))
        for k, u in enumerate(vs):
            g = s.file(u.encode())
            s.read(k + 1, g)
            s.equal(("t", 0), ("t", k + 1))
            s.equal(("t", k + 1), ("d", 0, 0))
            s.equal_points(("t", 0), ("t", k + 1))
            if r.random() < 0.3:
                s.db(1)
                s.add(1, g)
                s.equal_db(0, 1)
                s.equal_db(1, 1)
                s.free_db(1)
        for _ in range(6):
            a, b = r.randrange(len(vs) + 1), r.randrange(len(vs) + 1)
            s.equal(("t", a), ("t", b))
            s.equal_points(("t", a), ("t", b))
        # the same contents made in another way
        s.serialize(0, 0)
        s.restore(0, 2)
        s.equal(("d", 2, 0), ("t", 0))
        s.equal_db(0, 2)
        s.add(2, s.file(vs[0].encode()))
        s.equal_db(0, 2)
        s.query(0, 0, {"vars": [[0]], "hard": None, "soft": [], "mask": 1, "stmt": 1})
        s.equal(("d", 0, 0), ("t", 0))
        s.free(0)
        s.read(0, f)
        s.equal(("d", 0, 0), ("t", 0))
        if writable(t):
            w = s.write(("t", 0))
            s.read(99, w)
            s.equal(("t", 0), ("t", 99))
            s.equal_points(("t", 0), ("t", 99))
        # points at different positions never are equal
        s.add(0, f)
        s.add(2, f)
        s.equal_db(0, 2)
        scns.append(s)
    # the same indices and values, other types
    for i in range(15 if tier == "quick" else 200):
        s = Scenario("siblings %d" % i)
        t = small_trace(r, r.randrange(1, 4), 4)
        us = [t] + [gen.retyped(r, t) for _ in range(5)]
        for k, u in enumerate(us):
            s.read(k, s.file(u.encode()))
        for a in range(len(us)):
            for b in range(a):
                s.equal(("t", a), ("t", b))
                s.equal_points(("t", a), ("t", b))
        scns.append(s)
    # long contents made twice, and changed in one late place
    for i in range(24 if tier == "quick" else 300):
        s = Scenario("long contents %d" % i)
        t = long_trace(r, i)
        s.read(0, s.file(t.encode()))
        s.read(1, s.file(t.encode()))
        s.equal(("t", 0), ("t", 1))
        pts = len(t.points) <= 6
        if pts:
            s.equal_points(("t", 0), ("t", 1))
        for k, u in enumerate(late_changes(r, t)):
            s.read(2 + k, s.file(u.encode()))
            s.equal(("t", 0), ("t", 2 + k))
            if pts:
                s.equal_points(("t", 0), ("t", 2 + k))
        s.db(0)
        s.add(0, 0)
        s.serialize(0, 0)
        s.restore(0, 1)
        s.equal_db(0, 1)
        s.equal(("d", 1, 0), ("t", 0))
        scns.append(s)
    for i in range(20 if tier == "quick" else 200):
        s = Scenario("in-memory %d" % i)
        st = r.getstate()
        s.db(0)
        rpoints(r, s, 0)
        end = r.getstate()
        r.setstate(st)
        s.db(1)
        rpoints(r, s, 1)
        r.setstate(end)
        s.equal_db(0, 1)
        s.equal(("d", 0, 0), ("d", 1, 0))
        s.equal_points(("d", 0, 0), ("d", 1, 0))
        rpoints(r, s, 1)
        s.equal_db(0, 1)
        s.equal(("d", 0, 0), ("d", 1, 1))
        s.equal_points(("d", 0, 0), ("d", 1, 1))
        scns.append(s)
    # the same contents from a file and from objects
    for i in range(30 if tier == "quick" else 400):
        s = Scenario("objects %d" % i)
        t = small_trace(r, r.randrange(1, 5), 4) if i % 2 else gen.rtrace(r, points=r.randrange(1, 5), vars=4)
        us = [t] + r.sample(variations(r, t), 3) + [gen.retyped(r, t)]
        for k, u in enumerate(us):
            s.read(k, s.file(u.encode()))
            s.build(10 + k, gen.contents(u, r if k == 2 else None))
        s.copy(20, ("t", 0))
        s.copy(21, ("t", 10))
        hs = list(range(len(us))) + [10 + k for k in range(len(us))] + [20, 21]
        for a in hs:
            b = r.choice(hs)
            for x, y in ((a, a % 10 + 10), (a, b)):
                s.equal(("t", x), ("t", y))
                s.equal_points(("t", x), ("t", y))
        s.db(0)
        s.db(1)
        for k in range(len(us)):
            s.add_object(0, k)
            s.add_object(1, 10 + k if k != 3 else 3)
            s.equal_db(0, 1)
        s.copy_db(0, 2)
        s.equal_db(0, 2)
        s.add_object(2, 0)
        s.equal_db(0, 2)
        scns.append(s)
    # bits which do not belong to the value (objects only; nothing but comparisons)
    for i in range(15 if tier == "quick" else 200):
        s = Scenario("unused bits %d" % i)
        t = small_trace(r, r.randrange(1, 4), 4) if i % 2 else gen.rtrace(r, points=r.randrange(1, 4), vars=4, widths="std")
        u = r.choice(variations(r, t))
        for k, x in enumerate((t, u)):
            s.read(k, s.file(x.encode()))
            for j in range(3):
                s.build(10 * j + 10 + k, gen.contents(x), r)
        hs = [0, 1, 10, 11, 20, 21, 30, 31]
        for a in hs:
            for b in r.sample(hs, 4):
                s.equal(("t", a), ("t", b))
                s.equal_points(("t", a), ("t", b))
        scns.append(s)
    core.conformance(exe, scns, res, "C15")


# ------------------------------------------------------------------ C19
def blob_traces(r):
    """two traces which share some of their contents, and one which is rejected half-way"""
    t = gen.rtrace(r, points=3, vars=3, types=4, names=[b"x", b"blob", b"p"])
    n = len(t.types)
    t.types += [(1, B, 0), (1, B, 24)]
    shared = gen.rbytes(r, r.choice([1, 8, 16, 33, 200]))
    a, b = t.copy(), t.copy()
    a.points.append([("S", 5), ("V", 0, n, shared), ("X", 3)])
    for k in (0, 1, 40):
        b.points.append([("S", 6 + k), ("V", 1, n, gen.rbytes(r, k)), ("V", 0, n, shared), ("V", 2, n + 1, gen.rbytes(r, 24)), ("X", 7)])
    bad = b.encode() + b"\2" + le(0, 4) + le(n, 4) + le(9, 4) + b"short"
    return a, b, bad[:-2] if r.random() < 0.5 else b.encode() + b"\7"


@check("C19")
def c19(res, tier, seed):
    exe, = together(res, [DRIVER], [("Own", "Own.cfg", {"workers": 4})])
    r = rng(seed, "C19")
    scns = []
    es = core.edges("Own", "Own_edges.cfg", res)
    init = next(s for s, op, t in es if op[0] == "R" and ":>" not in s)
    res.extra["transitions_replayed"] = len(es)
    # every transition of the model: as stand-alone traces and points, as databases and query results
    for way in (0, 1):
        for i, w in enumerate(core.walks(es, init, 60, r)):
            s = Scenario("lifetimes %d/%d" % (way, i))
            a, b, bad = blob_traces(r)
            f = {0: s.file(bad), 1: s.file(a.encode()), 2: s.file(b.encode())}
            of = {1: a, 2: b}
            live = {}
            for op in w:
                if op[0] == "R":
                    if way == 0:
                        s.read(op[1], f[op[2]])
                    else:
                        s.db(op[1])
                        s.add(op[1], f[op[2]])
                        if op[2] == 0:
                            s.free_db(op[1])
                    if op[2]:
                        live[op[1]] = op[2]
                elif op[0] == "TK":
                    live[op[1]] = live[op[2]]
                    if way == 0:
                        s.copy(op[1], ("t", op[2]))
                    elif r.random() < 0.5:
                        s.copy_db(op[2], op[1])
                    else:
                        s.serialize(op[2], 0)
                        s.restore(0, op[1])
                elif op[0] == "X":
                    live.pop(op[1])
                    s.free(op[1]) if way == 0 else s.free_db(op[1])
                elif op[0] == "HP":
                    if way == 0:
                        s.hold(op[1], ("t", op[2]))
                    elif r.random() < 0.4:
                        s.hold(op[1], ("d", op[2], 0))
                    else:
                        t = of[live[op[2]]]
                        nt = len(t.types)
                        q = gen.rquery(r, t, nv=1, soft=0) if r.random() < 0.3 else \
                            {"vars": [list(range(nt))] * r.choice([1, 1, 2]), "hard": None, "soft": [], "mask": 0, "stmt": 0}
                        s.query(op[2], 0, q, keep=r.choice([0, 1, 1]), hold=op[1])
                elif op[0] == "HD":
                    s.look(op[1], op[2])
                else:
                    s.give_back(op[1])
                if op[0] in ("X", "HX", "R"):
                    for h in sorted(live):
                        s.dump(h) if way == 0 else s.dump_db(h)
            scns.append(s)
    # results while databases and traces come and go
    for i in range(30 if tier == "quick" else 500):
        s = Scenario("held %d" % i)
        ts = [gen.rtrace(r, points=r.randrange(1, 5), vars=3) for _ in range(2)] + list(blob_traces(r)[:2])
        fs = [s.file(t.encode()) for t in ts]
        dbs, solos, helds = {}, {}, {}
        for k in range(60):
            x = r.random()
            if x < 0.1 and len(dbs) < 3:
                d = next(d for d in range(3) if d not in dbs)
                s.db(d)
                dbs[d] = []
            elif x < 0.3 and dbs:
                d = r.choice(sorted(dbs))
                j = r.randrange(4)
                if r.random() < 0.15:
                    s.add(d, fs[j], cut=r.randrange(len(s.files[fs[j]]) // 2))
                    s.count(d)
                    dbs[d] = None
                else:
                    s.add(d, fs[j])
                    if dbs[d] is not None:
                        dbs[d].append(j)
            elif x < 0.36 and len(solos) < 3:
                h = next(h for h in range(3) if h not in solos)
                j = r.randrange(4)
                s.read(h, fs[j])
                solos[h] = j
            elif x < 0.55 and len(helds) < 5:
                k2 = next(h for h in range(5) if h not in helds)
                if solos and r.random() < 0.3:
                    h = r.choice(sorted(solos))
                    s.hold(k2, ("t", h))
                    helds[k2] = ("t", h)
                else:
                    c = [d for d in sorted(dbs) if dbs[d]]
                    if c:
                        d = r.choice(c)
                        n = r.randrange(len(dbs[d]))
                        if r.random() < 0.3:
                            s.hold(k2, ("d", d, n))
                        else:
                            s.query(d, n, gen.rquery(r, ts[dbs[d][n]], soft=r.choice([0, 0, 1]), depth=1), seed=r.choice([0, 0, 5]),
                                    keep=r.choice([0, 1]), hold=k2)
                        helds[k2] = ("d", d)
            elif x < 0.8 and helds:
                k2 = r.choice(sorted(helds))
                s.look(k2, helds[k2] is not None)
            elif x < 0.87 and helds:
                k2 = r.choice(sorted(helds))
                s.give_back(k2)
                helds.pop(k2)
            elif x < 0.93 and dbs:
                d = r.choice(sorted(dbs))
                if r.random() < 0.5:
                    s.serialize(d, 0)
                else:
                    s.free_db(d)
                    dbs.pop(d)
                    helds = {a: None if b == ("d", d) else b for a, b in helds.items()}
            elif solos:
                h = r.choice(sorted(solos))
                s.free(h)
                solos.pop(h)
                helds = {a: None if b == ("t", h) else b for a, b in helds.items()}
        for k2 in sorted(helds):
            s.look(k2, helds[k2] is not None)
            s.give_back(k2)
            for d in sorted(dbs):
                s.dump_db(d)
        scns.append(s)
    core.conformance(exe, scns, res, "C19")


# ------------------------------------------------------------------ C20
@check("C20")
def c20(res, tier, seed):
    exe, = together(res, [DRIVER], [("Own", "Own.cfg", {"workers": 4})])
    r = rng(seed, "C20")
    scns = []
    ROUNDS, OVER = 7, 5

    def again(name, setup, work):
        """the same work again and again: everything is released each time"""
        s = Scenario(name)
        x = setup(s)
        seed2 = r.random()
        for _ in range(ROUNDS):
            work(s, x, random.Random(seed2))
            s.mark()
        s.bound(OVER)
        scns.append(s)
    few = 3 if tier == "quick" else 40

    def traces(n=2):
        ts = list(blob_traces(r)[:2])
        return ts[:n] + [gen.rtrace(r, points=4, vars=4) for _ in range(n - len(ts))]
    for i in range(few):
        ts = traces(3)

        def files(s):
            return [s.file(t.encode()) for t in ts]

        def reading(s, fs, q):
            for h, f in enumerate(fs):
                s.read(h, f)
                s.dump(h)
                s.copy(h + 5, ("t", h))
            for h in range(len(fs)):
                s.free(h)
                s.free(h + 5)
        again("reading %d" % i, files, reading)

        def reading_part(s, fs, q):
            for h, f in enumerate(fs):
                s.read(h, f, max=1)
                s.read_chunks(h + 5, f, 1)
                s.free(h)
                s.free(h + 5)
        again("reading parts %d" % i, files, reading_part)

        def adding(s, fs, q):
            s.db(0)
            for f in fs:
                s.add(0, f)
            s.copy_db(0, 1)
            s.dump_idx(1, 0)
            s.free_db(0)
            s.free_db(1)
        again("adding %d" % i, files, adding)

        def objects(s, fs, q):
            for h, t in enumerate(ts):
                s.build(h, gen.contents(t))
            s.db(0)
            for h in range(len(ts)):
                s.add_object(0, h)
                s.free(h)
            s.free_db(0)
        again("objects %d" % i, files, objects)

        def saving(s, fs, q):
            s.db(0)
            for f in fs:
                s.add(0, f)
            s.serialize(0, 0)
            s.free_db(0)
            s.restore(0, 1)
            s.count(1)
            s.free_db(1)
        again("saving %d" % i, files, saving)

        def querying(s, fs, q):
            s.db(0)
            for f in fs:
                s.add(0, f)
            for k, t in enumerate(ts):
                for j in range(3):
                    s.query(0, k, gen.rquery(q, t, soft=j, depth=1), seed=q.choice([0, 0, 3]), keep=j % 2)
            s.query(0, 0, {"vars": [], "hard": None, "soft": [], "mask": 0, "stmt": 0}, keep=0)
            s.query(0, 0, {"vars": [], "hard": None, "soft": [], "mask": 1, "stmt": 2})
            s.free_db(0)

        def calculating(s, fs, q):
            s.db(0)
            s.add(0, fs[2])
            nt = len(ts[2].types)
            v = [list(range(nt))] * 2
            for k in range(6):
                e = [q.choice("+-*/"), [q.choice("+-*/"), ["value", 0], ["size", 1]], [q.choice("+-*/"), ["u", q.choice([1, gen.M64, 7])], ["f", gen.d2w(q.choice([0.1, 1e18, -3.5]))]]]
                h = [q.choice(["<", ">=", "="]), e, q.choice([["value", 1], ["s", gen.M64], ["f", gen.d2w(float("nan"))], ["f", gen.d2w(float("inf"))]])]
                s.query(0, 0, {"vars": v, "hard": ["not", h] if k % 2 else ["and", h, ["distinct", 0, 1]], "soft": [["or", h], ["not", ["not", h]]],
                               "mask": 0, "stmt": 0})
                # what it answers is another property's
                s.ops[-1] = (s.ops[-1][0], None)
            s.free_db(0)
        again("calculating %d" % i, files, calculating)
        again("querying %d" % i, files, querying)

        def holding(s, fs, q):
            for h, f in enumerate(fs):
                s.read(h, f)
                s.hold(h, ("t", h))
                s.hold(h + 5, ("t", h))
            for h in range(len(fs)):
                s.give_back(h + 5)
                s.free(h)
                s.give_back(h)
        again("holding %d" % i, files, holding)

        def points(s, fs, q):
            s.db(0)
            for k in range(3):
                rpoints(q, s, 0)
            s.free_db(0)
        again("points %d" % i, files, points)

        def equal(s, fs, q):
            s.read(0, fs[0])
            s.read(1, fs[1])
            s.equal(("t", 0), ("t", 1))
            s.equal_points(("t", 0), ("t", 1))
            s.free(0)
            s.free(1)
        again("comparing %d" % i, files, equal)

        def rejected_add(s, fs, q):
            s.db(0)
            for f in fs:
                n = len(s.files[f])
                for k in sorted(q.sample(range(n), min(6, n))):
                    s.add(0, f, cut=k)
            s.add_missing(0, 0)
            s.free_db(0)
        again("rejected additions %d" % i, files, rejected_add)

        def cuts(s, fs, q):
            for f in fs:
                s.cuts(f, 1 if len(s.files[f]) < 400 else 7)
        again("prefixes %d" % i, files, cuts)

        t = c03_traces(r, 1)[i % 2]
        bad = [b for w, b in corruptions(r, t) if tame(b) and w != "bytes changed"]
        bad = r.sample(bad, min(len(bad), 60))

        def bad_files(s):
            return [s.file(b) for b in bad]

        def broken(s, fs, q):
            s.db(0)
            for f in fs:
                s.add(0, f)
            s.free_db(0)
        again("corrupted %d" % i, bad_files, broken)

        def fifo(s, fs, q):
            s.db(0)
            for f in fs:
                s.add_fifo(0, f, [7, 50])
                s.read_fifo(1, f, [100])
                s.free(1)
            s.add_held(0, fs[0], 1)
            # a writer which comes and goes without a word
            e = s.file(b"")
            s.add_fifo(0, e, [1])
            s.read_fifo(1, e, [1])
            s.free_db(0)
        again("pipes %d" % i, files, fifo)
    # a long heap history: every node of the map goes with its trace
    def heap_file(s):
        t = Trace()
        t.names, t.types = [b"p", b"t"], [(1, P, 8)]
        h = gen.Heap(r, 4096)
        t.points = [[("B",) + h.event() for _ in range(8)] + [("V", 0, 0, le(h.pointer(), 8))] for _ in range(25)]
        return [s.file(t.encode())]

    def heap(s, fs, q):
        s.read(0, fs[0])
        s.free(0)
        s.db(0)
        s.add(0, fs[0])
        s.free_db(0)
    again("heap", heap_file, heap)

    def tall_file(s):
        t = Trace()
        t.names, t.types = [b"p", b"t"], [(1, P, 8)]
        t.points = [[("B", 4096 * (1 + (7 * k) % 41), 64), ("V", 0, 0, le(4096 * (1 + (7 * k) % 41), 8))] for k in range(40)]
        return [s.file(t.encode())]

    def tall(s, fs, q):
        # every node a level taller than the list, then some of one level
        s.rand_bits(([1] * 40 + [0]) * 14 + [0] * 40)
        s.read(0, fs[0])
        s.free(0)
        s.rand_bits([0, 0, 1, 0] * 3 + ([1] * 40 + [0]) * 14 + [0] * 40)
        s.db(0)
        s.add(0, fs[0])
        s.free_db(0)
    again("tall", tall_file, tall)

    def mapping(s, fs, q):
        s.map_new(0, [0] * 5 + [1] * q.choice([0, 3, 14]) + [0] * 30)
        for clear in (False, True, True):
            h = gen.Heap(q, 4096)
            for _ in range(40):
                s.map_update(0, *h.event())
            s.map_lookup(0, [h.pointer() for _ in range(5)])
            if clear:
                s.map_clear(0)
    again("map", lambda s: [], mapping)
    core.conformance(exe, scns, res, "C20")


# ------------------------------------------------------------------ C13
SCHED = ("sched", ["driver.cpp"], None, ["-DVERIF_SCHED"])
FREE = ("free", ["driver.cpp"], ["-std=c++11", "-w", "-O1", "-g1", "-fsanitize=thread", "-pthread"], ["-DVERIF_FREE"])


def tsan_works():
    """the thread sanitizer needs an address space layout it knows"""
    src = os.path.join(core.scratch(), "tsan.cpp")
    with open(src, "w") as f:
        f.write("#include <thread>\nint main() { std::thread t([]{}); t.join(); return 0; }\n")
    exe = src[:-4]
    rc, _, _ = core.run(["g++", "-fsanitize=thread", "-pthread", src, "-o", exe], 60)
    if rc:
        return False
    rc, _, _ = core.run([exe], 30)
    return rc == 0


@check("C13")
def c13(res, tier, seed):
    tsan = tsan_works()
    exes = together(res, [SCHED] + ([FREE] if tsan else []),
                    [("MC_DB", "MC_DB_con.cfg", {"workers": 3}), ("MC_DB", "MC_DB_con2.cfg", {"workers": 3})])
    res.extra["thread_sanitizer"] = tsan
    r = rng(seed, "C13")
    scns = []

    def trace(big=False):
        t = gen.rtrace(r, points=r.randrange(1, 4), vars=3, types=4, names=[b"x", b"y", b"zz", b"t"][:r.randrange(1, 5)],
                       events=0.4)
        return t

    def shared_files(s, n):
        """files whose points, variables and blobs partly agree"""
        base = trace()
        out = [s.file(base.encode())]
        for k in range(n - 1):
            if r.random() < 0.5:
                t = base.copy()
                if t.points:
                    t.points = [t.points[r.randrange(len(t.points))] for _ in range(r.randrange(1, 4))]
                    t.points[0] = t.points[0] + [("X", r.getrandbits(40))]
            else:
                t = trace()
            out.append(s.file(t.encode()))
        return out

    def bad(s, f):
        b = s.files[f]
        return s.file(r.choice([b + b"\x07", b[:len(b) - 1], b[:10], b"", b"\1\2", b + b"\2\xff\xff\xff\xff" + bytes(4)]))
    # behaviours of the model
    hs = core.histories("MC_DB", "MC_DB_conhist.cfg", 400 if tier == "quick" else 4000, 9, seed, res) + \
        core.histories("MC_DB", "MC_DB_conhist2.cfg", 500 if tier == "quick" else 8000, 12, seed + 1, res)
    for i in range(0, len(hs), 12):
        s = Scenario("behaviours %d" % i)
        fs = shared_files(s, 5)
        bads = [bad(s, f) for f in fs[:2]]
        for h in hs[i:i + 12]:
            nt = 1 + max(op[1] for op in h)
            ops, cmd, k = [], [], 0
            for op in h:
                if op[0] == "AB":
                    f = r.choice(bads) if op[3] == 3 else fs[k % len(fs)]
                    k += 1
                    ops.append((op[1], op[2], f, r.choice([3, 8, 64, 4096]), r.choice([0, 0, 0, 1])))
                cmd.append("%s %d" % ({"AB": "B", "AC": "C", "AE": "E"}[op[0]], op[1]))
            s.concurrent(nt, ops, "HIST %d %s" % (len(cmd), " ".join(cmd)), 3)
        scns.append(s)
    res.extra["model_behaviours_enforced"] = len(hs)
    # one forced switch at every step, a second one at random
    for i in range(6 if tier == "quick" else 60):
        s = Scenario("sweep %d" % i)
        fs = shared_files(s, 4)
        b = bad(s, fs[0])
        nt = 2 + i % 2
        ops = [(t, r.choice([0, 0, 0, 1]), r.choice(fs + [b]), r.choice([5, 16, 64]), 0)
               for t in range(nt) for _ in range(r.choice([1, 2]))]
        s.concurrent(nt, ops, "SWEEP 1 %d %d" % (1 if tier == "quick" else 4, r.randrange(1, 999)), 40)
        scns.append(s)
    # random switches
    for i in range(24 if tier == "quick" else 200):
        s = Scenario("random %d" % i)
        fs = shared_files(s, 5)
        b = bad(s, fs[0])
        nt = r.choice([2, 3, 4])
        ops = [(t, r.choice([0, 0, 0, 1]), r.choice(fs + fs + [b]), r.choice([2, 8, 64]), r.choice([0, 0, 0, 1, 2]))
               for t in range(nt) for _ in range(r.choice([1, 2, 3]))]
        n = 100 if tier == "quick" else 600
        for p in (3, 12, 40):
            s.concurrent(nt, ops, "RND %d %d %d" % (n // 2, r.randrange(1, 1 << 30), p), 30)
        scns.append(s)
    core.conformance(exes[0], scns, res, "C13", strict=False)
    if tsan and res.violation is None:
        scns = []
        for i in range(8 if tier == "quick" else 40):
            s = Scenario("free %d" % i)
            fs = shared_files(s, 5)
            b = bad(s, fs[0])
            nt = r.choice([2, 4, 6])
            ops = [(t, r.choice([0, 0, 1]), r.choice(fs + fs + [b]), 4096, 0) for t in range(nt) for _ in range(3)]
            s.concurrent(nt, ops, "FREE %d" % (6 if tier == "quick" else 20), 30)
            scns.append(s)
        core.conformance(exes[1], scns, res, "C13", strict=False, env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})


# ------------------------------------------------------------------ C21
def ids_of(r, nf=4):
    """files and statements of a small project, with the extremes"""
    fs = [0, 1, (1 << 23) - 1, 1 << 22, 0x155555, r.getrandbits(23), r.getrandbits(8)]
    cs = [0, 1, (1 << 40) - 1, 1 << 39, 1 << 32, 0x5a5a5a5a5a, r.getrandbits(40), r.getrandbits(10)]
    return r.sample(fs, nf), cs


def every_kind(t):
    """a query for each kind of predicate, and some which show their operands apart"""
    nt = len(t.types)
    a, b = ["value", 0], ["value", 1]
    n = lambda v: ["u", v]
    m = lambda v: ["s", v & gen.M64]
    fl = lambda x: ["f", gen.d2w(x)]
    one = [list(range(nt))]
    ps = [[k, a, n(v)] for k in (">", ">=", "<", "<=", "=") for v in (0, 2, 7)]
    ps += [[k, a, m(-3)] for k in (">", "<", "=")] + [[">", a, fl(1.5)], ["<=", a, fl(-0.5)], ["=", ["size", 0], n(40)],
           [">=", ["size", 0], n(8)], ["not", ["=", a, n(2)]], ["and", [">", a, n(1)], ["<", a, n(7)]],
           ["or", ["<", a, n(1)], [">", a, n(6)]], ["and"], ["or"],
           ["=", ["-", a, n(1)], n(1)], ["=", ["+", a, n(1)], n(3)], ["=", ["*", a, n(3)], n(6)], [">", ["/", a, n(2)], n(1)],
           ["<", ["-", n(1), a], m(-1)]]
    qs = [{"vars": one, "hard": p, "soft": [], "mask": 0, "stmt": 0} for p in ps]
    two = [[">", a, b], ["<", a, b], ["distinct", 0, 1], ["=", ["-", a, b], n(1)], ["=", ["/", a, b], n(2)], ["not", ["=", b, a]]]
    qs += [{"vars": one * 2, "hard": p, "soft": [], "mask": 0, "stmt": 0} for p in two]
    qs += [{"vars": one * 2, "hard": None, "soft": [p], "mask": 0, "stmt": 0} for p in two]
    return qs


@check("C21")
def c21(res, tier, seed):
    with ThreadPoolExecutor(2) as ex:
        lib = ex.submit(core.build_lib)
        together(res, [], [("MC_Ids", "MC_Ids.cfg", {"workers": 4})])
        lib = lib.result()
    lisp_file = os.path.join(core.REPO, "binary-trace-db.lisp")
    try:
        wr = os.path.join(core.REPO, "instrumentation", "c-cpp.lisp")
        wr = wr if os.path.exists(wr) else os.devnull
        res.extra["declarations_not_understood"] = ffi.declarations(open(lisp_file, errors="replace").read(),
                                                                    open(wr, errors="replace").read())[1]
        lisp_file += "," + wr
    except OSError:
        # the declarations as of the pinned commit
        lisp_file = os.devnull + "," + os.devnull
        res.extra["declarations_not_understood"] = ["all"]
    exe = [sys.executable, os.path.join(core.VERIF, "harness", "ffi_client.py"), lib, lisp_file]
    r = rng(seed, "C21")
    scns = []
    k = 1 if tier == "quick" else 12
    # traces of every kind of contents: what a Lisp program is shown of them
    for i in range(50 * k):
        s = Scenario("contents %d" % i)
        t = gen.rtrace(r, points=r.randrange(0, 6), vars=4)
        if i % 3 == 0:
            t = blob_traces(r)[i % 2]
        f = s.file(t.encode())
        s.read(0, f, cut=-1 if i % 5 else r.randrange(len(s.files[f]) + 1),
               max=r.choice([0, 0, 0, 1, 2, (1 << 32), (1 << 32) + 1, gen.M64]))
        s.dump(0)
        s.db(0)
        s.add(0, f, max=r.choice([0, 0, 0, 2, (1 << 32) + 1]), timeout=r.choice([0, 0, 5, 0x7fffffff]))
        s.add_missing(0)
        s.add(0, s.file(gen.rtrace(r, points=2).encode()))
        s.dump_db(0)
        s.dump_idx(0, 1)
        s.serialize(0, 0)
        s.restore(0, 1)
        s.free_db(0)
        s.dump_db(1)
        s.count(1)
        s.hold(0, ("d", 1, 0))
        s.hold(1, ("t", 0))
        s.free(0)
        s.look(0)
        s.look(1, False)
        s.give_back(1)
        s.look(0)
        s.give_back(0)
        scns.append(s)
    # points handed over in memory
    for i in range(25 * k):
        s = Scenario("points %d" % i)
        s.db(0)
        for _ in range(r.choice([1, 1, 2])):
            rpoints(r, s, 0)
        s.dump_db(0)
        s.serialize(0, 0)
        s.restore(0, 1)
        s.dump_db(1)
        scns.append(s)
    # queries
    for i in range(50 * k):
        s = Scenario("query %d" % i)
        t = small_trace(r, r.randrange(1, 6), 3) if i % 4 else gen.rtrace(r, points=3, vars=3, widths="std")
        s.db(0)
        if i % 3 == 0:
            s.add(0, s.file(gen.rtrace(r, points=2).encode()))
        n = 1 if i % 3 == 0 else 0
        s.add(0, s.file(t.encode()))
        qs = [gen.rquery(r, t, soft=r.choice([0, 0, 1, 2]), depth=2) for _ in range(6)]
        if i % 5 == 0:
            qs += every_kind(t)
        for q in qs:
            s.query(0, n, q, seed=r.choice([0, 0, 0, 1, r.getrandbits(32)]), keep=r.choice([0, 1, 1]))
        q = {"vars": [list(range(len(t.types)))], "hard": None, "soft": [], "mask": 0, "stmt": 0}
        for st in sorted(set(gen.stmts_of(t)))[:4]:
            for m in (gen.M64, 0xffffffff, 0xffffffff << 32, 1 << 63):
                s.query(0, n, dict(q, mask=m, stmt=st & m))
        s.query(0, n, q, hold=0)
        s.look(0)
        s.give_back(0)
        scns.append(s)
    # file and statement in one identifier
    for i in range(30 * k):
        s = Scenario("files %d" % i)
        fs, cs = ids_of(r)
        for f in fs + [None]:
            for c in r.sample(cs, 3):
                s.pack(f, c)
        t = small_trace(r, 8, 2)
        flag = 1 << 63
        for p in t.points:
            p[:] = [e for e in p if e[0] != "S"]
            x = r.random()
            p.insert(0, ("S", flag | r.choice(fs) << 40 | r.choice(cs) if x < 0.7 else
                         r.choice(cs) if x < 0.85 else (r.choice(fs) << 40 | r.choice(cs)) & (flag - 1)))
        s.db(0)
        s.add(0, s.file(t.encode()))
        s.ids(0, 0)
        for f in fs + [0, r.getrandbits(23)]:
            s.query_file(0, 0, {"vars": [], "hard": None, "soft": []}, f)
            s.query_file(0, 0, gen.rquery(r, t, nv=1, depth=1), f, seed=r.choice([0, 0, 9]), keep=r.choice([0, 1]))
        names = [b"x", b"int"]
        s.add_points(0, names, [(flag | r.choice(fs) << 40 | r.choice(cs), [], [(0, 1, r.randrange(9), 0, 0)]) for _ in range(4)])
        s.ids(0, 1)
        for f in fs:
            s.query_file(0, 1, {"vars": [[0]], "hard": None, "soft": []}, f)
        scns.append(s)
    core.conformance(exe, scns, res, "C21", env={"MALLOC_PERTURB_": "171"})
