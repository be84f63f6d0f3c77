"""Generators of inputs (trace files, queries).  They make inputs only; what the
implementation must do with them is decided by the specification."""
import random, struct

U, S, F, P, B = 0, 1, 2, 3, 4
M64 = (1 << 64) - 1
ONES = M64


def le(v, n):
    return int(v & ((1 << (8 * n)) - 1)).to_bytes(n, "little") if n else b""


class Trace:
    def __init__(self):
        self.names = []        # bytes
        self.types = []        # (name index, format, size)
        self.points = []       # lists of entries

    # entries: ("S", w) ("V", n, t, bytes) ("B", a, s) ("X", w) ("raw", bytes)
    def header(self):
        nb = b"".join(n + b"\0" for n in self.names)
        h = le(len(nb), 8) + nb + le(len(self.types), 4)
        for n, f, s in self.types:
            h += le(n, 4) + le(f, 4) + le(s, 4)
        return h

    def entry(self, e):
        if e[0] == "S":
            return b"\1" + le(e[1], 8)
        if e[0] == "X":
            return b"\4" + le(e[1], 8)
        if e[0] == "B":
            return b"\3" + le(e[1], 8) + le(e[2], 8)
        if e[0] == "V":
            r = b"\2" + le(e[1], 4) + le(e[2], 4)
            f, s = self.types[e[2]][1:]
            if f == B and s == 0:
                r += le(len(e[3]), 4)
            return r + e[3]
        return e[1]

    def encode(self):
        return self.header() + b"".join(
            b"".join(self.entry(e) for e in p) + b"\0" for p in self.points)

    def copy(self):
        t = Trace()
        t.names = list(self.names)
        t.types = list(self.types)
        t.points = [list(p) for p in self.points]
        return t


NAMES = [b"x", b"y", b"i", b"*p", b"int", b"char*", b"unsigned long", b"double", b"struct s",
         b"", b"\xc3\xa9t\xc3\xa9", b"\xff\xfe\x80", b"a b\tc\n", b"n" * 300,
         b" int", b"int ", b" ", b"\n", b"\t", b"a\n", b"7", b"7 x", b"-1", b"X", b"\r\n", b'"', b"\\", b"%s", b"\x01\x7f\x1a"]


def rbytes(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


def rint(r, n):
    """a value of n bytes, boundary values preferred"""
    if n == 0:
        return 0
    m = 1 << (8 * n)
    k = r.randrange(10)
    if k < 5:
        if n == 8 and k == 4:
            return r.choice([d2w(1.0), d2w(-2.0), d2w(3.5), d2w(-0.5)])
        return r.choice([0, 1, 2, m - 1, m // 2, m // 2 - 1, m - 2, 127 % m, 128 % m, 255 % m,
                         min(256, m - 1), 10 % m])
    if k < 8:
        return r.getrandbits(8 * n)
    return r.randrange(min(m, 7))


def rfloat(r, n):
    v = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 3.25, 1e10, -2.5, 100.125, 0.1, 1e-10,
                  float(r.randrange(-50, 50)), r.uniform(-10, 10)])
    return struct.pack("<f" if n == 4 else "<d", v)


def rword(r):
    k = r.randrange(8)
    if k < 3:
        return r.randrange(6)
    if k < 6:
        return r.choice([1 << 63, (1 << 63) | 5, 1 << 32, (1 << 32) + 1, M64, 0xff, 0x100,
                         0x123456789abcdef0, 1 << 40])
    return r.getrandbits(64)


class Heap:
    """addresses that interact"""

    def __init__(self, r, base=None):
        self.r = r
        self.base = base if base is not None else r.choice(
            [0x1000, 0x7fff00000000, 0x10, 0, (1 << 63) - 0x80, M64 - 0x2000])
        self.live = {}

    def addr(self):
        return (self.base + 8 * self.r.randrange(24)) & M64

    def event(self):
        r = self.r
        if self.live and r.random() < 0.25:
            a = r.choice(sorted(self.live))
            self.live.pop(a)
            return a, 0
        a = self.addr()
        if r.random() < 0.05:
            return a, 0
        s = r.choice([1, 4, 7, 8, 9, 16, 17, 24, 64, 200, r.randrange(1, 100),
                      (1 << 32) + 16, 1 << 31])
        if r.random() < 0.05:
            s = r.choice([1 << 63, (1 << 63) - 1, (1 << 63) + 9, M64 - 1, M64 - 7, 1 << 32, (1 << 32) - 1])
        if r.random() < 0.03:
            a = r.choice([0, 1, M64 - 64, M64 - 1, 1 << 63, 1 << 32])
            s = r.choice([1, 8, 64, 63])
        if a == ONES:
            a -= 1
        self.live[a] = s
        return a, s

    def pointer(self):
        r = self.r
        k = r.randrange(10)
        if k < 6 and self.live:
            a = r.choice(sorted(self.live))
            s = self.live[a]
            p = a + r.choice([0, 0, s, s + 1, s - 1, s // 2, -1, 1])
        elif k < 9:
            p = self.addr() + r.randrange(-2, 10)
        else:
            p = r.choice([0, 1, M64 - 1, 1 << 63, r.getrandbits(64)])
        p &= M64
        if p == ONES:
            p = M64 - 1
        return p


def covers_ones(heap):
    return any(a + s >= ONES for a, s in heap.live.items())


def rtypes(r, n_names, k, widths="any", must=()):
    ts = []
    for i in range(k):
        f = r.choice([U, S, F, P, B, U, S, P])
        if f == S:
            s = r.choice([1, 2, 4, 8])
        elif f == U:
            s = r.choice([1, 2, 4, 8]) if widths == "std" or r.random() < 0.8 else r.choice([0, 3, 5, 6, 7])
        elif f == F:
            s = r.choice([4, 8]) if widths == "std" or r.random() < 0.85 else r.choice([0, 1, 2, 3, 5, 6, 7])
        elif f == P:
            s = 8 if widths == "std" or r.random() < 0.8 else r.choice([4, 8, 4, 2, 1, 0, 3])
        else:
            s = r.choice([0, 0, 1, 3, 8, 9, 20])
        ts.append((r.randrange(n_names), f, s))
    return ts + list(must)


def rvalue(r, t, heap, pool):
    f, s = t[1:]
    if pool and r.random() < 0.4:
        c = [v for (tt, v) in pool if tt == t]
        if c:
            return r.choice(c)
    if f in (U, S):
        v = le(rint(r, s), s)
    elif f == F:
        v = rfloat(r, s) if s in (4, 8) else rbytes(r, s)
    elif f == P:
        p = heap.pointer()
        if s < 8 and r.random() < 0.5:
            p = rint(r, s)
        v = le(p, s)
        if v == b"\xff" * 8:
            v = b"\xfe" + b"\xff" * 7
    else:
        n = s if s else r.choice([0, 1, 2, 5, 8, 16, 40])
        v = rbytes(r, n) if r.random() < 0.6 else bytes([r.choice([0, 65, 255])]) * n
    pool.append((t, v))
    return v


def rtrace(r, points=5, vars=4, events=0.4, widths="any", canon=False, types=5, names=None,
           base=None, stmts=None):
    t = Trace()
    k = r.randrange(1, 8)
    t.names = [r.choice(NAMES) for _ in range(k)] if names is None else list(names)
    t.types = rtypes(r, len(t.names), r.randrange(1, types + 1) if types else 0, widths)
    heap = Heap(r, base)
    pool = []
    for _ in range(points):
        es = []
        for _ in range(r.randrange(vars + 1) if t.types else 0):
            ti = r.randrange(len(t.types))
            if r.random() < events:
                es.append(("B",) + heap.event())
            es.append(("V", r.randrange(len(t.names)), ti, rvalue(r, t.types[ti], heap, pool)))
        if r.random() < events:
            es.append(("B",) + heap.event())
        for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
            es.insert(r.randrange(len(es) + 1), ("X", rword(r)))
        k = r.random()
        w = rword(r) if stmts is None else r.choice(stmts)
        if k < 0.85:
            es.insert(0, ("S", w))
        elif k < 0.93:
            es.insert(r.randrange(len(es) + 1), ("S", w))
            if r.random() < 0.5:
                es.insert(r.randrange(len(es) + 1), ("S", rword(r)))
        if canon:
            es.sort(key=lambda e: "SBVX".index(e[0]))
        t.points.append(es)
    return t


def contents(t, r=None):
    """the contents of a trace, for building it from objects; with r the buffer
    sizes of pointers are arbitrary"""
    live = {}
    pts = []
    for p in t.points:
        o = {"stmt": [0] * 8, "aux": [], "sizes": [], "vars": []}
        for e in p:
            if e[0] == "S":
                o["stmt"] = list(le(e[1], 8))
            elif e[0] == "X":
                o["aux"].append(list(le(e[1], 8)))
            elif e[0] == "B":
                o["sizes"].append({"addr": list(le(e[1], 8)), "size": list(le(e[2], 8))})
                live.pop(e[1], None)
                if e[2] and e[1] != ONES:
                    live[e[1]] = e[2]
            else:
                _, n, ti, v = e
                f, s = t.types[ti][1:]
                has, buf = False, 0
                if f == P:
                    a = int.from_bytes(v, "little")
                    k = max((x for x in live if x <= a), default=None)
                    if k is not None and a - k <= live[k]:
                        has, buf = True, live[k] - (a - k)
                    if r is not None and r.random() < 0.5:
                        has = r.random() < 0.6
                        buf = rword(r) if has else 0
                if f == S:
                    val = list(int.from_bytes(v, "little", signed=True).to_bytes(8, "little", signed=True))
                elif f == B:
                    val = list(v)
                else:
                    val = list(v) + [0] * (8 - len(v))
                o["vars"].append({"n": n, "t": ti, "f": f, "size": len(v) if f == B else s, "val": val,
                                  "has": has, "buf": list(le(buf, 8))})
        pts.append(o)
    return {"names": [list(n) for n in t.names],
            "types": [{"name": n, "fmt": f, "size": s} for n, f, s in t.types], "points": pts}


def retyped(r, t):
    """a trace with the same values (as numbers) at the same places and the same indices, of other
    types: nothing may be shared between the two but what really is the same"""
    u = t.copy()
    for i, (n, f, s) in enumerate(t.types):
        if r.random() < 0.75:
            c = [(U, 1), (U, 2), (U, 4), (U, 8), (S, 1), (S, 2), (S, 4), (S, 8), (P, 8), (P, 4), (F, 4), (F, 8), (B, 0), (B, 8)]
            same = [x for x in c if x[1] == s]
            f, s = r.choice(same if same and r.random() < 0.6 else c)
            u.types[i] = (n, f, s)
        if r.random() < 0.2:
            u.types[i] = (r.randrange(len(t.names)),) + u.types[i][1:]
    for p in u.points:
        for k, e in enumerate(p):
            if e[0] == "V":
                (_, f0, s0), (_, f, s) = t.types[e[2]], u.types[e[2]]
                b = e[3]
                if not (f == B and s == 0):
                    pad = b"\xff" if f0 == S and b and b[-1] >= 128 else b"\0"
                    b = (b + pad * s)[:s]
                if f == F and s == 4 and any(b) and not 0x30 < b[3] & 0x7f < 0x50:
                    b = b[:3] + b"\x40"
                if f == F and s == 8 and not _finite(int.from_bytes(b, "little")):
                    b = b[:7] + b"\x40"
                if f == P and b == b"\xff" * 8:
                    b = b"\xfe" + b[1:]
                p[k] = e[:3] + (b,)
    return u


# ------------------------------------------------------------------- queries
def d2w(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def rnum(r, nv, depth, consts):
    k = r.random()
    if depth > 0 and k < 0.45:
        return [r.choice("+-*/"), rnum(r, nv, depth - 1, consts), rnum(r, nv, depth - 1, consts)]
    if nv and k < 0.75:
        return [r.choice(["value", "value", "value", "size"]), r.randrange(nv)]
    k = r.randrange(4)
    if k == 0:
        return ["u", r.choice(consts) if consts and r.random() < 0.6 else rword(r)]
    if k == 1:
        return ["s", r.choice(consts) if consts and r.random() < 0.6 else r.choice(
            [0, 1, M64, M64 - 4, 1 << 63, (1 << 63) - 1, 5])]
    if k == 2:
        return ["f", d2w(r.choice([0.0, 1.0, -1.0, 0.5, 2.0, 3.25, 100.0, -2.5, 1e10, 1e18, 0.1]))]
    return ["u", r.randrange(4)]


def rpred(r, nv, depth, consts):
    k = r.random()
    if depth > 0 and k < 0.5:
        op = r.choice(["and", "or", "not"])
        if op == "not":
            return ["not", rpred(r, nv, depth - 1, consts)]
        return [op] + [rpred(r, nv, depth - 1, consts) for _ in range(r.choice([0, 1, 2, 2, 3]))]
    if nv >= 2 and k < 0.6:
        return ["distinct", r.randrange(nv), r.randrange(nv)]
    return [r.choice([">", ">=", "<", "<=", "="]), rnum(r, nv, r.choice([0, 0, 1, 2]), consts),
            rnum(r, nv, r.choice([0, 0, 1]), consts)]


def consts_of(t):
    out = set()
    for p in t.points:
        for e in p:
            if e[0] == "V" and len(e[3]) <= 8 and t.types[e[2]][1] in (U, S, P):
                v = int.from_bytes(e[3], "little")
                if t.types[e[2]][1] == S and e[3] and e[3][-1] >= 128:
                    v -= 1 << (8 * len(e[3]))
                out.add(v & M64)
                out.add((v + 1) & M64)
    return sorted(out)[:40]


def stmts_of(t):
    out = []
    for p in t.points:
        w = 0
        for e in p:
            if e[0] == "S":
                w = e[1]
        out.append(w)
    return out


def rquery(r, t, nv=None, soft=0, depth=2):
    nt = len(t.types)
    nv = r.choice([0, 1, 1, 2, 2, 3]) if nv is None else nv
    fvs = []
    for _ in range(nv):
        k = r.random()
        if k < 0.45:
            fv = list(range(nt))
        elif k < 0.5:
            fv = []
        else:
            fv = [r.randrange(nt + 1) for _ in range(r.randrange(1, 4))] if nt else [0]
        r.shuffle(fv)
        if r.random() < 0.15:
            fv = fv + fv[:1] if fv else fv
        fvs.append(fv)
    consts = consts_of(t)
    hard = None if nv == 0 or r.random() < 0.25 else rpred(r, nv, r.randrange(depth + 1), consts)
    sp = [rpred(r, nv, r.randrange(depth), consts) for _ in range(soft)] if nv else []
    st = stmts_of(t)
    mask = stmt = 0
    k = r.random()
    if st and k < 0.45:
        mask = r.choice([M64, M64, 0xff, 1, 3, 0xffffffff00000000, 1 << 63, 0xffffffff, 0x7fffffffffffffff, 2, 4, 6])
        stmt = r.choice(st) & mask
        if k < 0.05:
            stmt = rword(r)
        elif k < 0.1:
            # bits outside the mask: nothing is eligible
            mask, stmt = r.choice([0, 0, mask]), r.choice(st)
    return {"vars": fvs, "hard": hard, "soft": sp, "mask": mask, "stmt": stmt}


# ------------------------------------------- queries which differ in one place only
def _nodes(p, path=()):
    if not isinstance(p, list) or not p or not isinstance(p[0], str):
        return
    yield path, p
    for i, x in enumerate(p[1:], 1):
        yield from _nodes(x, path + (i,))


def _put(p, path, new):
    if not path:
        return new
    q = list(p)
    q[path[0]] = _put(q[path[0]], path[1:], new)
    return q


def _finite(w):
    """a moderate floating number: the specification computes exactly, which takes long for extreme exponents"""
    return w & (M64 >> 1) == 0 or 900 < (w >> 52) & 0x7ff < 1150


def pred_twins(r, p, nv):
    """predicates which differ from p in one place"""
    out = []
    for path, n in _nodes(p):
        k = n[0]
        if k in ("u", "s", "f"):
            out += [(path, [o, n[1]]) for o in ("u", "s", "f") if o != k and (o != "f" or _finite(n[1]))]
            out += [(path, [k, w]) for w in ((n[1] + 1) & M64, n[1] ^ (1 << 32), n[1] ^ (1 << 63), n[1] ^ (1 << r.randrange(64)))
                    if k != "f" or _finite(w)]
            if nv and not n[1] >= nv:
                out.append((path, ["value", n[1]]))
        elif k in ("value", "size"):
            out.append((path, [("size", "value")[k == "size"], n[1]]))
            out += [(path, [k, j]) for j in range(nv) if j != n[1]]
            out += [(path, [o, n[1]]) for o in ("u", "s")]
        elif k in (">", ">=", "<", "<=", "="):
            out += [(path, [o] + n[1:]) for o in (">", ">=", "<", "<=", "=") if o != k]
            out.append((path, [k, n[2], n[1]]))
            out.append((path, ["not", n]))
        elif k in ("+", "-", "*", "/"):
            out += [(path, [o] + n[1:]) for o in "+-*/" if o != k]
            out.append((path, [k, n[2], n[1]]))
        elif k in ("and", "or"):
            out.append((path, [("or", "and")[k == "or"]] + n[1:]))
            if len(n) > 1:
                out.append((path, n[:-1]))
                out.append((path, [k] + n[2:]))
            if len(n) == 2:
                out.append((path, ["not", n[1]]))
        elif k == "not":
            out.append((path, n[1]))
            out.append((path, ["and", n[1]]))
        elif k == "distinct":
            out += [(path, ["distinct", a, b]) for a in range(nv) for b in range(nv) if [a, b] != n[1:]]
            out.append((path, ["=", ["value", n[1]], ["value", n[2]]]))
    return [_put(p, a, b) for a, b in out]


def query_twins(r, q, nt):
    """queries which differ from q in one place"""
    nv, out = len(q["vars"]), []
    if q["hard"]:
        out += [dict(q, hard=p) for p in pred_twins(r, q["hard"], nv)]
        out.append(dict(q, hard=None))
        out.append(dict(q, hard=None, soft=[q["hard"]] + q["soft"]))
    for i, p in enumerate(q["soft"]):
        tw = pred_twins(r, p, nv)
        out += [dict(q, soft=q["soft"][:i] + [x] + q["soft"][i + 1:]) for x in r.sample(tw, min(4, len(tw)))]
        out.append(dict(q, soft=q["soft"][:i] + q["soft"][i + 1:]))
        out.append(dict(q, soft=q["soft"] + [p]))
    for i, fv in enumerate(q["vars"]):
        for x in (fv[1:], fv[:-1], fv + [r.randrange(nt)] if nt else fv, fv[::-1], sorted(set(range(nt)) - set(fv))):
            if x != fv:
                out.append(dict(q, vars=q["vars"][:i] + [x] + q["vars"][i + 1:]))
    if nv == 2 and q["vars"][0] != q["vars"][1]:
        out.append(dict(q, vars=q["vars"][::-1]))
    m, s = q["mask"], q["stmt"]
    for a, b in ((s, m), (m ^ 1, s), (m ^ 1, s ^ 1), ((m + 1) & M64, (s - 1) & M64), (m, s ^ (1 << 32)), (m, s ^ (1 << 63)),
                 (m ^ (1 << 63), s ^ (1 << 63)), (m & 0xffffffff, s & 0xffffffff), (0, 0), (M64, s)):
        out.append(dict(q, mask=a, stmt=b))
    return out
