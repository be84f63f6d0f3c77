"""Conformance client: what a Lisp program sees of the library.  It executes the
same scripts as driver.cpp, but calls the shared library through the foreign
declarations of binary-trace-db.lisp (vp/ffi.py), in the way that file does.
usage: ffi_client.py LIB LISPFILE,INSTRUMENTER SCRIPT WORKDIR"""
import ctypes as C, json, os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import ffi, lisp

lib = C.CDLL(sys.argv[1])
D, _ = ffi.declarations(*(open(f, errors="replace").read() for f in sys.argv[2].split(",")))
work = sys.argv[4]
libc = C.CDLL(None)
libc.malloc.restype, libc.malloc.argtypes = C.c_void_p, [C.c_size_t]
libc.free.restype, libc.free.argtypes = None, [C.c_void_p]

CT = {"u64": C.c_uint64, "i64": C.c_int64, "u32": C.c_uint32, "i32": C.c_int32, "u16": C.c_uint16, "i16": C.c_int16,
      "u8": C.c_uint8, "i8": C.c_int8, "f64": C.c_double, "f32": C.c_float, "ptr": C.c_void_p, "str": C.c_void_p,
      "void": None}


def mkstruct(name):
    return type(name, (C.Structure,), {"_fields_": [(n.replace("-", "_"), CT[t]) for n, t in D["structs"][name]]})


Var, Point, Pred, Free = (mkstruct(n) for n in ("var-info", "trace-point", "c-predicate", "c-free-variable"))
FMT = {v: k for k, v in D["enums"]["type-format"].items()}
FNUM = {":unsigned": 0, ":signed": 1, ":float": 2, ":pointer": 3, ":blob": 4, ":invalid-format": 5}
KINDS = [":null-predicate", ":var-reference", ":var-size", ":var-value", ":distinct-vars", ":signed-value",
         ":unsigned-value", ":float-value", ":and", ":or", ":not", ":greater-than", ":greater-than-or-equal",
         ":less-than", ":less-than-or-equal", ":equal", ":add", ":subtract", ":multiply", ":divide"]


def call(fun, **kw):
    d = D["funs"][fun]
    f = getattr(lib, fun)
    f.restype = CT[d["ret"]]
    f.argtypes = [CT[t] for _, t in d["args"]]
    # integers wider than the parameter are truncated, as the machine would
    vals = []
    for n, t in d["args"]:
        v = kw[n.replace("-", "_")]
        if t[0] in "ui" and isinstance(v, int):
            v = CT[t](v)
        elif isinstance(v, bytes):
            v = C.cast(C.c_char_p(v), C.c_void_p)
        vals.append(v)
    return f(*vals)


def alloc(n):
    return libc.malloc(n)


def array(ctype, items):
    """foreign-alloc and fill"""
    p = alloc(C.sizeof(ctype) * len(items))
    # fresh memory; what lies between the fields is not written
    C.memset(p, 0xab, C.sizeof(ctype) * len(items))
    a = (ctype * len(items)).from_address(p)
    for i, x in enumerate(items):
        if issubclass(ctype, C.Structure):
            for n, _ in ctype._fields_:
                setattr(a[i], n, getattr(x, n))
        else:
            a[i] = x
    return p


def word(v):
    return list((v & (1 << 64) - 1).to_bytes(8, "little"))


def nat(v):
    return min(v, 2147483647)


class Skip(Exception):
    pass


def need(m, k):
    if k not in m:
        raise Skip()
    return m[k]


def cbytes(p):
    return list(C.string_at(p)) if p else []


def point(p, blobs=True):
    vs = []
    for j in range(p.n_vars):
        at = p.vars + j * C.sizeof(Var)
        v = Var.from_address(at)
        f = FMT.get(v.format, "?")
        raw = C.string_at(at, 8)          # the value is read from the start of the structure
        if f == ":blob":
            q = int.from_bytes(raw, "little")
            val = list(C.string_at(q, v.size)) if blobs and v.size else []
        else:
            val = list(raw)
        vs.append({"n": nat(v.var_name_index), "tn": nat(v.type_name_index), "f": FNUM.get(f, 99), "size": nat(v.size),
                   "val": val, "has": v.has_buffer_size != 0, "buf": word(v.buffer_size)})
    aux = [word(x) for x in (C.c_uint64 * p.n_aux).from_address(p.aux)] if p.n_aux else []
    return {"stmt": word(p.statement), "aux": aux, "vars": vs}


def points(ptr, n, blobs=True):
    return [point(Point.from_address(ptr + i * C.sizeof(Point)), blobs) for i in range(n)]


def strings(ptr, n):
    out = [cbytes(x) for x in (C.c_void_p * n).from_address(ptr)] if n else []
    libc.free(ptr)
    return out


def trace(h):
    np = call("trace_size", trace=h)
    names = strings(call("get_names", trace=h), call("n_names", trace=h))
    types = strings(call("get_types", trace=h), call("n_types", trace=h))
    p = call("get_points", trace=h)
    o = {"names": names, "tnames": types, "points": points(p, np)}
    call("free_trace_points", points=p, n_points=np)
    return o


dbs, traces, texts, files, held = {}, {}, {}, {}, {}


def path(f, cut):
    b = need(files, f)
    p = os.path.join(work, "trace.bin")
    with open(p, "wb") as o:
        o.write(b if cut < 0 else b[:cut])
    return p.encode()


class In:
    def __init__(self, line):
        self.t = iter(line.split())

    def s(self):
        return next(self.t)

    def i(self):
        return int(next(self.t))

    def x(self):
        return int(next(self.t), 16)


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


def nth(d, i):
    if i >= call("n_traces", db=d):
        raise Skip()
    return call("get_trace", db=d, index=i)


def ref(n):
    if n.s() == "t":
        return need(traces, n.i())
    d = need(dbs, n.i())
    return nth(d, n.i())


def pred(n):
    """a predicate structure, None for none"""
    p = Pred()
    if n.s() == "N":
        return None
    kind, data, k = n.i(), n.x(), n.i()
    p.kind = D["enums"]["predicate-kind"][KINDS[kind]]
    p.n_children = k
    if kind == 1:
        p.var_index = data
    elif kind == 6:
        p.unsigned_value = data
    elif kind == 5:
        p.signed_value = C.c_int64(data).value
    elif kind == 7:
        p.float_value = C.c_double.from_buffer_copy(data.to_bytes(8, "little")).value
    if k:
        ch = [pred(n) for _ in range(k)]
        p.children = array(Pred, [c if c is not None else Pred() for c in ch])
    return p


def pred_ptr(n):
    p = pred(n)
    return None if p is None else array(Pred, [p])


def query(n, hold=None, file=None):
    d, idx, nv = n.i(), n.i(), n.i()
    fv = []
    for _ in range(nv):
        k = n.i()
        ts = [n.i() for _ in range(k)]
        fv.append(Free(n_allowed_types=k, allowed_types=array(C.c_uint32, ts)))
    variables = array(Free, fv)
    hard = pred_ptr(n)
    soft = [pred_ptr(n) for _ in range(n.i())]
    softs = array(C.c_void_p, soft)
    seed, keep = n.i(), n.i()
    mask, stmt = n.x(), n.x()
    if file is not None:
        mask, stmt = (formula(k, {"file-id": file}) for k in ("mask", "want"))
    res, cnt = C.c_void_p(None), C.c_uint64(0)
    nth(need(dbs, d), idx)
    call("query_trace", db=need(dbs, d), index=idx, variables=variables, n_variables=nv, predicate=hard,
         soft_predicates=softs, n_soft_predicates=len(soft), seed=seed, keep_duplicate_bindings=keep,
         statement_mask=mask, statement=stmt, results_out=C.addressof(res), n_results=C.addressof(cnt))
    o = {"cxx": True, "res": points(res.value or 0, cnt.value)}
    if hold is None:
        call("free_trace_points", points=res.value, n_points=cnt.value)
    else:
        held[hold] = (res.value, cnt.value)
    # also for a predicate which is not there
    call("free_c_predicate", predicate=hard)
    for x in soft:
        call("free_c_predicate", predicate=x)
    libc.free(softs)
    for i in range(nv):
        libc.free(Free.from_address(variables + i * C.sizeof(Free)).allowed_types)
    libc.free(variables)
    return o


def add_points(n):
    d = need(dbs, n.i())
    names = [unhex(n.s()) for _ in range(n.i())]
    keepalive = [C.create_string_buffer(x) for x in names]
    pts = []
    for _ in range(n.i()):
        st = n.x()
        aux = [n.x() for _ in range(n.i())]
        vs = []
        for _ in range(n.i()):
            v = Var()
            v.var_name_index, v.type_name_index = n.i(), n.i()
            val = n.x()
            v.value = val
            v.format = D["enums"]["type-format"][":signed" if val >> 63 else ":unsigned"]
            v.size = 8
            v.has_buffer_size, v.buffer_size = n.i(), n.x()
            vs.append(v)
        pts.append(Point(statement=st, vars=array(Var, vs), n_vars=len(vs), aux=array(C.c_uint64, aux) if aux else None,
                         n_aux=len(aux)))
    r = call("add_trace_points", db=d, points=array(Point, pts), n_points=len(pts),
             names=array(C.c_void_p, [C.addressof(b) for b in keepalive]), n_names=len(names))
    return {"ret": r != 0}


# ------------------------------------------------------------------ identifiers
IDS = D["ids"]
BITS = {"fb": IDS["fb"], "sb": IDS["sb"]}


def formula(k, env):
    return lisp.arith(IDS[k], env, IDS["env"])


def unpacked(w):
    c, f = formula("c", {"statement": w}), formula("f", {"statement": w})
    return {"has": f is not None, "file": word(f or 0), "ast": word(c)}


def run(line):
    n = In(line)
    op = n.s()
    if op == "F":
        f = n.i()
        files[f] = unhex(n.s())
        return {}
    if op == "D":
        dbs[n.i()] = call("create_db")
        return {}
    if op in ("A", "AM"):
        d = n.i()
        db = need(dbs, d)
        if op == "A":
            p, mx, to = path(n.i(), n.i()), n.i(), n.i()
        else:
            p, mx, to = os.path.join(work, "no-such-file").encode(), 0, n.i()
        r = call("add_trace", db=db, filename=p, timeout=to, max_trace_points=mx)
        return {"ret": r != 0, "n": nat(call("n_traces", db=db))}
    if op == "R":
        h = n.i()
        p, mx = path(n.i(), n.i()), n.i()
        t = call("read_trace", filename=p, timeout=0, max_trace_points=mx)
        if t:
            traces[h] = t
        return {"ret": bool(t)}
    if op == "X":
        call("free_trace", trace_ptr=need(traces, n.i()))
        del traces[int(line.split()[1])]
        return {}
    if op == "XD":
        call("free_db", db=need(dbs, n.i()))
        del dbs[int(line.split()[1])]
        return {}
    if op == "NT":
        return {"n": nat(call("n_traces", db=need(dbs, n.i())))}
    if op == "DD":
        db = need(dbs, n.i())
        return {"trs": [trace(call("get_trace", db=db, index=i)) for i in range(call("n_traces", db=db))]}
    if op == "DI":
        d = need(dbs, n.i())
        return {"tr": trace(nth(d, n.i()))}
    if op == "DT":
        return {"tr": trace(need(traces, n.i()))}
    if op == "Q":
        return query(n)
    if op == "HQ":
        k = n.i()
        return query(n, hold=k)
    if op == "QF":
        f = n.x()
        return dict(query(n, file=f), **BITS)
    if op == "AP":
        return add_points(n)
    if op == "S":
        db = need(dbs, n.i())
        p = call("serialize_trace_db", db=db)
        texts[n.i()] = C.string_at(p)
        libc.free(p)
        return {}
    if op == "U":
        t = need(texts, n.i())
        dbs[n.i()] = call("deserialize_trace_db", text=t)
        return {}
    if op == "HP":
        k = n.i()
        t = ref(n)
        held[k] = (call("get_points", trace=t), call("trace_size", trace=t))
        return {}
    if op == "HD":
        p, k = need(held, n.i())
        return {"pts": points(p or 0, k, n.i() != 0)}
    if op == "HX":
        k = n.i()
        p, c = need(held, k)
        call("free_trace_points", points=p, n_points=c)
        del held[k]
        return {}
    if op == "ID":
        has, f, c = n.i(), n.x(), n.x()
        w = formula("pack", {"point": {":f": f if has else None, ":c": c}})
        w2 = formula("emit", {"file-id": f if has else None, "ast-i": c})
        return dict({"packed": word(w), "back": unpacked(w), "emitted": word(w2)}, **BITS)
    if op == "DF":
        d = need(dbs, n.i())
        t = nth(d, n.i())
        p, k = call("get_points", trace=t), call("trace_size", trace=t)
        ids = [unpacked(Point.from_address(p + i * C.sizeof(Point)).statement) for i in range(k)]
        call("free_trace_points", points=p, n_points=k)
        return dict({"ids": ids}, **BITS)
    if op == "FD":
        return {}
    if op == "RESET":
        for d in dbs.values():
            call("free_db", db=d)
        for t in traces.values():
            call("free_trace", trace_ptr=t)
        for p, k in held.values():
            call("free_trace_points", points=p, n_points=k)
        for m in (dbs, traces, texts, held):
            m.clear()
        return {}
    sys.stderr.write("client: unknown operation %s\n" % op)
    os._exit(5)


def on_alarm(*_):
    os.write(1, b'\n{"hang":true}\n')
    os._exit(7)


signal.signal(signal.SIGALRM, on_alarm)
# a call which never comes back holds up the interpreter: let the signal end it
for i, line in enumerate(l for l in open(sys.argv[3]) if l.strip()):
    signal.alarm(60)
    try:
        o = run(line)
    except Skip:
        o = {"skip": True}
    sys.stdout.write(json.dumps(dict({"i": i}, **o)) + "\n")
    sys.stdout.flush()
