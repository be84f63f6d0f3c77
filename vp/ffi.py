"""The foreign declarations of binary-trace-db.lisp, as data.

The C structures, enumerations and functions a Lisp program works with are the
ones declared there; a client which is to show what a Lisp program sees has to
use the same ones.  Where a declaration has a shape this reader does not know,
the one below (the text as of the pinned commit) stands in for it."""
import re
from . import lisp
from .lisp import Sym

KNOWN = """
(defcenum type-format :unsigned :signed :float :pointer :blob :invalid-format)
(defcstruct (var-info :class c-trace-var-info-struct)
  (value :uint64) (format type-format) (var-name-index :uint32) (type-name-index :uint32)
  (size :uint32) (buffer-size :uint64) (has-buffer-size :uint8))
(defcstruct (trace-point :class c-trace-point-struct)
  (statement :uint64) (vars (:pointer (:struct var-info))) (n-vars :uint32)
  (aux (:pointer :uint64)) (n-aux :uint32))
(defconstant +trace-id-file-bits+ 23)
(defconstant +trace-id-statement-bits+ 40)
(defcfun ("read_trace" c-read-trace) :pointer
  (filename :string) (timeout :uint32) (max-trace-points :uint64))
(defcfun ("trace_size" c-trace-size) :uint64 (trace :pointer))
(defcfun ("get_points" c-get-points) :pointer (trace :pointer))
(defcfun ("n_types" c-n-types) :uint32 (trace :pointer))
(defcfun ("get_types" c-get-types) (:pointer :string) (trace :pointer))
(defcfun ("n_names" c-n-names) :uint32 (trace :pointer))
(defcfun ("get_names" c-get-names) (:pointer :string) (trace :pointer))
(defcfun ("free_trace" c-free-trace) :void (trace-ptr :pointer))
(defcfun ("free_trace_points" c-free-trace-points) :void (points :pointer) (n_points :uint64))
(defcfun ("create_db" c-create-db) :pointer)
(defcfun ("add_trace" c-add-trace) :int
  (db :pointer) (filename :string) (timeout :int) (max-trace-points :uint64))
(defcfun ("add_trace_points" c-add-trace-points) :int
  (db :pointer) (points :pointer) (n-points :uint64) (names (:pointer :string)) (n-names :uint32))
(defcfun ("get_trace" c-get-trace) :pointer (db :pointer) (index :uint32))
(defcfun ("n_traces" c-n-traces) :uint32 (db :pointer))
(defcfun ("serialize_trace_db" c-serialize-trace-db) :string (db :pointer))
(defcfun ("deserialize_trace_db" c-deserialize-trace-db) :pointer (text :string))
(defcfun ("free_db" c-free-db) :void (db :pointer))
(defcenum predicate-kind
  :null-predicate :var-reference :var-size :var-value :distinct-vars :signed-value
  :unsigned-value :float-value :and :or :not :greater-than :greater-than-or-equal :less-than
  :less-than-or-equal :equal :add :subtract :multiply :divide)
(defcstruct c-predicate
  (kind predicate-kind) (n-children :uint64) (var-index :uint64) (unsigned-value :uint64)
  (signed-value :int64) (float-value :double) (children (:pointer (:struct c-predicate))))
(defcstruct c-free-variable (n-allowed-types :uint32) (allowed-types (:pointer :uint32)))
(defcfun ("query_trace" c-query-trace) :void
  (db :pointer) (index :uint64) (variables (:pointer (:struct c-free-variable)))
  (n-variables :uint32) (predicate (:pointer (:struct c-predicate))) (soft-predicates :pointer)
  (n-soft-predicates :uint32) (seed :uint32) (keep-duplicate-bindings :uint8)
  (statement-mask :uint64) (statement :uint64) (results-out :pointer) (n-results :pointer))
(defcfun ("free_c_predicate" c-free-c-predicate) :void (predicate :pointer))
"""

FORMULAS = """
(ids (c (if (> (logand statement (ash 1 63)) 0)
            (logand (1- (ash 1 +trace-id-statement-bits+)) statement)
            statement))
     (f (when (> (logand statement (ash 1 63)) 0)
          (logand (1- (ash 1 +trace-id-file-bits+)) (ash statement (* -1 +trace-id-statement-bits+)))))
     (pack (if (cdr (assoc :f point))
               (logior (ash 1 63) (ash (cdr (assoc :f point)) +trace-id-statement-bits+) (cdr (assoc :c point)))
               (cdr (assoc :c point))))
     (mask (if file-id (logior (ash 1 63) (ash (1- (ash 1 +trace-id-file-bits+)) +trace-id-statement-bits+)) 0))
     (want (if file-id (logior (ash 1 63) (ash file-id +trace-id-statement-bits+)) 0))
     (emit (if file-id (logior (ash 1 63) (ash file-id +trace-id-statement-bits+) ast-i) ast-i)))
"""

BASE = {":uint64": "u64", ":int64": "i64", ":uint32": "u32", ":int32": "i32", ":uint16": "u16", ":int16": "i16",
        ":uint8": "u8", ":int8": "i8", ":int": "i32", ":unsigned-int": "u32", ":uint": "u32", ":long": "i64",
        ":unsigned-long": "u64", ":ulong": "u64", ":long-long": "i64", ":unsigned-long-long": "u64", ":char": "i8",
        ":unsigned-char": "u8", ":uchar": "u8", ":short": "i16", ":unsigned-short": "u16", ":ushort": "u16",
        ":size": "u64", ":double": "f64", ":float": "f32", ":pointer": "ptr", ":string": "str", ":void": "void",
        ":bool": "u8", ":boolean": "i32"}


def forms(text):
    for m in re.finditer(r"^\(", text, re.M):
        try:
            yield lisp.read(text, m.start())[0]
        except (IndexError, ValueError):
            continue


def head(f):
    return f[0].lower() if isinstance(f, list) and f and isinstance(f[0], Sym) else ""


def ctype(t, enums):
    """the name of a foreign type, None if unknown"""
    if isinstance(t, Sym):
        k = t.lower()
        if k in BASE:
            return BASE[k]
        return "i32" if k in enums else None
    h = head(t)
    if h == ":pointer":
        return "ptr"
    if h == ":string":
        return "str"
    return None


def parse(text):
    out = {"enums": {}, "structs": {}, "funs": {}, "defs": {}, "defuns": {}}
    todo = []
    for f in forms(text):
        h = head(f)
        try:
            if h.endswith("defcenum"):
                n = f[1][0] if isinstance(f[1], list) else f[1]
                vals, k = {}, 0
                for v in f[2:]:
                    if isinstance(v, list):
                        k = int(v[1]) if len(v) > 1 else k
                        v = v[0]
                    elif not isinstance(v, Sym):
                        continue
                    vals[v.lower()] = k
                    k += 1
                out["enums"][n.lower()] = vals
            elif h.endswith("defcstruct") or h.endswith("defcfun"):
                todo.append(f)
            elif h in ("defconst", "defconstant", "define-constant", "defparameter", "defvar") and len(f) > 2:
                out["defs"][f[1].lower()] = f[2]
            elif h == "defun" and len(f) > 3 and isinstance(f[2], list):
                out["defuns"][f[1].lower()] = ([p.lower() for p in f[2] if isinstance(p, Sym)], f[-1])
        except (IndexError, ValueError, AttributeError, TypeError):
            continue
    for f in todo:
        try:
            if head(f).endswith("defcstruct"):
                n = f[1][0] if isinstance(f[1], list) else f[1]
                fs = [(x[0].lower(), ctype(x[1], out["enums"])) for x in f[2:] if isinstance(x, list)]
                if all(t for _, t in fs) and not any(":offset" in [str(y).lower() for y in x] for x in f[2:] if isinstance(x, list)):
                    out["structs"][n.lower()] = fs
            else:
                c = next(x for x in f[1] if not isinstance(x, Sym)) if isinstance(f[1], list) else f[1]
                args = [(x[0].lower(), ctype(x[1], out["enums"])) for x in f[3:] if isinstance(x, list)]
                ret = ctype(f[2], out["enums"])
                if ret and all(t for _, t in args):
                    out["funs"][str(c)] = {"ret": ret, "args": args}
        except (IndexError, ValueError, AttributeError, TypeError, StopIteration):
            continue
    return out


def declarations(text, writer=""):
    """-> declarations to work with, names of those which had to be taken from above"""
    known, got, lost = parse(KNOWN), parse(text), []
    d = {"enums": {}, "structs": {}, "funs": {}}
    for n, v in known["enums"].items():
        g = got["enums"].get(n)
        if g is None or not set(v) <= set(g) | {":invalid-format"}:
            lost.append(n)
            g = v
        d["enums"][n] = g
    for n, v in known["structs"].items():
        g = got["structs"].get(n)
        if g is None or not {x for x, _ in v} <= {x for x, _ in g}:
            lost.append(n)
            g = v
        d["structs"][n] = g
    for n, v in known["funs"].items():
        g = got["funs"].get(n)
        if g is None or len(g["args"]) != len(v["args"]):
            lost.append(n)
            g = v
        names = [x for x, _ in v["args"]]
        if sorted(names) != sorted(x for x, _ in g["args"]):
            # other names for the parameters: by position
            g = {"ret": g["ret"], "args": [(x, t) for x, (_, t) in zip(names, g["args"])]}
        d["funs"][n] = g
    d["ids"], l2 = formulas(text, got, known, writer)
    return d, lost + l2


# ---------------------------------------------------------------- identifiers
def subforms(f):
    if isinstance(f, list):
        yield f
        for x in f:
            yield from subforms(x)


def mentions(f, name):
    if isinstance(f, list):
        return any(mentions(x, name) for x in f)
    return isinstance(f, Sym) and f.lower() == name


def formulas(text, got, known, writer):
    """how the front end packs and unpacks file and statement, and what it selects a file by"""
    env = {"defs": dict(known["defs"], **got["defs"]), "defuns": got["defuns"]}
    ids, lost = {}, []
    found = {}
    qargs = [x for x, _ in got["funs"].get("query_trace", known["funs"]["query_trace"])["args"]]
    for top in forms(text):
        for f in subforms(top):
            if head(f) == "cons" and len(f) == 3 and isinstance(f[1], Sym) and f[1].lower() in (":c", ":f") \
                    and mentions(f[2], "statement"):
                found.setdefault(f[1].lower()[1:], f[2])
            if head(f) == "c-query-trace" and len(f) == len(qargs) + 1:
                for a, k in (("statement-mask", "mask"), ("statement", "want")):
                    if a in qargs:
                        found.setdefault(k, f[1 + qargs.index(a)])
            for i in range(len(f) - 1):
                if isinstance(f[i], Sym) and f[i].lower() == "statement" and mentions(f[i + 1], ":f"):
                    found.setdefault("pack", f[i + 1])
    # and how the instrumenter makes the identifiers which it puts into programs
    for top in forms(writer):
        for f in subforms(top):
            if "emit" not in found and mentions(f, "file-id") and mentions(f, "ast-i"):
                try:
                    if all(isinstance(lisp.arith(f, {"file-id": x, "ast-i": 1}, env), int) for x in (None, 1)):
                        found["emit"] = f
                except (lisp.Unknown, IndexError, TypeError, AttributeError):
                    pass
    base = {x[0].lower(): x[1] for x in lisp.read(FORMULAS.strip(), 0)[0][1:]}
    trial = {"c": {"statement": 1 << 63}, "f": {"statement": 1 << 63}, "pack": {"point": {":f": 1, ":c": 1}},
             "mask": {"file-id": 1}, "want": {"file-id": 1}, "emit": {"file-id": 1, "ast-i": 1}}
    for k in base:
        f = found.get(k)
        try:
            if f is None or not isinstance(lisp.arith(f, trial[k], env), int):
                raise lisp.Unknown()
            ids[k] = f
        except lisp.Unknown:
            ids[k] = base[k]
            lost.append("ids." + k)
    bits = {}
    for k, n in (("fb", "+trace-id-file-bits+"), ("sb", "+trace-id-statement-bits+")):
        bits[k] = lisp.arith(Sym(n), {}, env)
    ids.update(bits)
    ids["env"] = env
    return ids, lost
