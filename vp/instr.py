"""The calls which the instrumenter writes into programs: the forms of
instrumentation/c-cpp.lisp which make their text are evaluated.  Anything which
this evaluator does not know makes it give up (Unknown), it never guesses; the
texts as of the pinned commit stand in then."""
import os
from . import core, lisp
from .lisp import Sym, Unknown


def truth(v):
    return v is not None and v is not False and v != []


class Eval:
    def __init__(self, defs, funs):
        self.defs, self.funs, self.depth = defs, funs, 0

    def ev(self, f, env):
        self.depth += 1
        if self.depth > 400:
            self.depth = 0
            raise Unknown("depth")
        try:
            return self.ev1(f, env)
        finally:
            self.depth -= 1

    def ev1(self, f, env):
        if isinstance(f, Sym):
            k = f.lower()
            if k in env:
                return env[k]
            if k in ("nil",):
                return None
            if k in ("t", ":otherwise"):
                return True
            if k.startswith(":"):
                return f
            if k.lstrip("-").isdigit():
                return int(k)
            v = lisp.value(f, self.defs)
            if v is None:
                raise Unknown(k)
            return v
        if isinstance(f, str):
            return f
        if not isinstance(f, list) or not f or not isinstance(f[0], Sym):
            raise Unknown(repr(f)[:60])
        h, a = f[0].lower(), f[1:]
        E = lambda x: self.ev(x, env)
        if h == "quote":
            return a[0]
        if h == "function":
            return ("function", a[0].lower())
        if h == "if":
            return E(a[1]) if truth(E(a[0])) else E(a[2]) if len(a) > 2 else None
        if h in ("when", "unless"):
            return self.body(a[1:], env) if truth(E(a[0])) == (h == "when") else None
        if h == "cond":
            for c in a:
                v = E(c[0])
                if truth(v):
                    return self.body(c[1:], env) if len(c) > 1 else v
            return None
        if h == "and":
            v = True
            for x in a:
                v = E(x)
                if not truth(v):
                    return None
            return v
        if h == "or":
            for x in a:
                v = E(x)
                if truth(v):
                    return v
            return None
        if h in ("let", "let*"):
            e = dict(env)
            for b in a[0]:
                if not isinstance(b, list) or len(b) != 2:
                    raise Unknown("let")
                e[b[0].lower()] = self.ev(b[1], e if h == "let*" else env)
            return self.body(a[1:], e)
        if h == "progn":
            return self.body(a, env)
        if h == "nest":
            g = a[-1]
            for x in reversed(a[:-1]):
                g = (x if isinstance(x, list) else [x]) + [g]
            return E(g)
        if h == "collect" and len(a) == 3 and isinstance(a[1], Sym) and a[1].lower() == "into":
            env["*collected*"].append((a[2].lower(), E(a[0])))
            return None
        # functions
        v = []
        kw = {}
        i = 0
        while i < len(a):
            if isinstance(a[i], Sym) and a[i].startswith(":") and a[i].lower() in (":test", ":key") and i + 1 < len(a):
                kw[a[i].lower()] = E(a[i + 1])
                i += 2
            else:
                v.append(E(a[i]))
                i += 1
        if h in env and callable(env[h]):
            return env[h](*v)
        if h in self.funs:
            ps, body = self.funs[h]
            if len(ps) != len(v):
                raise Unknown(h)
            return self.body(body, dict(env, **dict(zip(ps, v))))
        if h in ("string=", "equal", "eql", "eq", "string-equal") and len(v) == 2:
            x, y = v
            if h == "string-equal":
                x, y = x.lower(), y.lower()
            return True if x == y else None
        if h == "member" and isinstance(v[1], list):
            if kw.get(":test", ("function", "eql"))[1] not in ("string=", "equal", "equalp"):
                raise Unknown("member")
            if not isinstance(v[0], str) or not all(isinstance(x, str) for x in v[1]):
                raise Unknown("member")
            return v[1][v[1].index(v[0]):] if v[0] in v[1] else None
        if h in ("not", "null"):
            return None if truth(v[0]) else True
        if h == "list":
            return v
        if h == "length":
            return len(v[0] or [])
        if h == "append":
            return [y for x in v for y in (x or [])]
        if h in ("remove-if",) and v[0] == ("function", "null"):
            return [x for x in v[1] or [] if truth(x)]
        if h in ("fmt", "format"):
            if h == "format":
                if v[0] is not None:
                    raise Unknown("format")
                v = v[1:]
            def shown(x):
                if isinstance(x, list):
                    return [shown(y) for y in x]
                if x is None or isinstance(x, tuple):
                    raise Unknown("text")
                return x if isinstance(x, int) else str(x)[1:].upper() if isinstance(x, Sym) and x.startswith(":") else str(x)
            args = [shown(x) for x in v[1:]]
            try:
                return lisp.fmt(v[0], args)
            except (ValueError, IndexError):
                raise Unknown("format")
        if h in ("concatenate", "strcat", "string+"):
            v = v[1:] if h == "concatenate" else v
            if not all(isinstance(x, str) for x in v):
                raise Unknown(h)
            return "".join(v)
        raise Unknown(h)

    def body(self, fs, env):
        r = None
        for f in fs:
            if isinstance(f, str) and not isinstance(f, Sym) and len(fs) > 1 and f is fs[0]:
                continue                    # documentation
            if isinstance(f, list) and f and isinstance(f[0], Sym) and f[0].lower() == "declare":
                continue
            r = self.ev(f, env)
        return r


def subforms(f):
    if isinstance(f, list):
        yield f
        for x in f:
            yield from subforms(x)


def head(f):
    return f[0].lower() if isinstance(f, list) and f and isinstance(f[0], Sym) else ""


def mentions(f, name):
    if isinstance(f, list):
        return any(mentions(x, name) for x in f)
    return isinstance(f, Sym) and f.lower() == name


class Calls:
    """what is inserted for a variable, the start and the end of a point"""

    # kind of declaration -> (base name, pointer?, string?)
    def __init__(self, log, lock, known_only=False):
        self.log, self.lock, self.lost = log, lock, []
        self.forms, self.env = [], {}
        try:
            if known_only:
                raise OSError
            for fn in ("traceable.lisp", "instrumentation/instrument.lisp", "instrumentation/c-cpp.lisp"):
                with open(os.path.join(core.REPO, fn), encoding="utf-8", errors="replace") as h:
                    lisp.definitions(h.read(), self.env)
            text = open(os.path.join(core.REPO, "instrumentation/c-cpp.lisp"), encoding="utf-8", errors="replace").read()
            import re
            for m in re.finditer(r"^\((defgeneric|defmethod|defun)\s", text, re.M):
                try:
                    self.forms.append(lisp.read(text, m.start())[0])
                except (IndexError, ValueError):
                    pass
        except OSError:
            pass
        self.labels = {}
        for f in self.forms:
            for g in subforms(f):
                if head(g) in ("labels", "flet") and len(g) > 1 and isinstance(g[1], list):
                    for d in g[1]:
                        if isinstance(d, list) and len(d) > 2 and isinstance(d[0], Sym) and isinstance(d[1], list) \
                                and all(isinstance(p, Sym) and not p.startswith("&") for p in d[1]):
                            self.labels[d[0].lower()] = ([p.lower() for p in d[1]], d[2:])
            if head(f) == "defun" and len(f) > 3 and isinstance(f[2], list) and all(isinstance(p, Sym) and not p.startswith("&") for p in f[2]):
                self.labels.setdefault(f[1].lower(), ([p.lower() for p in f[2]], f[3:]))
        # what the syntax trees would answer
        for n in ("base-typename", "array-type-p", "pointer-type-p", "c-string-type-p", "cpp-string-type-p", "string-type-p",
                  "get-name-index", "get-type-index", "create-instrumentation-ast", "language-ast-class", "get-ast-id"):
            self.labels.pop(n, None)
        self.machine = Eval(self.env, self.labels)

    def known(self, base, pointer, cstr, cppstr):
        return {"base-typename": lambda t: base, "array-type-p": lambda t: None, "pointer-type-p": lambda t: True if pointer or cstr else None,
                "c-string-type-p": lambda t: True if cstr else None, "cpp-string-type-p": lambda t: True if cppstr else None,
                "string-type-p": lambda t: True if cstr or cppstr else None,
                "create-instrumentation-ast": lambda *a: a[-1], "language-ast-class": lambda *a: Sym("c-ast"), "type": Sym("type"),
                "software": Sym("software"), "sw": Sym("software"), "instrumenter": Sym("instrumenter"), "ast": Sym("ast"),
                "print-strings": True if cstr or cppstr else None}

    def method(self, name):
        for f in self.forms:
            if head(f) == "defgeneric" and len(f) > 1 and isinstance(f[1], Sym) and f[1].lower() == name:
                for g in f[2:]:
                    if head(g) == ":method":
                        k = next(i for i, x in enumerate(g[1:], 1) if isinstance(x, list))
                        return g[k + 1:]
            if head(f) in ("defmethod", "defun") and isinstance(f[1], Sym) and f[1].lower() == name:
                k = next(i for i, x in enumerate(f[2:], 2) if isinstance(x, list))
                return f[k + 1:]
        raise Unknown(name)

    def guarded(self, what, fun, default):
        try:
            v = fun()
            if v is None:
                raise Unknown(what)
            return v
        except (Unknown, IndexError, TypeError, AttributeError, ValueError, KeyError, StopIteration, RecursionError):
            if what not in self.lost:
                self.lost.append(what)
            return default

    # ---------------------------------------------------------------- results
    def classify(self, base, pointer=False, cstr=False, cppstr=False, default=None):
        """-> (format, size) as texts; (None, None) for a type which is not recorded"""
        def go():
            ps, body = self.labels["type-format-and-size"]
            env = self.known(base, pointer, cstr, cppstr)
            env.update(zip(ps, [Sym("type"), env["print-strings"]]))
            r = self.machine.body(body, env)
            if not isinstance(r, list) or len(r) != 2:
                raise Unknown("type-format-and-size")
            if isinstance(r[0], Sym) and r[0].lower() == "nil":
                return (None, None)
            if r[0] is None:
                return (None, None)
            return (str(r[0]).lstrip(":").upper(), str(r[1]))
        return self.guarded("type-format-and-size", go, default)

    def describe(self, name_index, fmt, size):
        def go():
            ps, body = self.labels["type-description-struct"]
            env = dict(self.known("", False, False, False), **{"get-name-index": lambda n: name_index})
            env.update(zip(ps, ["T", Sym(":" + fmt), size]))
            r = self.machine.body(body, env)
            if not isinstance(r, str):
                raise Unknown("description")
            return r
        return self.guarded("type-description-struct", go, "{%d, %s, %s}" % (name_index, fmt, size))

    def argument(self, name_index, type_index, size, fmt, name, cstr=False, cppstr=False):
        """-> (into which call, text)"""
        def go():
            env = dict(self.known("", False, cstr, cppstr),
                       **{"name-index": name_index, "type-index": type_index, "name": name, "size": size,
                          "format": Sym(":" + fmt), "*collected*": []})
            cands = [g for f in self.forms for g in subforms(f) if head(g) == "cond" and mentions(g, "collect") and mentions(g, "into")]
            self.machine.ev(cands[0], env)
            (into, text), = env["*collected*"]
            if into not in ("var-args", "blob-args") or not isinstance(text, str):
                raise Unknown("argument")
            return ("blob" if into == "blob-args" else "var", text)
        d = ("blob", "%d, %d, strlen(%s), %s" % (name_index, type_index, name, name)) if cstr else \
            ("blob", "%d, %d, (%s).length(), (%s).c_str()" % (name_index, type_index, name, name)) if cppstr else \
            ("var", "%d, %d, %s, %s, %s" % (name_index, type_index, size, fmt, name))
        return self.guarded("arguments", go, d)

    def calls(self, var_args, blob_args):
        """the calls for these arguments"""
        def go():
            env = dict(self.known("", False, False, False), **{"var-args": list(var_args), "blob-args": list(blob_args)})
            g = next(g for f in self.forms for g in subforms(f) if head(g) == "append" and mentions(g, "var-args") and mentions(g, "blob-args"))
            r = [x for x in self.machine.ev(g, env) if truth(x)]
            if not all(isinstance(x, str) for x in r):
                raise Unknown("calls")
            return r
        d = ["%s(%s, %d, %s);" % (n, self.log, len(a), ", ".join(a))
             for n, a in (("__write_trace_variables", var_args), ("__write_trace_blobs", blob_args)) if a]
        return self.guarded("calls", go, d)

    def begin(self, sid):
        def go():
            env = dict(self.known("", False, False, False), **{"get-ast-id": lambda *a: sid})
            r = self.machine.body(self.method("write-trace-id"), env)
            if not isinstance(r, str):
                raise Unknown("write-trace-id")
            return r
        return self.guarded("write-trace-id", go, "__write_trace_id(%s, %s, %du);" % (self.log, self.lock, sid))

    def end(self):
        def go():
            r = self.machine.body(self.method("write-end-entry"), self.known("", False, False, False))
            if not isinstance(r, str):
                raise Unknown("write-end-entry")
            return r
        return self.guarded("write-end-entry", go, "__write_end_entry(%s, %s);" % (self.log, self.lock))
