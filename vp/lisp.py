"""Reads the string constants of the Lisp sources: just enough of the syntax to
find top-level definitions and to evaluate those whose value is text."""
import re


class Sym(str):
    pass


def read(s, i):
    """one form from s at i -> (form, next position)"""
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i < n and s[i] == ";":
            while i < n and s[i] != "\n":
                i += 1
        elif s.startswith("#|", i):
            i = s.index("|#", i) + 2
        else:
            break
    c = s[i]
    if c in "([{":
        close = {"(": ")", "[": "]", "{": "}"}[c]
        out = []
        i += 1
        while True:
            i = skip(s, i)
            if s[i] == close:
                return out, i + 1
            if s[i] in ")]}":
                return out, i + 1
            f, i = read(s, i)
            out.append(f)
    if c == '"':
        i += 1
        b = []
        while s[i] != '"':
            if s[i] == "\\":
                i += 1
            b.append(s[i])
            i += 1
        return "".join(b), i + 1
    if c in "'`,@":
        f, j = read(s, i + 1)
        return [Sym("quote"), f], j
    if s.startswith("#'", i):
        f, j = read(s, i + 2)
        return [Sym("function"), f], j
    if s.startswith("#\\", i):
        m = re.compile(r"#\\(\w+|.)", re.S).match(s, i)
        return Sym(m.group(0)), m.end()
    m = re.compile(r"[^\s()\[\]{}\"';`,]+").match(s, i)
    if not m:
        return Sym(c), i + 1
    return Sym(m.group(0)), m.end()


def skip(s, i):
    n = len(s)
    while i < n:
        if s[i].isspace():
            i += 1
        elif s[i] == ";":
            while i < n and s[i] != "\n":
                i += 1
        elif s.startswith("#|", i):
            i = s.index("|#", i) + 2
        else:
            return i
    return i


def definitions(text, env):
    """adds the forms of (defconst NAME FORM ...) and the like to env"""
    for m in re.finditer(r"^\((defconst|defvar|defparameter|defconstant|define-constant|def)\s", text, re.M):
        try:
            f, _ = read(text, m.start())
        except (IndexError, ValueError):
            continue
        if len(f) >= 3 and isinstance(f[1], Sym):
            env[f[1].lower()] = f[2]
    # functions stand for what their last form stands for
    for m in re.finditer(r"^\(def(?:un|macro|subst)\s+\S+\s+\(", text, re.M):
        try:
            f, _ = read(text, m.start())
        except (IndexError, ValueError):
            continue
        if len(f) >= 4 and isinstance(f[2], list):
            ps = []
            for x in f[2]:
                x = x[0] if isinstance(x, list) and x else x
                if isinstance(x, Sym) and x.lower() == "&aux":
                    ps = None
                    break
                if isinstance(x, Sym) and not x.startswith("&"):
                    ps.append(x.lower())
            if ps is not None:
                env["(%s)" % f[1].lower()] = (ps, f[-1])


CHARS = {"newline": "\n", "linefeed": "\n", "space": " ", "tab": "\t", "nul": "\0", "null": "\0"}


def value(f, env, depth=0):
    """the text (or list of texts) a form stands for, or None"""
    if depth > 50:
        return None
    ev = lambda x, e=None: value(x, env if e is None else e, depth + 1)
    if isinstance(f, Sym):
        k = f.lower()
        if k in env:
            return ev(env[k])
        if k.startswith("#\\"):
            return CHARS.get(k[2:], str(f)[2:] if len(k) == 3 else None)
        return str(f) if re.match(r"^-?\d+$", f) else None
    if isinstance(f, str):
        return f
    if not isinstance(f, list) or not f or not isinstance(f[0], Sym):
        return None
    h = f[0].lower()
    if h == "quote":
        if isinstance(f[1], list):
            r = [x if isinstance(x, str) else None for x in f[1]]
            return None if None in r else r
        return f[1] if isinstance(f[1], str) else None
    if h in ("let", "let*") and len(f) > 2 and isinstance(f[1], list):
        e = dict(env)
        for b in f[1]:
            if isinstance(b, list) and len(b) == 2 and isinstance(b[0], Sym):
                v = ev(b[1], e if h == "let*" else env)
                if v is not None:
                    e[b[0].lower()] = [Sym("value-of"), v]
        return ev(f[-1], e)
    if h == "value-of":
        return f[1]
    if h in ("progn", "eval-when", "the", "identity", "string", "princ-to-string", "load-time-value", "copy-seq"):
        return ev(f[1] if h == "load-time-value" else f[-1])
    if "(%s)" % h in env:
        ps, body = env["(%s)" % h]
        if len(ps) < len(f) - 1:
            return None
        e = dict(env)
        for k, x in zip(ps, f[1:]):
            v = ev(x)
            if v is None:
                return None
            e[k] = [Sym("value-of"), v]
        return ev(body, e)
    if h == "nest" and len(f) > 2:
        g = f[-1]
        for x in reversed(f[1:-1]):
            g = (x if isinstance(x, list) else [x]) + [g]
        return ev(g)
    parts = None
    if h in ("concatenate", "uiop:strcat", "strcat", "string+", "str:concat", "string-append", "uiop/utility:strcat", "concat"):
        parts = [ev(x) for x in (f[2:] if h == "concatenate" else f[1:])]
    elif h in ("apply", "reduce") and len(f) > 2 and isinstance(f[1], list) and f[1][0].lower() in ("function", "quote", "curry"):
        parts = [ev(x) for x in f[2:] if not (isinstance(x, list) and x and isinstance(x[0], Sym) and x[0].lower() == "quote"
                                              and isinstance(x[1], Sym))]
    elif h == "list":
        parts = [ev(x) for x in f[1:]]
        return None if any(x is None for x in parts) else parts
    elif h in ("append", "cons"):
        parts = [ev(x) for x in f[1:]]
        if any(x is None for x in parts):
            return None
        return [y for x in parts for y in (x if isinstance(x, list) else [x])]
    elif h in ("fmt", "format"):
        parts = [ev(x) for x in (f[1:] if h == "fmt" else f[2:])]
        if any(x is None for x in parts) or not isinstance(parts[0], str):
            return None
        try:
            return fmt(parts[0], parts[1:])
        except (ValueError, IndexError):
            return None
    elif h in ("string-join", "mapconcat", "join", "string-case-join"):
        v = [ev(x) for x in f[1:] if not (isinstance(x, Sym) and x.startswith(":"))]
        l = [x for x in v if isinstance(x, list)]
        t = [x for x in v if isinstance(x, str)]
        return (t[0] if t else "").join(l[0]) if l else None
    if parts is None or any(x is None for x in parts):
        return None
    return "".join(y for x in parts for y in (x if isinstance(x, list) else [x]))


def fmt(s, args):
    """the more usual directives of format"""
    args, at = list(args), 0
    out, i = [], 0
    while i < len(s):
        if s[i] != "~":
            out.append(s[i])
            i += 1
            continue
        m = re.compile(r"~((?:-?\d+|'.)?(?:,(?:-?\d+|'.)?)*)([:@]*)(.)", re.S).match(s, i)
        if not m:
            raise ValueError("format directive")
        pre, mod, d = m.group(1), m.group(2), m.group(3).lower()
        i = m.end()
        if d in "adwc" or (d == "s" and not isinstance(args[at], str)):
            out.append(str(args[at]))
            at += 1
        elif d == "s":
            out.append('"%s"' % args[at].replace("\\", "\\\\").replace('"', '\\"') if not re.match(r"^-?\d+$", args[at]) else args[at])
            at += 1
        elif d == "%":
            out.append("\n" * int(pre or 1))
        elif d == "&":
            if out and not "".join(out).endswith("\n"):
                out.append("\n")
        elif d == "~":
            out.append("~" * int(pre or 1))
        elif d == "*":
            at = int(pre or 0) if "@" in mod else at + (-1 if ":" in mod else 1) * int(pre or 1)
            if at < 0:
                raise ValueError("format arguments")
        elif d == "\n":
            if "@" in mod:
                out.append("\n")
            if ":" not in mod:
                while i < len(s) and s[i].isspace():
                    i += 1
        elif d == "{":
            j = s.index("~}", i)
            body, i = s[i:j], j + 2
            items = args[at:] if "@" in mod else args[at]
            at = len(args) if "@" in mod else at + 1
            if not isinstance(items, list) or "~{" in body or body.replace("~^", "").count("~") != 1:
                raise ValueError("format iteration")
            for k, x in enumerate(items):
                out.append(fmt(body.split("~^")[0] if k == len(items) - 1 else body.replace("~^", ""), [x]))
        else:
            raise ValueError("format directive ~" + d)
    return "".join(out)


def calls(text, name):
    """argument forms of each (fmt NAME ...) or (format nil NAME ...)"""
    for m in re.finditer(r"\((fmt|format\s+nil)\s+" + re.escape(name) + r"(?=[\s)])", text, re.I):
        f, _ = read(text, m.start())
        yield f[2:] if f[0].lower() == "fmt" else f[3:]


# ------------------------------------------------------------- integer formulas
class Unknown(Exception):
    pass


def arith(f, env, defs, depth=0):
    """the value of a formula over integers, truth values and association lists (as dicts)"""
    ev = lambda x, e=None: arith(x, env if e is None else e, defs, depth + 1)
    if depth > 60:
        raise Unknown()
    if isinstance(f, int):
        return f
    if isinstance(f, Sym):
        k = f.lower()
        if k in env:
            return env[k]
        if re.match(r"^[+-]?\d+\.?$", k):
            return int(k.rstrip("."))
        m = re.match(r"^#x([0-9a-f]+)$", k)
        if m:
            return int(m.group(1), 16)
        if k == "nil":
            return None
        if k == "t":
            return True
        if k.startswith(":"):
            return k
        if k in defs["defs"]:
            return ev(defs["defs"][k], {})
        raise Unknown(k)
    if not isinstance(f, list) or not f or not isinstance(f[0], Sym):
        raise Unknown()
    h, a = f[0].lower(), f[1:]
    truth = lambda v: v is not None and v is not False
    if h == "quote":
        return ev(a[0])
    if h == "if":
        return ev(a[1]) if truth(ev(a[0])) else ev(a[2]) if len(a) > 2 else None
    if h in ("when", "unless"):
        return ev(a[-1]) if truth(ev(a[0])) == (h == "when") else None
    if h == "cond":
        for c in a:
            v = ev(c[0])
            if truth(v):
                return ev(c[-1]) if len(c) > 1 else v
        return None
    if h in ("and", "or"):
        v = True if h == "and" else None
        for x in a:
            v = ev(x)
            if truth(v) != (h == "and"):
                return v
        return v
    if h in ("let", "let*"):
        e = dict(env)
        for b in a[0]:
            e[b[0].lower()] = ev(b[1], e if h == "let*" else None)
        return ev(a[-1], e)
    if h == "progn":
        return ev(a[-1])
    v = [ev(x) for x in a]
    if h in ("not", "null"):
        return True if not truth(v[0]) else None
    if h == "assoc" and isinstance(v[1], dict):
        return (v[0], v[1].get(v[0]))
    if h == "cdr" and isinstance(v[0], tuple):
        return v[0][1]
    if h in ("aget", "assoc-value") and len(v) == 2:
        d, k = (v[1], v[0]) if isinstance(v[1], dict) else (v[0], v[1])
        return d.get(k) if isinstance(d, dict) else None
    if h in defs["defuns"]:
        ps, body = defs["defuns"][h]
        if len(ps) == len(v):
            return ev(body, dict(zip(ps, v)))
    if not all(isinstance(x, int) for x in v):
        raise Unknown(h)
    if h == "ash" and len(v) == 2 and v[1] < 10000:
        return v[0] << v[1] if v[1] >= 0 else v[0] >> -v[1]
    if h == "logand":
        r = -1
        for x in v:
            r &= x
        return r
    if h in ("logior", "logxor"):
        r = 0
        for x in v:
            r = r | x if h == "logior" else r ^ x
        return r
    if h == "lognot":
        return ~v[0]
    if h == "logbitp":
        return True if v[1] >> v[0] & 1 else None
    if h == "logtest":
        return True if v[0] & v[1] else None
    if h == "1-":
        return v[0] - 1
    if h == "1+":
        return v[0] + 1
    if h == "+":
        return sum(v)
    if h == "*":
        r = 1
        for x in v:
            r *= x
        return r
    if h == "-":
        return -v[0] if len(v) == 1 else v[0] - sum(v[1:])
    if h == "expt" and 0 <= v[1] < 10000:
        return v[0] ** v[1]
    if h in ("=", "eql", "<", ">", "<=", ">=", "/=") and len(v) == 2:
        x, y = v
        return True if {"=": x == y, "eql": x == y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "/=": x != y}[h] else None
    if h == "zerop":
        return True if v[0] == 0 else None
    if h in ("plusp", "minusp"):
        return True if (v[0] > 0 if h == "plusp" else v[0] < 0) else None
    raise Unknown(h)
