"""Nujel source: reader, and an abstract interpreter used to find what the compiler's and assembler's templates emit.

The interpreter never runs the program: arguments are unknown forms (Unk) of which only the shape is given; every
condition that depends on an unknown is followed both ways (one memory of answers per path keeps them consistent), and
recursive calls of the summarised functions on an unknown form yield a summary token."""
import os
from .build import REPO, AnalysisBroken


class Sym(str):
    __slots__ = ()
    def __eq__(s, o): return isinstance(o, Sym) and str.__eq__(s, o)
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash(("sym", str(s)))


class Kw(str):
    __slots__ = ()
    def __eq__(s, o): return isinstance(o, Kw) and str.__eq__(s, o)
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash(("kw", str(s)))
    def __repr__(s): return ":" + str(s)


class L(list):
    """a list form, with the line it starts on; tail is the dotted tail, if any"""
    __slots__ = ("line", "file", "tail")
    def __init__(s, it=(), line=0, file=None): super().__init__(it); s.line = line; s.file = file; s.tail = None


class ReadError(Exception): pass


class Reader:
    STOP = set("()[]{}\"';`# \t\r\n")

    def __init__(s, txt, file): s.t = txt; s.i = 0; s.line = 1; s.file = file

    def adv(s, n=1):
        s.line += s.t.count("\n", s.i, s.i + n); s.i += n

    def ws(s):
        t = s.t
        while s.i < len(t):
            c = t[s.i]
            if c.isspace(): s.adv()
            elif c == ";":
                while s.i < len(t) and t[s.i] != "\n": s.i += 1
            elif t.startswith("#!", s.i):
                while s.i < len(t) and t[s.i] != "\n": s.i += 1
            elif t.startswith("#;", s.i):
                s.adv(2); s.ws(); s.read()
            elif t.startswith("#|", s.i):
                e = t.find("|#", s.i); s.adv((e + 2 if e >= 0 else len(t)) - s.i)
            else: return

    def all(s):
        out = []
        while True:
            s.ws()
            if s.i >= len(s.t): return out
            out.append(s.read())

    def lst(s, close, head=()):
        l = L(head, s.line, s.file)
        while True:
            s.ws()
            if s.i >= len(s.t): raise ReadError("%s:%d: unclosed list" % (s.file, l.line))
            c = s.t[s.i]
            if c == close: s.adv(); return l
            if c in ")]}": raise ReadError("%s:%d: wrong closing %s" % (s.file, s.line, c))
            if c == "." and s.i + 1 < len(s.t) and (s.t[s.i + 1].isspace() or s.t[s.i + 1] in "()"):
                s.adv(); s.ws(); l.tail = s.read(); continue
            v = s.read()
            l.append(v)

    def q(s, name, n):
        ln = s.line; s.adv(n); s.ws()
        return L([Sym(name), s.read()], ln, s.file)

    def tok(s):
        j = s.i
        while j < len(s.t) and s.t[j] not in s.STOP: j += 1
        r = s.t[s.i:j]; s.adv(j - s.i)
        return r

    def read(s):
        t = s.t; c = t[s.i]
        if c == "(": s.adv(); return s.lst(")")
        if c == "[": s.adv(); return s.lst("]", [Sym("array/new")])
        if c == "{": s.adv(); return s.lst("}", [Sym("tree/new")])
        if c == "'": return s.q("quote", 1)
        if c == "`": return s.q("quasiquote", 1)
        if t.startswith("~@", s.i): return s.q("unquote-splicing", 2)
        if c == "~": return s.q("unquote", 1)
        if c == '"':
            s.adv(); b = []
            while s.i < len(t) and t[s.i] != '"':
                if t[s.i] == "\\":
                    s.adv(); b.append({"n": "\n", "t": "\t", "r": "\r"}.get(t[s.i], t[s.i]))
                else: b.append(t[s.i])
                s.adv()
            s.adv()
            return "".join(b)
        if c == "#":
            n = t[s.i + 1:s.i + 2]
            if t.startswith("#@(", s.i): s.adv(3); return s.lst(")", [Sym("tree/new")])
            if t.startswith("##(", s.i): s.adv(3); return s.lst(")", [Sym("array/new")])
            if n == "\\":
                s.adv(3); s.tok(); return 0
            s.adv(2)
            w = s.tok()
            if n == "x": return s.num(w, 16)
            if n == "d": return s.num(w, 10)
            if n == "o": return s.num(w, 8)
            if n == "b": return s.num(w, 2)
            if n == "n": return None
            if n == "t": return True
            if n == "f": return False
            if n == "m": return Buf(w)
            raise ReadError("%s:%d: #%s" % (s.file, s.line, n))
        w = s.tok()
        if not w: raise ReadError("%s:%d: unexpected %r" % (s.file, s.line, c))
        if w[0].isdigit() or (w[0] in "-" and len(w) > 1 and w[1].isdigit()): return s.num(w, 10)
        if w[0] == ":" and len(w) > 1: return Kw(w[1:])
        if w[-1] == ":" and len(w) > 1: return Kw(w[:-1])
        return Sym(w)

    def num(s, w, base):
        w = w.replace("_", "").replace(",", "")
        if "." in w and base == 10: return float(w)
        try: return int(w or "0", base)
        except ValueError: raise ReadError("%s:%d: number %s" % (s.file, s.line, w))


class Buf(str): pass


def parse_file(path):
    p = path if os.path.isabs(path) else os.path.join(REPO, path)
    return Reader(open(p, encoding="utf-8", errors="replace").read(), os.path.relpath(p, REPO)).all()


def files(*dirs):
    out = []
    for d in dirs:
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            out += [os.path.join(r, f) for f in sorted(fs) if f.endswith(".nuj")]
    return out


# ---------------------------------------------------------------- abstract interpreter
class Pair:
    __slots__ = ("car", "cdr")
    def __init__(s, a, d): s.car = a; s.cdr = d
    def __repr__(s): return "(%s)" % " ".join(map(repr, items(s)))


class Unk:
    n = 0
    def __init__(s, tag="", kind=None):
        Unk.n += 1; s.id = Unk.n; s.tag = tag; s.kind = kind; s.type = None; s.nott = set(); s.eq = None; s.ne = set(); s.kids = {}; s.truth = None
    def __repr__(s): return "?%s" % s.tag


class Expr:
    """the code a recursive compilation of a form yields"""
    def __init__(s, src): s.src = src
    def __repr__(s): return "<code of %r>" % s.src


class SymInt:
    """an integer expression over unknown integers"""
    def __init__(s, op, *a): s.op = op; s.a = a
    def __repr__(s): return "(%s %s)" % (s.op, " ".join(map(repr, s.a)))


class Native:
    def __init__(s, name): s.name = name
    def __repr__(s): return "#<%s>" % s.name
    def __eq__(s, o): return isinstance(o, Native) and o.name == s.name
    def __hash__(s): return hash(("native", s.name))


class Fn:
    def __init__(s, name, params, body, env, macro=False): s.name = name; s.params = params; s.body = body; s.env = env; s.macro = macro
    def __repr__(s): return "#<fn %s>" % s.name


class Arr:
    def __init__(s, l=()): s.l = dict(enumerate(l)); s.n = len(s.l)
    def set(s, k, v):
        s.l[k if isinstance(k, int) else repr(k)] = v
        if isinstance(k, int): s.n = max(s.n, k + 1)
    def get(s, k): return s.l.get(k if isinstance(k, int) else repr(k))


class Map:
    def __init__(s): s.d = {}
    def set(s, k, v): s.d[repr(k)] = v
    def get(s, k): return s.d.get(repr(k))


class TypeOf:
    def __init__(s, v): s.v = v


class Env:
    def __init__(s, parent=None): s.v = {}; s.parent = parent
    def find(s, k):
        e = s
        while e is not None:
            if k in e.v: return e
            e = e.parent
        return None


class Thrown(Exception): pass
class Ret(Exception):
    def __init__(s, v): s.v = v
class TooDeep(Exception): pass


def items(p):
    out = []; n = 0
    while isinstance(p, Pair):
        out.append(p.car); p = p.cdr; n += 1
        if n > 5000: break
    if p is not None: out.append((".", p))
    return out


def mk(l, tail=None):
    r = tail
    for x in reversed(l): r = Pair(x, r)
    return r


def datum(x):
    """reader form -> abstract value"""
    if isinstance(x, L): return mk([datum(y) for y in x], datum(x.tail) if x.tail is not None else None)
    return x


def form(v):
    """abstract value -> form (for evaluating expansions)"""
    if isinstance(v, Pair):
        its = items(v); l = L()
        for y in its:
            if isinstance(y, tuple) and y and y[0] == ".": l.tail = form(y[1])
            else: l.append(form(y))
        return l
    return v


TYPES = ("nil", "symbol", "keyword", "bool", "pair", "lambda", "native-function", "int", "float", "array", "tree", "macro", "string", "buffer",
         "buffer-view", "bytecode-array", "environment", "file-handle", "exception", "map")


class Interp:
    summarise = ()

    def __init__(s, fls):
        s.g = Env(); s.top = {}; s.macros = {}
        s.where = {}
        for f in fls:
            for x in parse_file(f): s.toplevel(x)
        s.reset([])

    def toplevel(s, x):
        if not isinstance(x, L) or not x: return
        if x[0] == Sym("do"):
            for y in x[1:]: s.toplevel(y)
        elif x[0] in (Sym("def"), Sym("defn"), Sym("defmacro")) and len(x) > 2 and isinstance(x[1], Sym):
            s.top[x[1]] = x; s.where[x[1]] = (x.file, x.line)

    # --- choices
    def reset(s, choices):
        s.choices = list(choices); s.ci = 0; s.width = []; s.depth = 0; s.steps = 0; s.globals = {}

    def choose(s, n):
        if s.ci < len(s.choices): c = s.choices[s.ci]
        else: c = 0; s.choices.append(0)
        if s.ci < len(s.width): s.width[s.ci] = n
        else: s.width.append(n)
        s.ci += 1
        return c

    def paths(s, fn, limit=20000):
        """[(result or Thrown, choices)] over all answers to the unknown conditions"""
        out = []; ch = []
        while True:
            s.reset(ch)
            try: r = fn()
            except Thrown: r = Thrown
            out.append(r)
            if len(out) > limit: raise AnalysisBroken("too many paths through the compiler's templates")
            ch = s.choices[:s.ci]; w = s.width[:s.ci]
            while ch and ch[-1] + 1 >= w[len(ch) - 1]: ch.pop()
            if not ch: return out
            ch[-1] += 1

    # --- truth and equality with unknowns
    def truthy(s, v):
        if v is None or v is False: return False
        if isinstance(v, Unk):
            if v.type is not None: return v.type != "nil" if v.type != "bool" else s.tr(v)
            if v.eq is not None: return True
            t = s.tr(v)
            if t: v.nott.add("nil")
            return t
        if isinstance(v, SymInt): return True
        return True

    def tr(s, v):
        if v.truth is None: v.truth = s.choose(2) == 0
        return v.truth

    def typ(s, v):
        if v is None: return "nil"
        if v is True or v is False: return "bool"
        if isinstance(v, Sym): return "symbol"
        if isinstance(v, Kw): return "keyword"
        if isinstance(v, (int, SymInt)): return "int"
        if isinstance(v, float): return "float"
        if isinstance(v, Buf): return "buffer"
        if isinstance(v, str): return "string"
        if isinstance(v, Pair): return "pair"
        if isinstance(v, Fn): return "macro" if v.macro else "lambda"
        if isinstance(v, Native): return "native-function"
        if isinstance(v, Expr): return "pair"
        if isinstance(v, Arr): return "array"
        if isinstance(v, Map): return "tree"
        if isinstance(v, Unk): return v.type
        return None

    def istype(s, v, t):
        k = s.typ(v)
        if k is not None: return k == t
        if not isinstance(v, Unk): return False
        if t in v.nott: return False
        if v.eq is not None: return s.istype(v.eq, t)
        if v.kind == "pred": return t == "bool"
        if s.choose(2) == 0:
            v.type = t
            return True
        v.nott.add(t)
        return False

    def eq(s, a, b):
        if isinstance(b, TypeOf) and not isinstance(a, TypeOf): a, b = b, a
        if isinstance(a, TypeOf):
            if isinstance(b, Kw): return s.istype(a.v, str(b))
            return s.choose(2) == 0
        if isinstance(b, Unk) and not isinstance(a, Unk): a, b = b, a
        if isinstance(a, Unk):
            if a is b: return True
            if a.eq is not None: return s.eq(a.eq, b)
            if not isinstance(b, Unk):
                k = repr(b)
                if k in a.ne: return False
                tb = s.typ(b)
                if a.type is not None and tb is not None and a.type != tb: return False
                if tb in a.nott: return False
                if a.kind == "form" and isinstance(b, (Native, Fn)): return False
                if s.choose(2) == 0:
                    a.eq = b; a.type = tb
                    return True
                a.ne.add(k)
                return False
            return s.choose(2) == 0
        if isinstance(a, SymInt) or isinstance(b, SymInt): return s.choose(2) == 0
        if type(a) is type(b) or isinstance(a, (int, float)) and isinstance(b, (int, float)): return a == b
        return a is b

    # --- evaluation
    def ev(s, x, env):
        s.steps += 1
        if s.steps > 200000: raise AnalysisBroken("abstract evaluation does not end")
        if isinstance(x, Sym): return s.look(x, env)
        if not isinstance(x, L): return x
        if not x: return None
        h = x[0]
        if isinstance(h, Sym):
            m = getattr(s, "f_" + SPECIAL.get(str(h), "-"), None)
            e = env.find(h)
            if m is not None and (e is None or e is s.g): return m(x, env)
            if e is None and h in s.top and s.top[h][0] == Sym("defmacro"): return s.ev(s.expand(h, x), env)
            if e is not None and isinstance(e.v[h], Fn) and e.v[h].macro: return s.ev(s.expand(h, x), env)
            f = s.look(h, env)
            if isinstance(f, Fn) and f.macro: return s.ev(s.expand(h, x), env)
        elif isinstance(h, Kw):
            return s.method(h, [s.ev(a, env) for a in x[1:]])
        else: f = s.ev(h, env)
        return s.call(f, [s.ev(a, env) for a in x[1:]], str(h) if isinstance(h, Sym) else "?")

    def expand(s, name, x):
        f = s.look(name, s.g)
        return form(s.call(f, [datum(a) for a in x[1:]], str(name)))

    def look(s, k, env):
        e = env.find(k)
        if e is not None: return e.v[k]
        if k in s.globals: return s.globals[k]
        if k == Sym("otherwise"): return True
        if k in PRIM: return Native(str(k))
        if k in s.top:
            x = s.top[k]
            s.globals[k] = Native(str(k))
            if x[0] == Sym("def"): v = s.ev(x[2], Env(s.g))
            else: v = Fn(str(k), x[2], x[3:], s.g, x[0] == Sym("defmacro"))
            s.globals[k] = v
            return v
        return Native(str(k))

    def body(s, l, env):
        r = None
        for y in l: r = s.ev(y, env)
        return r

    def bind(s, f, args):
        e = Env(f.env); p = f.params; a = list(args)
        if isinstance(p, Sym): e.v[p] = mk(a); return e
        for k, n in enumerate(p): e.v[n] = a[k] if k < len(a) else None
        if p.tail is not None: e.v[p.tail] = mk(a[len(p):])
        return e

    def call(s, f, args, name="?"):
        if isinstance(f, Unk) and f.eq is not None: f = f.eq
        if isinstance(f, Kw): return s.method(f, args)
        if isinstance(f, Fn):
            r = s.summary(f, args)
            if r is not None: return r[0]
            s.depth += 1
            if s.depth > 120: raise AnalysisBroken("abstract evaluation too deep in %s" % f.name)
            try: return s.body(f.body, s.bind(f, args))
            except Ret as r: return r.v
            finally: s.depth -= 1
        if isinstance(f, Native): return s.native(f.name, args)
        return Unk("call " + name)

    def summary(s, f, args): return None

    # --- special forms
    def f_quote(s, x, env): return datum(x[1])

    def f_quasi(s, x, env): return s.qq(x[1], env)

    def qq(s, x, env):
        if not isinstance(x, L): return x
        if x and x[0] == Sym("unquote"): return s.ev(x[1], env)
        tail = s.qq(x.tail, env) if x.tail is not None else None
        out = []
        for k, y in enumerate(x):
            if isinstance(y, L) and y and y[0] == Sym("unquote-splicing"):
                v = s.ev(y[1], env)
                if isinstance(v, Pair) or v is None: out += items(v)
                elif k == len(x) - 1: return mk(out, v)
                else: out.append(Unk("spliced"))
            else: out.append(s.qq(y, env))
        return mk(out, tail)

    def f_def(s, x, env): env.v[x[1]] = v = s.ev(x[2], env) if len(x) > 2 else None; return v

    def f_defn(s, x, env):
        f = Fn(str(x[1]), x[2], x[3:], env, x[0] == Sym("defmacro")); env.v[x[1]] = f; return f

    def f_fn(s, x, env): return Fn("fn", x[1], x[2:], env)

    def f_set(s, x, env):
        if len(x) == 3 and isinstance(x[1], Sym):
            v = s.ev(x[2], env); e = env.find(x[1])
            if e is not None: e.v[x[1]] = v
            else: s.globals[x[1]] = v
            return v
        a = [s.ev(y, env) for y in x[1:]]
        if len(a) == 3 and isinstance(a[0], (Arr, Map)): a[0].set(a[1], a[2])
        return a[-1]

    def f_letstar(s, x, env): return s.body(x[1:], Env(env))

    def f_let(s, x, env):
        e = Env(env)
        for b in x[1]: e.v[b[0]] = s.ev(b[1], e)
        return s.body(x[2:], e)

    def f_do(s, x, env): return s.body(x[1:], env)

    def f_if(s, x, env):
        if s.truthy(s.ev(x[1], env)): return s.ev(x[2], env)
        return s.ev(x[3], env) if len(x) > 3 else None

    def f_ifnot(s, x, env):
        if not s.truthy(s.ev(x[1], env)): return s.ev(x[2], env)
        return s.ev(x[3], env) if len(x) > 3 else None

    def f_when(s, x, env): return s.body(x[2:], env) if s.truthy(s.ev(x[1], env)) else None
    def f_unless(s, x, env): return s.body(x[2:], env) if not s.truthy(s.ev(x[1], env)) else None

    def f_cond(s, x, env):
        for c in x[1:]:
            if s.truthy(s.ev(c[0], env)): return s.body(c[1:], env)
        return None

    def f_case(s, x, env):
        v = s.ev(x[1], env)
        for c in x[2:]:
            k = c[0]
            if k == Sym("otherwise"): return s.body(c[1:], env)
            ks = [k]
            if isinstance(k, L) and not (k and k[0] == Sym("quote")): ks = list(k)
            for y in ks:
                if s.eq(v, s.ev(y, env)): return s.body(c[1:], env)
        return None

    def f_and(s, x, env):
        v = True
        for y in x[1:]:
            v = s.ev(y, env)
            if not s.truthy(v): return v
        return v

    def f_or(s, x, env):
        v = False
        for y in x[1:]:
            v = s.ev(y, env)
            if s.truthy(v): return v
        return v

    def f_while(s, x, env):
        r = None; n = 0
        while True:
            c = s.ev(x[1], env)
            unk = isinstance(c, (Unk, SymInt))
            if unk and n >= 2: break
            if not s.truthy(c): break
            r = s.body(x[2:], env); n += 1
            if n > 500: raise AnalysisBroken("abstract evaluation: loop does not end")
        return r

    def f_throw(s, x, env): raise Thrown()

    def f_return(s, x, env): raise Ret(s.ev(x[1], env) if len(x) > 1 else None)

    def f_try(s, x, env):
        try: return s.body(x[2:], env)
        except Thrown:
            return s.call(s.ev(x[1], env), [Unk("exception")])

    def f_inc(s, x, env):
        d = s.ev(x[2], env) if len(x) > 2 else 1
        if str(x[0]) == "dec!": d = s.arith("-", 0, d)
        v = s.arith("+", s.look(x[1], env), d)
        return s.f_set(L([x[0], x[1], v]), env)

    def f_cdrb(s, x, env): return s.f_set(L([x[0], x[1], L([Sym("quote"), Q(s.cdr(s.look(x[1], env)))])]), env)

    def f_consb(s, x, env): return s.f_set(L([x[0], x[2], L([Sym("quote"), Q(Pair(s.ev(x[1], env), s.look(x[2], env)))])]), env)

    def f_arrow(s, x, env):
        v = x[1]
        for y in x[2:]:
            v = L([y[0], v] + list(y[1:])) if isinstance(y, L) else L([y, v])
        return s.ev(v, env)

    def f_dotimes(s, x, env):
        e = Env(env); b = x[1]; n = s.ev(b[1], env)
        if isinstance(n, int):
            for k in range(min(n, 300)):
                env.v[b[0]] = k; s.body(x[2:], env)
        else:
            if s.choose(2) == 1:
                env.v[b[0]] = u = Unk("index"); u.type = "int"; s.body(x[2:], env)
        return s.ev(b[2], env) if len(b) > 2 else None

    def f_doseq(s, x, env):
        b = x[1]; l = s.ev(b[1], env)
        its = items(l) if isinstance(l, Pair) or l is None else ([Unk("item")] if s.choose(2) else [])
        for v in its:
            env.v[b[0]] = v; s.body(x[2:], env)
        return s.ev(b[2], env) if len(b) > 2 else None

    # --- natives
    def car(s, v):
        if isinstance(v, Pair): return v.car
        if isinstance(v, Unk):
            if v.type is None and v.kind in ("form", None): return v.kids.setdefault("car", Unk(v.tag + ".car", "form"))
            if v.type == "pair": return v.kids.setdefault("car", Unk(v.tag + ".car", "form"))
            return None
        return None

    def cdr(s, v):
        if isinstance(v, Pair): return v.cdr
        if isinstance(v, Unk) and v.type in (None, "pair"):
            if v.tag.count(".cdr") > 2: return None       # lists of unknown length are followed for three elements
            return v.kids.setdefault("cdr", Unk(v.tag + ".cdr", "list"))
        return None

    def arith(s, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {"+": a + b, "-": a - b, "*": a * b}[op] if op in "+-*" else None
        return SymInt(op, a, b)

    def length(s, v):
        if v is None: return 0
        if isinstance(v, Arr): return v.n
        if isinstance(v, Pair):
            its = items(v)
            if its and isinstance(its[-1], tuple): return SymInt("length", v)
            return len(its)
        if isinstance(v, str): return len(v)
        if isinstance(v, Unk): return v.kids.setdefault("length", SymInt("length", v))
        return SymInt("length", v)

    def method(s, k, a):
        n = str(k)
        if not a: return Unk(":" + n)
        if n == "type-name": return TypeOf(a[0]) if s.typ(a[0]) is None else Kw(s.typ(a[0]))
        if n == "length": return s.length(a[0])
        if n == "alloc": return Arr()
        if n == "length!" and isinstance(a[0], Arr): a[0].n = a[1]; return a[0]
        if n == "meta" and isinstance(a[0], (Unk, Native)):
            key = ("meta", repr(a[1]) if len(a) > 1 else "")
            if isinstance(a[0], Native): return s.globals.setdefault((a[0].name,) + key, Unk(":meta"))
            return a[0].kids.setdefault(key, Unk(":meta"))
        r = Unk(":" + n)
        s.note(n, a, r)
        return r

    def note(s, n, a, r): pass

    def native(s, n, a):
        if n in ("car", "cdr") or (n[0] == "c" and n[-1] == "r" and len(n) > 2 and set(n[1:-1]) <= set("ad")):
            v = a[0] if a else None
            for c in reversed(n[1:-1]): v = s.car(v) if c == "a" else s.cdr(v)
            return v
        if n == "cons": return Pair(a[0], a[1] if len(a) > 1 else None)
        if n == "list": return mk(a)
        if n in ("=", "not="):
            r = s.eq(a[0], a[1]); return r if n == "=" else not r
        if n == "not": return not s.truthy(a[0])
        if n in ("<", "<=", ">", ">="):
            x, y = a[:2]
            if isinstance(x, (int, float)) and isinstance(y, (int, float)): return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[n]
            k = (n, repr(x), repr(y))
            return s.globals.setdefault(k, Unk("%s" % n, "pred"))
        if n in ("+", "-", "*", "bit-and", "bit-or", "bit-xor", "bit-shift-left", "bit-shift-right", "add/int", "inc/int"):
            if n == "inc/int": n, a = "+", [a[0], 1]
            if n == "add/int": n = "+"
            if all(isinstance(v, int) and not isinstance(v, bool) for v in a):
                r = a[0]
                for v in a[1:]:
                    r = {"+": lambda: r + v, "-": lambda: r - v, "*": lambda: r * v, "bit-and": lambda: r & v, "bit-or": lambda: r | v, "bit-xor": lambda: r ^ v,
                         "bit-shift-left": lambda: r << v, "bit-shift-right": lambda: r >> v}[n]()
                return r if len(a) > 1 or n != "-" else -a[0]
            r = a[0]
            if n == "-" and len(a) == 1: return SymInt("-", 0, r)
            for v in a[1:]: r = SymInt(n, r, v)
            return r
        if n == "bit-test?" and all(isinstance(v, int) for v in a[:2]): return bool(a[0] >> a[1] & 1)
        if n == "nil?": return s.istype(a[0], "nil")
        if n == "zero?": return s.eq(a[0], 0)
        if n.endswith("?") and n[:-1] in TYPES: return s.istype(a[0], n[:-1])
        if n == "last?":
            d = s.cdr(a[0])
            return not s.truthy(d)
        if n == "procedure?": return any(s.istype(a[0], t) for t in ("lambda", "native-function"))
        if n == "nreverse" or n == "reverse":
            if isinstance(a[0], Pair) or a[0] is None: return mk(items(a[0])[::-1])
        if n == "append" and all(isinstance(v, Pair) or v is None for v in a): return mk(sum((items(v) for v in a), []))
        if n == "gensym": return Sym("g%d" % s.steps)
        if n == "throw": raise Thrown()
        if n == "apply": return Unk("applied")
        if n == "length": return s.length(a[0])
        if n == "ref" and isinstance(a[0], (Arr, Map)): return a[0].get(a[1])
        if n == "tree/new": return Map()
        if n == "array/new": return Arr(a)
        if n == "map" and (isinstance(a[0], Pair) or a[0] is None): return mk([s.call(a[1], [v]) for v in items(a[0])])
        if n == "last-pair" and isinstance(a[0], Pair):
            v = a[0]
            while isinstance(v.cdr, Pair): v = v.cdr
            return v
        if n == "except-last-pair" and isinstance(a[0], Pair): return mk(items(a[0])[:-1])
        return s.other(n, a)

    def other(s, n, a): return Unk(n + "()", "pred" if n.endswith("?") else None)


PRIM = {Sym(x) for x in "car cdr cadr cddr caar cdar caddr cdddr cadddr cons list = not= not < <= > >= + - * / rem bit-and bit-or bit-xor bit-not bit-shift-left "
        "bit-shift-right add/int inc/int nil? zero? last? pair? symbol? keyword? procedure? nreverse reverse append gensym throw apply length ref tree/new array/new "
        "resolves? bit-test? map last-pair except-last-pair bytecode-eval* mutable-eval*".split()}


class Q(object):
    """an already evaluated value inside a form"""
    def __new__(cls, v): return v


SPECIAL = {"quote": "quote", "quasiquote": "quasi", "def": "def", "defn": "defn", "defmacro": "defn", "fn": "fn", "set!": "set", "let*": "letstar", "let": "let",
           "do": "do", "if": "if", "if-not": "ifnot", "when": "when", "when-not": "unless", "unless": "unless", "cond": "cond", "case": "case", "and": "and",
           "or": "or", "while": "while", "throw": "throw", "exception": "throw", "return": "return", "try": "try", "inc!": "inc", "dec!": "inc",
           "cdr!": "cdrb", "cons!": "consb", "->": "arrow", "dotimes": "dotimes", "doseq": "doseq"}
