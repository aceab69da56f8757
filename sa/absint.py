"""Path-sensitive abstract interpreter over the resolved program.  Values are constants, pointers (region, offset) and
opaque symbols; every load from memory nothing is known about yields a symbol that names the place it came from, so the
value of any expression is the set of places it was computed from.  Branches on opaque values are followed both ways,
remembering what the branch implies.  Nothing is executed: there are no inputs, only places and relations."""
from .build import AnalysisBroken
from .walk import width, sgn

COMM = {"add", "mul", "and", "or", "xor", "fadd", "fmul"}


FREL = {"false": "", "true": "legu", "oeq": "e", "ueq": "eu", "one": "lg", "une": "lgu", "olt": "l", "ult": "lu", "ole": "le", "ule": "leu", "ogt": "g", "ugt": "gu", "oge": "ge", "uge": "geu",
        "ord": "leg", "uno": "u"}



def fpc(text):
    """a floating-point constant"""
    try: text = repr(float(text))
    except ValueError: pass
    return S(("fp", text))


class S:
    """opaque value: operator and operands, hash-consed"""
    __slots__ = ("k", "w", "h")
    tab = {}

    def __new__(cls, k, w=64):
        key = (k, w)
        o = cls.tab.get(key)
        if o is None:
            o = object.__new__(cls); o.k = k; o.w = w; o.h = hash(key); cls.tab[key] = o
        return o

    def __hash__(s): return s.h
    def __eq__(s, o): return s is o
    def __repr__(s):
        k = s.k
        return str(k[0]) if len(k) == 1 else "%s(%s)" % (k[0], ", ".join(map(repr, k[1:])))


class Ptr:
    """address inside a region; a region is any hashable name (an S for memory reached through an opaque pointer)"""
    __slots__ = ("b", "o")

    def __init__(s, b, o=0): s.b = b; s.o = o
    def __hash__(s): return hash((s.b, s.o))
    def __eq__(s, o): return isinstance(o, Ptr) and o.b == s.b and o.o == s.o
    def __repr__(s): return "&%r%s" % (s.b, "+%d" % s.o if s.o else "")


class Cut(Exception):
    """the path is not followed further"""


class Done(Exception):
    def __init__(s, kind, v=None): s.kind = kind; s.v = v


class Agg(tuple): pass


class Path:
    def __init__(s, kind, ret, ev, st): s.kind = kind; s.ret = ret; s.ev = ev; s.st = st


class Abs:
    """subclass hooks: model(i, name, args) -> (value,) or None; init(region, off, size) -> value; into(name) -> bool; choicebias"""
    limit = 4000; visits = 3; steps = 60000; depth = 40; frames = 4000

    def __init__(s, P):
        s.P = P; s.m = P.m

    # --- path enumeration
    def reset(s, ch):
        s.ch = ch; s.ci = 0; s.wd = []
        s.mem = {}; s.sub = {}; s.ne = {}; s.cmp = {}; s.ev = []; s.nst = 0; s.fr = 0; s.seq = 0; s.iv = {}; s.gen = {}

    def choose(s, n):
        if s.ci < len(s.ch): c = s.ch[s.ci]
        else: c = 0; s.ch.append(0)
        s.wd.append(n)
        s.ci += 1
        return c

    def paths(s, fn):
        """every path of fn(): [Path]"""
        out = []; ch = []; n = 0
        while True:
            s.reset(ch)
            s.setup()
            try:
                r = fn(); out.append(Path("ret", r, s.ev, s.snap()))
            except Cut: pass
            except Done as d: out.append(Path(d.kind, d.v, s.ev, s.snap()))
            n += 1
            if n > s.limit: raise AnalysisBroken("too many paths in %s" % getattr(s, "name", "?"))
            ch = s.ch[:s.ci]; w = s.wd[:s.ci]
            while ch and ch[-1] + 1 >= w[len(ch) - 1]: ch.pop()
            if not ch: return out
            ch[-1] += 1

    def setup(s): pass
    def snap(s):
        return dict(mem=s.mem, sub=s.sub, ne=s.ne, cmp=s.cmp, iv=s.iv)

    # --- values
    def norm(s, v):
        n = 0
        while isinstance(v, S) and v in s.sub:
            v = s.sub[v]; n += 1
            if n > 50: raise AnalysisBroken("cyclic substitution")
        if isinstance(v, Ptr) and isinstance(v.b, S) and v.b in s.sub:
            b = s.norm(v.b)
            if isinstance(b, Ptr): return Ptr(b.b, b.o + v.o)
            if isinstance(b, int): return b + v.o
            return Ptr(b, v.o) if v.o else b
        return v

    def ptr(s, v):
        v = s.norm(v)
        if isinstance(v, Ptr): return v
        if isinstance(v, S): return Ptr(v, 0)
        if isinstance(v, int): return Ptr(("abs",), v)
        return None

    def val(s, F, o):
        k = o[0]
        if k == "int": return sgn(o[1], o[2] if len(o) > 2 else 64)
        if k == "ins": return s.norm(F.env.get(o[1]))
        if k == "arg": return s.norm(F.args[o[1]])
        if k == "glob": return Ptr(("g", o[1]), o[2])
        if k == "fn": return Ptr(("fn", o[1]), 0)
        if k == "fp": return fpc(o[1])
        if k == "undef": return S(("undef",))
        if k == "agg": return Agg((n, s.val(F, x)) for n, x in enumerate(o[1]))
        if k == "zero": return 0
        return None

    def ty(s, F, o):
        if o[0] == "int": return "i%d" % (o[2] if len(o) > 2 else 64)
        if o[0] == "ins": return F.f.ins[o[1]].ty
        if o[0] == "arg": return F.f.argtys[o[1]]
        return "ptr"

    # --- memory
    def store(s, p, v, n):
        if p is None: raise AnalysisBroken("store through an unknown pointer")
        d = s.mem.setdefault(p.b, {})
        for o in [o for o, (m, _) in d.items() if o < p.o + n and p.o < o + m and o != p.o]:
            m, w = d.pop(o)
            if isinstance(w, int):
                for k in range(m):
                    if not p.o <= o + k < p.o + n: d[o + k] = (1, sgn(w >> 8 * k, 8))
        old = d.get(p.o)
        if old and old[0] > n and isinstance(v, int) and isinstance(old[1], int):
            m = (1 << 8 * n) - 1
            d[p.o] = (old[0], sgn((old[1] & ~m) | (v & m), 8 * old[0])); return
        if old and old[0] > n and isinstance(old[1], int):
            for k in range(n, old[0]): d[p.o + k] = (1, sgn(old[1] >> 8 * k, 8))
        d[p.o] = (n, v)

    def load(s, p, n):
        if p is None: raise AnalysisBroken("load through an unknown pointer")
        d = s.mem.setdefault(p.b, {})
        c = d.get(p.o)
        if c:
            m, v = c
            v = s.norm(v)
            if m == n or v is None: return v
            if n < m: return s.un("trunc", v, 8 * n, 8 * m)
            if isinstance(v, int):
                r = 0; k = 0
                while k < n and (p.o + k) in d and isinstance(s.norm(d[p.o + k][1]), int):
                    m2, x = d[p.o + k]; r |= (s.norm(x) & ((1 << 8 * m2) - 1)) << 8 * k; k += m2
                if k == n: return sgn(r, 8 * n)
            return s.un("wide", v, 8 * n, 8 * m)
        for o, (m, v) in d.items():
            if o < p.o and p.o + n <= o + m:
                v = s.norm(v)
                if isinstance(v, int): return sgn(v >> 8 * (p.o - o), 8 * n)
                return S(("part", v, p.o - o), 8 * n)
        v = s.init(p.b, p.o, n)
        if v is None: v = S(("mem", p.b, p.o) + ((s.gen[p.b],) if p.b in s.gen else ()), 8 * n)
        d[p.o] = (n, v)
        return s.norm(v)

    def init(s, b, o, n):
        if isinstance(b, tuple) and b[0] == "al": return S(("undef",), 8 * n)
        if isinstance(b, tuple) and b[0] == "g": return s.ginit(b[1], o, n)
        return None

    def unwritten(s):
        """globals the program only ever reads: every use of their address is a load or the source of a copy"""
        if getattr(s.m, "_unwritten", None) is None:
            used = set()
            for f in s.m.defs.values():
                for i in f.instrs():
                    if i.op == "load": continue
                    ops = list(i.ops)
                    if i.op == "call" and (i.cname() or "").startswith("llvm.mem"): ops = ops[:1]
                    if i.op == "getelementptr" and i.base: ops.append(i.base)
                    for v, b in i.inc or []: ops.append(v)
                    for o in ops:
                        if o[0] == "glob": used.add(o[1])
            for g in s.m.globals.values(): s.refs(g["init"], used)
            s.m._unwritten = {g for g in s.m.globals if g not in used and not s.m.globals[g].get("decl")}
        return s.m._unwritten

    def refs(s, o, used):
        if o and o[0] == "glob": used.add(o[1])
        elif o and o[0] == "agg":
            for x in o[1]: s.refs(x, used)

    def ginit(s, name, o, n):
        g = s.m.globals.get(name)
        if not g or not (g.get("const") or name in s.unwritten()): return None
        i = g["init"]
        if i and i[0] == "str" and n == 1 and o < len(i[1]): return sgn(ord(i[1][o]), 8)
        if i and i[0] == "zero": return 0
        return None

    def copy(s, d, r, n):
        if d is None or r is None: raise AnalysisBroken("copy through an unknown pointer")
        src = s.mem.setdefault(r.b, {})
        have = [(o, c) for o, c in src.items() if r.o <= o and o + c[0] <= r.o + n]
        if n % 16 == 0:
            for k in range(0, n, 16):
                if not any(r.o + k <= o < r.o + k + 16 for o, c in have):
                    s.load(Ptr(r.b, r.o + k), 2); s.load(Ptr(r.b, r.o + k + 8), 8)
                elif not any(r.o + k + 8 == o for o, c in have) and not (isinstance(r.b, tuple) and r.b[0] == "al"): s.load(Ptr(r.b, r.o + k + 8), 8)
            have = [(o, c) for o, c in src.items() if r.o <= o and o + c[0] <= r.o + n]
        elif not have and n in (1, 2, 4, 8):
            s.load(r, n); have = [(r.o, src[r.o])]
        dd = s.mem.setdefault(d.b, {})
        for o in [o for o, (m, _) in dd.items() if o < d.o + n and d.o < o + m]: del dd[o]
        for o, c in have: dd[d.o + o - r.o] = c

    # --- operators
    def un(s, op, v, w, sw):
        if v is None: return None
        if isinstance(v, Ptr): return v if w == 64 else S((op, v), w)
        if isinstance(v, int):
            if op == "zext" or op == "wide": return v & ((1 << sw) - 1) if op == "zext" else sgn(v & ((1 << sw) - 1), w)
            if op == "sext": return v if sw > 1 else -(v & 1)
            return sgn(v, w) if w > 1 else v & 1
        if not isinstance(v, S): return S((op, repr(v)), w)
        if op == "trunc":
            if v.w == w: return v
            if v.k[0] in ("zext", "sext", "wide"):
                x = s.norm(v.k[1])
                if isinstance(x, S) and x.w == w: return x
                if isinstance(x, S) and x.w > w: return s.un("trunc", x, w, x.w)
                if isinstance(x, int): return s.un("trunc", x, w, 64)
            if v.k[0] in ("or", "and", "xor") and v.w == sw:
                x, y = (s.norm(s.un("trunc", z, w, sw)) for z in v.k[1:3])
                return s.bin(v.k[0], x, y, w)
            if v.k[0] == "shl" and isinstance(v.k[2], int) and v.k[2] >= w: return 0
        if op in ("zext", "sext") and v.w == w: return v
        if op == "sext" and v.k[0] == "trunc" and isinstance(v.k[1], S) and v.k[1].w == w:
            # nothing was cut off
            lo, hi = s.srange(v.k[1])
            if lo >= -(1 << (v.w - 1)) and hi < 1 << (v.w - 1): return v.k[1]
        return s.norm(S((op, v), w))

    def bin(s, op, a, b, w):
        if a is None or b is None: return None
        if isinstance(a, int) and isinstance(b, int):
            try:
                m = (1 << w) - 1
                r = {"or": lambda: a | b, "xor": lambda: a ^ b, "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                     "shl": lambda: a << b if 0 <= b < w else None, "lshr": lambda: (a & m) >> b if 0 <= b < w else None, "ashr": lambda: a >> b if 0 <= b < w else None,
                     "sdiv": lambda: int(a / b) if b else None, "udiv": lambda: (a & m) // (b & m) if b else None,
                     "srem": lambda: a - b * int(a / b) if b else None, "urem": lambda: (a & m) % (b & m) if b else None}[op]()
            except KeyError: r = None
            if r is not None: return r & 1 if w == 1 else sgn(r, w)
        if op == "sub" and isinstance(b, int): op, b = "add", -b
        if op == "add" and isinstance(a, int): a, b = b, a
        if op == "add" and isinstance(b, int):
            if b == 0: return a
            if isinstance(a, Ptr): return Ptr(a.b, a.o + b)
            if isinstance(a, S) and a.k[0] == "add" and isinstance(a.k[2], int): return s.bin("add", a.k[1], sgn(a.k[2] + b, w), w)
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b: return a.o - b.o
        if op == "sub" and a == b: return 0
        if op in ("and", "mul") and (a == 0 or b == 0): return 0
        if op == "or" and isinstance(b, int) and b == 0: return a
        if op == "or" and isinstance(a, int) and a == 0: return b
        if op in ("shl", "lshr", "ashr") and b == 0: return a
        if op == "mul" and b == 1: return a
        if op == "and" and a == b: return a
        if op == "and" and -1 in (a, b): return b if a == -1 else a
        if op == "and" and b in (1, -1) and w == 1: return a
        if op == "xor" and w == 1 and isinstance(b, int) and b & 1 and isinstance(a, S) and a.k[0] == "not": return a.k[1]
        if op in COMM and repr(b) < repr(a): a, b = b, a
        if op == "add" and isinstance(a, int): a, b = b, a
        return s.norm(S((op, a, b), w))

    def decide(s, pred, a, b, w):
        """truth of a comparison, choosing when it is open"""
        a = s.norm(a); b = s.norm(b)
        if a is None or b is None: raise AnalysisBroken("comparison of unknown values")
        if pred in ("eq", "ne"):
            r = s.same(a, b, w)
            return r if pred == "eq" else not r
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "u": a &= (1 << w) - 1; b &= (1 << w) - 1
            return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred[1:]]
        neg = False; q = pred[0] + "lt"
        if pred[1:] == "gt": a, b = b, a
        elif pred[1:] == "ge": neg = True
        elif pred[1:] == "le": a, b = b, a; neg = True
        if a == b: return neg
        r = s.order(q, a, b, w)
        return r != neg

    def order(s, q, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b: return a.o < b.o
        if q == "slt":
            for x, y, n in ((a, b, False), (b, a, True)):
                while isinstance(x, S) and x.k[0] == "sext" and isinstance(x.k[1], S) and y == 0: x = s.norm(x.k[1])
                if isinstance(x, S) and x.k[0] == "sub" and y == 0 and s.nowrap(s.norm(x.k[1]), s.norm(x.k[2]), x.w):
                    p, r = s.norm(x.k[1]), s.norm(x.k[2])
                    return s.decide("slt", p, r, x.w) if not n else s.decide("slt", r, p, x.w)
            if isinstance(a, S) and isinstance(b, S) and a.k[0] == b.k[0] == "zext" and a.k[1].w == b.k[1].w: return s.decide("ult", a.k[1], b.k[1], a.k[1].w)
        if q == "ult" and isinstance(a, S) and isinstance(b, S) and a.k[0] == b.k[0] == "zext" and a.k[1].w == b.k[1].w: return s.decide("ult", a.k[1], b.k[1], a.k[1].w)
        k = (q, a, b)
        if k in s.cmp: return s.cmp[k]
        if (q, b, a) in s.cmp and s.cmp[(q, b, a)]: return False
        if s.cmp.get((q, b, a)) is False and (b in s.ne.get(a, ()) or a in s.ne.get(b, ())): return True
        r = s.known(q, a, b, w)
        if r is None:
            if s.cmp.get((q, b, a)): return False
            r = s.choose(2) == 0
            s.learn(q, a, b, w, r)
        s.cmp[k] = r
        return r

    def nowrap(s, x, y, w):
        """x - y does not overflow in w bits"""
        (a, b), (c, d) = s.rng(x, "s", w), s.rng(y, "s", w)
        return a - d >= -(1 << (w - 1)) and b - c < 1 << (w - 1)

    def rng(s, x, q, w):
        if isinstance(x, int):
            if q[0] == "u": x &= (1 << w) - 1
            return x, x
        full = (0, (1 << w) - 1) if q[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        lo, hi = s.iv.get((q[0], x), full)
        if isinstance(x, S) and x.k[0] == "zext" and isinstance(x.k[1], S): lo = max(lo, 0); hi = min(hi, (1 << x.k[1].w) - 1)
        return lo, hi

    def srange(s, x):
        """signed range of an opaque value, also through what is known of the value plus a constant"""
        lo, hi = s.rng(x, "s", x.w)
        for (q, y), (l, h) in s.iv.items():
            if q == "u" and y is not x and isinstance(y, S) and y.k[0] == "add" and y.k[1] is x and isinstance(y.k[2], int) and y.w == x.w:
                if l - y.k[2] >= -(1 << (x.w - 1)) and h - y.k[2] < 1 << (x.w - 1): lo = max(lo, l - y.k[2]); hi = min(hi, h - y.k[2])
        return lo, hi

    def known(s, q, a, b, w):
        (al, ah), (bl, bh) = s.rng(a, q, w), s.rng(b, q, w)
        if ah < bl: return True
        if al >= bh: return False
        return None

    def learn(s, q, a, b, w, r):
        (al, ah), (bl, bh) = s.rng(a, q, w), s.rng(b, q, w)
        if r: ah = min(ah, bh - 1); bl = max(bl, al + 1)
        else: al = max(al, bl); bh = min(bh, ah)
        if not isinstance(a, int): s.setiv(q, a, al, ah)
        if not isinstance(b, int): s.setiv(q, b, bl, bh)

    def setiv(s, q, x, lo, hi):
        if lo > hi: raise Cut()
        s.iv[(q[0], x)] = (lo, hi)
        if lo == hi and isinstance(x, S) and not (q[0] == "u" and lo >> 63): s.sub[x] = lo

    def same(s, a, b, w):
        if a == b: return True
        if isinstance(a, int) and isinstance(b, int): return (a ^ b) & ((1 << w) - 1) == 0
        if isinstance(a, int): a, b = b, a
        r = s.distinct(a, b)
        if r: return False
        if isinstance(b, int) and isinstance(a, S):
            for q in "us":
                if (q, a) in s.iv:
                    lo, hi = s.iv[(q, a)]
                    x = b & ((1 << w) - 1) if q == "u" else b
                    if not lo <= x <= hi: return False
        if b in s.ne.get(a, ()) or a in s.ne.get(b, ()): return False
        for q in ("slt", "ult"):
            if s.cmp.get((q, a, b)) or s.cmp.get((q, b, a)): return False
            if s.cmp.get((q, a, b)) is False and s.cmp.get((q, b, a)) is False: return True
        # equality of something extended with a constant is equality of the thing itself
        if isinstance(a, S) and isinstance(b, int) and a.k[0] in ("zext", "sext", "wide") and isinstance(a.k[1], S):
            x = a.k[1]
            t = sgn(b, x.w)
            if a.k[0] != "wide" and s.un(a.k[0], t, a.w, x.w) != b: return False
            return s.same(s.norm(x), t, x.w)
        if isinstance(a, S) and isinstance(b, S) and a.k[0] == b.k[0] and a.k[0] in ("zext", "sext") and isinstance(a.k[1], S) and isinstance(b.k[1], S) and a.k[1].w == b.k[1].w:
            return s.same(s.norm(a.k[1]), s.norm(b.k[1]), a.k[1].w)
        if isinstance(a, S) and isinstance(b, int) and b == 0 and a.k[0] == "sub": return s.same(s.norm(a.k[1]), s.norm(a.k[2]), w)
        if isinstance(a, S) and isinstance(b, int) and a.k[0] == "add" and isinstance(a.k[2], int): return s.same(s.norm(a.k[1]), sgn(b - a.k[2], w), w)
        r = s.choose(2) == 0
        if r:
            if isinstance(a, S) and not s.occurs(a, b): s.sub[a] = b
            elif isinstance(b, S) and not s.occurs(b, a): s.sub[b] = a
        else:
            s.ne.setdefault(a, set()).add(b)
        return r

    def occurs(s, a, b):
        if a == b: return True
        if isinstance(b, S): return any(s.occurs(a, x) for x in b.k[1:])
        if isinstance(b, Ptr): return s.occurs(a, b.b)
        return False

    def distinct(s, a, b):
        """different for certain"""
        if isinstance(a, Ptr) and isinstance(b, int): return not (isinstance(a.b, S) and a.o == 0)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.b == b.b: return a.o != b.o
            return not isinstance(a.b, S) and not isinstance(b.b, S)
        if isinstance(a, Ptr) and isinstance(b, S): a, b = b, a
        if isinstance(a, S) and isinstance(b, Ptr):
            return isinstance(b.b, tuple) and b.b and b.b[0] in ("al", "new")       # fresh memory is not what was there before
        return False

    def truth(s, v):
        v = s.norm(v)
        if isinstance(v, int): return bool(v & 1)
        if v is None: raise AnalysisBroken("unknown condition")
        if isinstance(v, S) and v.k[0] == "icmp": return s.decide(v.k[1], v.k[2], v.k[3], v.k[4])
        if isinstance(v, S) and v.k[0] == "fcmp": return s.frel(v.k[2], v.k[3]) in FREL[v.k[1]]
        if isinstance(v, S) and v.k[0].startswith("llvm.is.fpclass") and isinstance(v.k[2], int):
            x = s.norm(v.k[1]); m = v.k[2]
            if m & 507 == 3 and s.frel(x, x) == "u": return True
            if m & 507 == 3: return bool(m & 516) and s.fclass(x, m & 516)
            if m & 507 == 0: return s.frel(x, x) != "u" and s.fclass(x, m & 516)
            if m & 507 == 504: return s.frel(x, x) != "u" and not s.fclass(x, 516 & ~m)
        if isinstance(v, S) and v.k[0] == "not": return not s.truth(v.k[1])
        if isinstance(v, S) and v.k[0] == "and" and v.w == 1: return s.truth(v.k[1]) and s.truth(v.k[2])
        if isinstance(v, S) and v.k[0] == "or" and v.w == 1: return s.truth(v.k[1]) or s.truth(v.k[2])
        r = s.choose(2) == 0
        s.sub[v] = int(r)
        return r

    def frel(s, a, b):
        """relation of two floats on this path: less, equal, greater or unordered"""
        a = s.norm(a); b = s.norm(b)
        if isinstance(a, S) and isinstance(b, S) and a.k[0] == "fp" == b.k[0]:
            x, y = float(a.k[1]), float(b.k[1])
            return "u" if x != x or y != y else "l" if x < y else "g" if x > y else "e"
        if repr(b) < repr(a): return {"l": "g", "g": "l"}.get(s.frel(b, a), s.frel(b, a))
        k = ("f", a, b)
        if k in s.cmp: return s.cmp[k]
        for x, y, f in ((a, b, 1), (b, a, -1)):
            if isinstance(y, S) and y.k[0] == "fp" and abs(float(y.k[1])) == float("inf") and s.finite(x): return "l" if (float(y.k[1]) > 0) == (f > 0) else "g"
        na = s.isnan(a) or s.isnan(b)
        opts = "e" if a == b else "leg"
        if na is not False: opts += "u"
        for x, y in ((a, b), (b, a)):
            if na is None and any(r == "u" for kk, r in s.cmp.items() if kk[0] == "f" and kk[1] == x == kk[2]): opts = "u"
        if na is True: opts = "u"
        r = opts[s.choose(len(opts))] if len(opts) > 1 else opts
        s.cmp[k] = r
        if r == "u" and a != b:                                # one of them is no number
            pass
        elif r != "u":
            for x in (a, b): s.cmp[("f", x, x)] = "e"
        return r

    def fclass(s, x, m):
        """one of the infinities in the mask"""
        if not m or s.finite(x): return False
        if m == 516: return s.frel(S(("llvm.fabs.f64", x)), fpc("+Inf")) == "e"
        return s.frel(x, fpc("+Inf" if m == 512 else "-Inf")) == "e"

    def finite(s, a):
        """the float is finite for certain"""
        if isinstance(a, S) and a.k[0] in ("sitofp", "uitofp"): return True
        if isinstance(a, S) and a.k[0] == "fp": return abs(float(a.k[1])) < float("inf")
        if isinstance(a, S) and (a.k[0].startswith("llvm.fabs") or a.k[0] in ("fneg", "fpext")): return s.finite(s.norm(a.k[1]))
        return False

    def isnan(s, a):
        """True or False when known, None otherwise"""
        if isinstance(a, S) and a.k[0] == "fp": return float(a.k[1]) != float(a.k[1])
        if isinstance(a, S) and a.k[0] in ("sitofp", "uitofp"): return False
        if isinstance(a, S) and a.k[0].startswith("llvm.fabs") or isinstance(a, S) and a.k[0] in ("fneg", "fpext"): return s.isnan(s.norm(a.k[1]))
        r = s.cmp.get(("f", a, a))
        return None if r is None else r == "u"

    # --- linear expressions
    def lin(s, v, out=None, c=1):
        out = {} if out is None else out
        v = s.norm(v)
        if isinstance(v, int): out[1] = out.get(1, 0) + c * v
        elif isinstance(v, Ptr): s.lin(v.b, out, c); out[1] = out.get(1, 0) + c * v.o
        elif isinstance(v, S) and v.k[0] in ("zext", "sext", "trunc", "wide", "freeze"): s.lin(v.k[1], out, c)
        elif isinstance(v, S) and v.k[0] == "idx": s.lin(v.k[1], out, c); s.lin(v.k[2], out, c * v.k[3])
        elif isinstance(v, S) and v.k[0] == "add": s.lin(v.k[1], out, c); s.lin(v.k[2], out, c)
        elif isinstance(v, S) and v.k[0] == "sub": s.lin(v.k[1], out, c); s.lin(v.k[2], out, -c)
        elif isinstance(v, S) and v.k[0] == "mul" and isinstance(s.norm(v.k[2]), int): s.lin(v.k[1], out, c * s.norm(v.k[2]))
        elif isinstance(v, S) and v.k[0] == "mul" and isinstance(s.norm(v.k[1]), int): s.lin(v.k[2], out, c * s.norm(v.k[1]))
        elif isinstance(v, S) and v.k[0] == "shl" and isinstance(s.norm(v.k[2]), int): s.lin(v.k[1], out, c << s.norm(v.k[2]))
        else: out[v] = out.get(v, 0) + c
        return out

    def rng_lin(s, d):
        lo = hi = 0
        for k, x in d.items():
            l, h = (1, 1) if k == 1 else s.rng(s.norm(k), "s", k.w if isinstance(k, S) else 64)
            lo += x * (l if x > 0 else h); hi += x * (h if x > 0 else l)
        return lo, hi

    def diff(s, a, b):
        d = s.lin(a); 
        for k, x in s.lin(b).items(): d[k] = d.get(k, 0) - x
        return {k: x for k, x in d.items() if x}

    def minus(s, d, v, c=1):
        d = dict(d)
        for k, x in s.lin(v).items(): d[k] = d.get(k, 0) - c * x
        return {k: x for k, x in d.items() if x}

    # --- execution of a frame
    def call(s, name, args):
        f = s.m.defs.get(name)
        if f is None: raise AnalysisBroken("function %s not found" % name)
        return s.frame(f, args, 0, None, {}, ())

    def frame(s, f, args, start, prev, env, stop):
        F = Frame(f, args); F.env.update(env)
        s.fr += 1; F.n = s.fr
        if s.fr > s.frames: raise Cut()
        s.dep = getattr(s, "dep", 0) + 1
        try:
            if s.dep > s.depth: raise Cut()
            b = start
            seen = {}
            while True:
                seen[b] = seen.get(b, 0) + 1
                if seen[b] > s.visits: raise Cut()
                new = {}; ret = None
                for i in f.blocks[b]:
                    s.nst += 1
                    if i.op == "phi":
                        v = [x for x, pb in i.inc if pb == prev]
                        if v: new[i.id] = s.val(F, v[0])
                        elif i.id in F.env: new[i.id] = F.env[i.id]
                        continue
                    if new: F.env.update(new); new = {}
                    if i.op in ("br", "switch", "ret", "unreachable", "indirectbr"): break
                    v = s.step(F, i)
                    F.env[i.id] = v
                F.env.update(new)
                if s.nst > s.steps: raise AnalysisBroken("abstract interpretation of %s does not end" % f.name)
                t = f.blocks[b][-1]
                if t.op == "ret": return s.val(F, t.ops[0]) if t.ops else None
                if t.op == "unreachable": raise Done("exit")
                if t.op == "br":
                    if len(t.ops) == 1: n = t.ops[0][1]
                    else: n = t.ops[2][1] if s.truth(s.val(F, t.ops[0])) else t.ops[1][1]
                elif t.op == "switch":
                    c = s.val(F, t.ops[0]); w = width(s.ty(F, t.ops[0])); n = None
                    if isinstance(c, int): n = ([d for k, d in t.cases if sgn(k, w) == c] or [t.default])[0]
                    else:
                        for k, d in t.cases:
                            if s.same(s.norm(c), sgn(k, w), w): n = d; break
                        else: n = t.default
                else: raise Done("indirect", (b, F))
                if n in stop: raise Done("stop", (b, n, F))
                prev, b = b, n
        finally: s.dep -= 1

    def step(s, F, i):
        op = i.op; w = width(i.ty)
        if op == "alloca":
            return Ptr(("al", F.n, i.id), 0)
        if op == "load":
            p = s.ptr(s.val(F, i.ops[0]))
            return s.onload(F, i, p, s.load(p, s.size(i.ty)))
        if op == "store":
            v = s.val(F, i.ops[0]); p = s.ptr(s.val(F, i.ops[1]))
            n = s.size(s.ty(F, i.ops[0])) if i.ops[0][0] in ("ins", "arg", "int") else 8
            s.onstore(F, i, p, v, n)
            s.store(p, v, n); return None
        if op == "getelementptr":
            p = s.ptr(s.val(F, i.base))
            if p is None or i.off is None: raise AnalysisBroken("unknown address at %s" % i.where())
            o = p.o + i.off; b = p.b
            for v, c in i.var:
                x = s.val(F, v)
                if isinstance(x, int): o += x * c
                else:
                    while isinstance(x, S) and x.k[0] in ("zext", "sext"): x = s.norm(x.k[1])
                    if isinstance(x, int): o += x * c
                    else:
                        if isinstance(x, S) and x.k[0] == "add" and isinstance(x.k[2], int): o += x.k[2] * c; x = x.k[1]
                        b = S(("idx", b, x, c))
            r = Ptr(b, o)
            return b if isinstance(b, S) and o == 0 else r
        if op in ("bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast"): return s.val(F, i.ops[0])
        if op in ("zext", "sext", "trunc"):
            v = s.val(F, i.ops[0]); sw = width(s.ty(F, i.ops[0]))
            if isinstance(v, S) and sw == 1: v = int(s.truth(v))
            return s.un(op, v, w, sw)
        if op == "icmp":
            a, b = s.val(F, i.ops[0]), s.val(F, i.ops[1]); ow = width(s.ty(F, i.ops[0]))
            if isinstance(a, S) and isinstance(b, int) and a.w == 1:
                pass
            return s.cmpv(i.pred, a, b, ow)
        if op == "fcmp":
            a, b = s.val(F, i.ops[0]), s.val(F, i.ops[1])
            return S(("fcmp", i.pred, a, b), 1)
        if op == "select":
            return s.val(F, i.ops[1]) if s.truth(s.val(F, i.ops[0])) else s.val(F, i.ops[2])
        if op == "insertvalue":
            a = s.val(F, i.ops[0])
            d = dict(a) if isinstance(a, Agg) else {}
            d[i.ix] = s.val(F, i.ops[1])
            return Agg(sorted(d.items()))
        if op == "extractvalue":
            a = s.val(F, i.ops[0])
            return dict(a).get(i.ix) if isinstance(a, Agg) else S(("part", a, i.ix), w)
        if op in ("call", "invoke"): return s.docall(F, i)
        if op == "xor" and w == 1:
            a, b = s.val(F, i.ops[0]), s.val(F, i.ops[1])
            if b in (1, -1) and isinstance(a, S): return s.norm(S(("not", a), 1))
        if op in ("fneg", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            a = s.norm(s.val(F, i.ops[0]))
            if op == "sitofp" and isinstance(a, int) and abs(a) < 1 << 53 and i.ty == "double": return fpc(repr(float(a)))
            return s.norm(S((op, a), w))
        a = [s.val(F, o) for o in i.ops]
        if len(a) == 2: return s.bin(op, a[0], a[1], w)
        return S((op,) + tuple(a), w)

    def cmpv(s, pred, a, b, w):
        """a comparison is kept open until it is branched on, unless it is already decided"""
        if a is None or b is None: return S(("any", s.fresh()), 1)
        if isinstance(a, int) and isinstance(b, int) or isinstance(a, Ptr) and isinstance(b, Ptr) and (a.b == b.b or pred in ("eq", "ne")):
            return int(s.decide(pred, a, b, w))
        return S(("icmp", pred, a, b, w), 1)

    def fresh(s): s.seq += 1; return s.seq

    def size(s, ty):
        if ty == "ptr" or ty == "double": return 8
        if ty == "float": return 4
        if ty and ty[0] == "i" and ty[1:].isdigit(): return max(1, int(ty[1:]) // 8)
        return 16

    def onload(s, F, i, p, v): return v
    def onstore(s, F, i, p, v, n): pass

    def docall(s, F, i):
        n = i.cname()
        args = [s.val(F, o) for o in i.ops]
        if n is None:
            c = s.val(F, i.callee)
            if isinstance(c, Ptr) and isinstance(c.b, tuple) and c.b[0] == "fn": n = c.b[1]
            else:
                r = s.indirect(F, i, c, args)
                return r
        if n.startswith("llvm."):
            if n.startswith("llvm.expect") or n.startswith("llvm.launder") or n.startswith("llvm.assume"): return args[0]
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                c = args[2]
                if isinstance(c, int): s.copy(s.ptr(args[0]), s.ptr(args[1]), c) if c != 6 else None
                else: s.ev.append(("copy", args[0], args[1], c, i)); s.havoc(args[0])
                return None
            if n.startswith("llvm.memset"):
                p = s.ptr(args[0])
                if isinstance(args[2], int) and args[2] <= 65536 and args[1] == 0: s.zero(p, args[2])
                else: s.ev.append(("set", args[0], args[1], args[2], i)); s.havoc(args[0])
                return None
            if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.stack", "llvm.trap", "llvm.va_")): return None
            if n[5:9] in ("umin", "umax", "smin", "smax") and all(isinstance(a, int) for a in args[:2]):
                w = width(i.ty); u = (lambda a: a & ((1 << w) - 1)) if n[5] == "u" else (lambda a: a)
                return (min if n[6:9] == "min" else max)(args[:2], key=u)
            return s.norm(S((n,) + tuple(args), width(i.ty)))
        r = s.model(F, i, n, args)
        if r is not None: return r[0]
        f = s.m.defs.get(n)
        if f is not None and s.into(n):
            return s.frame(f, args, 0, None, {}, ())
        s.ev.append(("call", n, args, i))
        if s.m.fns.get(n) is not None and s.m.fns[n].noreturn: raise Done("exit", n)
        for a in args:
            if isinstance(a, Ptr) and isinstance(a.b, tuple) and a.b[0] == "al": s.havoc(a, n)
        return s.result(n, i)

    def result(s, n, i):
        k = s.fresh()
        if i.ty and i.ty.startswith("{"):
            return Agg(((0, S(("ret", n, k, 0), 16)), (1, S(("ret", n, k, 1), 64))))
        return S(("ret", n, k), width(i.ty)) if i.ty != "void" else None

    def zero(s, p, n):
        d = s.mem.setdefault(p.b, {})
        for o in [o for o, (m, _) in d.items() if o < p.o + n and p.o < o + m]: del d[o]
        k = 0
        while k < n:
            z = 8 if n - k >= 8 and (p.o + k) % 8 == 0 else 1
            d[p.o + k] = (z, 0); k += z

    def havoc(s, v, callee=None):
        """the memory may have been changed"""
        p = s.ptr(v)
        if p is not None:
            s.mem[p.b] = {}
            if not (isinstance(p.b, tuple) and p.b[0] == "al"): s.gen[p.b] = s.fresh()

    def indirect(s, F, i, c, args):
        s.ev.append(("icall", c, args, i))
        return s.result("*", i)

    def model(s, F, i, n, args): return None
    def into(s, n): return False


class Frame:
    __slots__ = ("f", "args", "env", "n")

    def __init__(s, f, args): s.f = f; s.args = args; s.env = {}; s.n = 0
