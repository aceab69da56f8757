"""Values computed by instructions and by native functions, as expressions over the same operands."""
from .vma import *

# functions whose result is determined by their arguments and the memory they read, taken as opaque
PURE_LIBC = {"fmod", "pow", "strnlen", "strlen", "strcmp", "floor", "ceil", "round", "sqrt", "cbrt", "sin", "cos", "tan", "atan2", "fabs"}


class Ops(VMA):
    """one instruction or native function at a time, on operands given as (tag, payload)"""
    visits = 6; cap = 4

    def __init__(s, vm, inline=()):
        super().__init__(vm)
        s.inline = set(inline)

    def into(s, n): return n in s.inline

    def isnan(s, a):
        """payloads are finite (C07)"""
        if isinstance(a, S) and a.k[0] in ("opnd", "mem"): return False
        return super().isnan(a)

    def finite(s, a):
        if isinstance(a, S) and a.k[0] in ("opnd", "mem"): return True
        return super().finite(a)

    def model(s, F, i, n, args):
        if n in s.exc: s.ev.append(("exc", n)); return (Agg(((0, s.T["ltException"]), (1, S(("exception", n) + tuple(args))))),)
        if n == "memcmp": return (s.memcmp(*args),)
        r = super().model(F, i, n, args)
        if r is not None: return r
        if n in s.m.defs and s.into(n): return None
        if n in PURE_LIBC or n in s.m.defs:
            if n not in PURE_LIBC: s.ev.append(("call", n, tuple(args)))
            if i.ty and i.ty.startswith("{"): return (Agg(((0, s.norm(S(("res", n, 0) + tuple(args), 16))), (1, s.norm(S(("res", n, 1) + tuple(args), 64))))),)
            return (s.norm(S(("res", n) + tuple(args), width(i.ty))) if i.ty != "void" else None,)
        return None

    def memcmp(s, a, b, n):
        a, b = s.ptr(a), s.ptr(b); k = 0
        while s.decide("ult", k, n, 64):
            if k >= s.cap: raise Cut()
            x, y = s.load(Ptr(a.b, a.o + k), 1), s.load(Ptr(b.b, b.o + k), 1)
            if not s.same(x, y, 8): return -1 if s.decide("ult", x, y, 8) else 1
            k += 1
        return 0

    @property
    def exc(s):
        if not hasattr(s, "_exc"):
            s._exc = {n for n in s.m.defs if n.startswith("lValException")}
        return s._exc

    def operand(s, k, tag=None, val=None):
        return (S(("opnd", k, "tag"), 16) if tag is None else tag, S(("opnd", k, "val"), 64) if val is None else val)

    def op(s, code, vals):
        """(kind, tag, payload, height change) of one instruction on the operands"""
        o = s.fo["lThread"]; c = s.ctx
        s.store(Ptr(c.b, c.o + o["sp"]), SP0, 4); s.store(Ptr(c.b, c.o + o["csp"]), CSP0, 4)
        n = len(vals)
        for k, (t, v) in enumerate(vals): s.slot(k - n + 1, t, v)
        e = len(s.ev)
        kind, out, _ = s.run(code, [])
        if kind == "next": 
            sp = s.sp(); t, v = s.lval(Ptr(("VS",), sp * 16))
            return "value", s.norm(t), s.norm(v), sp - SP0 + n
        return kind, None, None, None

    def native(s, name, vals):
        f = s.m.defs[name]
        args = [x for v in vals for x in v]
        r = s.frame(f, args, 0, None, {}, ())
        if not isinstance(r, Agg): raise AnalysisBroken("%s does not return a value" % name)
        d = dict(r); t, v = s.norm(d.get(0)), s.norm(d.get(1))
        if s.same(t, s.T["ltException"], 16): return "throw", None, None
        return "value", t, v

    def known_tags(s, tags, t):
        """split on the type of an operand"""
        for x in tags:
            if s.same(s.norm(t), s.T[x], 16): return x
        return None


def eq_value(A, a, b, depth=0):
    (ta, va), (tb, vb) = a, b
    ta, tb = A.norm(ta), A.norm(tb)
    if ta != tb:
        if not (isinstance(ta, S) or isinstance(tb, S)) : return False
        return False
    if ta == A.T["ltNil"]: return True
    if ta == A.T["ltBool"]:
        x, y = A.norm(va), A.norm(vb)
        if isinstance(x, S): x = int(A.truth(S(("icmp", "ne", A.un("trunc", x, 8, 64), 0, 8), 1)))
        if isinstance(y, S): y = int(A.truth(S(("icmp", "ne", A.un("trunc", y, 8, 64), 0, 8), 1)))
        return (x & 255 != 0) == (y & 255 != 0)
    x, y = A.norm(va), A.norm(vb)
    if x == y: return True
    if ta == A.T["ltPair"] and all(isinstance(z, Ptr) and isinstance(z.b, tuple) and z.b[0] == "new" for z in (x, y)):
        # new cells with the same contents
        return depth < 8 and all(eq_value(A, A.lval(Ptr(x.b, x.o + A.fo["lPair"][f])), A.lval(Ptr(y.b, y.o + A.fo["lPair"][f])), depth + 1) for f in ("car", "cdr"))
    return False


def table(C):
    """operations the compiler turns into an instruction: {(name, number of operands): opcode}"""
    from .emit import flatten
    from .nuj import Unk, Native, Fn, Sym, Thrown
    f = C.look(Sym("$apply/optimized"), C.g); out = {}
    for n in (1, 2, 3):
        def go():
            u = Unk("fun", "value")
            return u, C.call(f, [n, u])
        for r in C.paths(go):
            if r is Thrown: continue
            u, v = r
            nm = u.eq.name if isinstance(u.eq, (Native, Fn)) else None
            v = flatten(v, [])
            if nm and len(v) == 1 and isinstance(v[0], int): out[(nm, n)] = v[0] & 255
    return out
