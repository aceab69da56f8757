"""What the compiler emits for a form of a given shape, and the effect of emitted code on the machine's stacks."""
from .nuj import *

FILES = ["stdlib/compiler", "stdlib/core", "stdlib/collections", "stdlib/math"]


class Compiler(Interp):
    """macroexpansion, constant folding and bytecode emission over forms of known shape and unknown content"""
    def __init__(s):
        super().__init__(files("stdlib"))
        for n in ("macroexpand*", "constant-fold", "bytecompile*"):
            if Sym(n) not in s.top: raise AnalysisBroken("%s is not defined by the standard library" % n)
        s.base = 0

    def reset(s, ch):
        super().reset(ch); s.nodes = {}

    def summary(s, f, args):
        """recursive calls on an unknown sub-form: it is expanded, folded and compiled by the same functions"""
        if f.name in ("macroexpand*", "constant-fold", "bytecompile*"):
            a = args[0] if args else None
            if isinstance(a, Unk) and a.eq is None and not s.rooted(a):
                if f.name == "bytecompile*": return (Expr(a),)
                if a.tag == "op": return (a,)
                return (s.nodes.setdefault((f.name, a.id), Unk(a.tag, a.kind)),)
            if isinstance(a, Pair) and isinstance(a.cdr, Unk):     # a form whose arguments are not known (an inlined body)
                return (Expr(a),) if f.name == "bytecompile*" else (Unk("form", "form"),)
            if isinstance(a, Expr): raise AnalysisBroken("code is compiled twice")
        elif f.name == "assemble*" or f.name == "macroexpand": return None
        elif not s.own(f) and any(isinstance(a, Unk) for a in args): return (Unk(f.name),)
        return None

    def rooted(s, a): return False

    def own(s, f):
        for y in f.body:
            if isinstance(y, L) and y.file: return y.file.startswith("stdlib/compiler")
        return isinstance(f.params, L) and bool(f.params.file) and f.params.file.startswith("stdlib/compiler")

    def other(s, n, a):
        if n == "resolves?":
            v = a[0]
            if isinstance(v, (Native, Fn, Pair)) or v is None: return False
            if isinstance(v, Unk):
                if v.kind == "value": return False
                return v.kids.setdefault("resolves", Unk("resolves", "pred"))
            return True      # the compiler's own symbols are bound where it runs
        if n == "ref":
            v = a[1] if len(a) > 1 else None
            if isinstance(v, Unk): return v.kids.setdefault("value", Unk(v.tag + ".value", "value"))
            if isinstance(v, Sym): return Native(str(v))
        return super().other(n, a)


def shapes(maxn):
    """source forms: an operator and 0..maxn arguments, all unknown"""
    for n in range(maxn + 1):
        yield n, lambda n=n: mk([Unk("op", "form")] + [Unk("arg%d" % k, "form") for k in range(n)])


def flatten(c, out):
    if c is None: return out
    if isinstance(c, Pair):
        k = c.car
        if isinstance(k, Kw): out.append(items(c)); return out
        for y in items(c):
            if isinstance(y, tuple): flatten(y[1], out)
            else: flatten(y, out)
        return out
    out.append(c)
    return out
