"""C06: no integer division or remainder can trap."""
from ..report import Report, prog
from ..facts import Prog
from ..loops import lin
from ..walk import sgn

RULE = ("Divisor facts: for every integer division or remainder whose divisor is not a constant, the branch conditions on all paths to it must exclude a zero divisor and the "
        "combination of the smallest integer with -1 (both raise SIGFPE).")


def excluded(fa, blk, o, v, w):
    """do the conditions that hold in blk exclude o == v?"""
    key = fa.canon(o)
    if key[0] == "int": return key[1] != v
    for a in fa.block_conds(blk):
        if refutes(fa, a, key, v, w): return True
    # all ways into the block exclude it
    return False


def refutes(fa, a, key, v, w):
    p = a[0]
    if p[0] == "f": return False
    if p in ("in", "notin"):
        k, t = lin(fa, a[1])
        if t != {key: 1}: return False
        return (v + k not in a[2]) if p == "in" else (v + k in a[2])
    x, y = a[1], a[2]
    k1, t1 = lin(fa, x); k2, t2 = lin(fa, y)
    if t1 == {key: 1} and not t2: a1, b1 = v + k1, k2
    elif t2 == {key: 1} and not t1: a1, b1 = k1, v + k2
    else: return False
    a1 = sgn(a1, w); b1 = sgn(b1, w); m = (1 << w) - 1
    r = {"eq": a1 == b1, "ne": a1 != b1, "slt": a1 < b1, "sle": a1 <= b1, "sgt": a1 > b1, "sge": a1 >= b1,
         "ult": (a1 & m) < (b1 & m), "ule": (a1 & m) <= (b1 & m), "ugt": (a1 & m) > (b1 & m), "uge": (a1 & m) >= (b1 & m)}[p]
    return not r


def run():
    R = Report("C06", RULE)
    m = prog(); P = Prog(m); n = 0; k = 0
    for name, f in sorted(m.defs.items()):
        if f.ai and not P.callers(name) and not f.taken: continue
        fa = P.f(name)
        for i in f.instrs():
            if i.op not in ("sdiv", "srem", "udiv", "urem"): continue
            k += 1
            d = fa.canon(i.ops[1])
            if d[0] == "int":
                R.obligation(d[1] != 0, "%s:%s const" % (f.sname, i.op), "%s divides by the constant 0" % f.sname, i.where(), name); continue
            n += 1
            w = int(i.ty[1:])
            src = "%s:%s %s" % (f.sname, i.op, i.loc[-1][2] if i.loc else "")
            okz = nonzero(fa, i, d, 0, w)
            R.obligation(okz, src + " zero", "%s: the divisor can be 0: the process is killed instead of an error being thrown" % f.sname, i.where_full(), name)
            if i.op[0] == "s":
                ok1 = nonzero(fa, i, d, -1, w) or nonzero(fa, i, fa.canon(i.ops[0]), -(1 << (w - 1)), w) or narrow(fa, i.ops[0], w)
                R.obligation(ok1, src + " overflow", "%s: the smallest integer can be divided by -1: the process is killed" % f.sname, i.where_full(), name)
    R.floor("divisions", k, 20)
    R.floor("divisions by program values", n, 4)
    return R.finish()


def narrow(fa, o, w):
    """the dividend was widened from a smaller type"""
    d = fa.f.define(o)
    return d is not None and d.op in ("sext", "zext") and w > 1


def nonzero(fa, i, d, v, w):
    if excluded(fa, i.blk, d, v, w): return True
    x = fa.f.define(d)
    if x is None: return False
    if x.op in ("sext", "zext"):
        y = fa.f.define(x.ops[0]); w2 = int(y.ty[1:]) if y is not None and y.ty[0] == "i" else w
        if x.op == "zext" and v < 0: return True
        return nonzero(fa, i, fa.canon(x.ops[0]), v, w2)
    if x.op == "or" and v == 0: return any(q[0] == "int" and q[1] != 0 for q in x.ops)
    if x.op == "phi":
        for q, b in x.inc:
            q = fa.canon(q)
            if q[0] == "int":
                if q[1] == v: return False
            elif not (excluded(fa, b, q, v, w) or any(refutes(fa, a, q, v, w) for a in fa.edge(b, x.blk))): return False
        return True
    if x.op == "select":
        c, t, e = x.ops
        for q, tr in ((fa.canon(t), True), (fa.canon(e), False)):
            if q[0] == "int":
                if q[1] == v: return False
            elif not any(refutes(fa, a, q, v, w) for a in fa.cond(c, tr)): return False
        return True
    return False
