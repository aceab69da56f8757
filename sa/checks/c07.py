"""C07: NaN and infinities never become values."""
from ..report import Report, prog
from ..facts import Prog
from ..build import AnalysisBroken

RULE = ("Finite-value dataflow: wherever a double becomes the payload of a value, it must be provably finite: converted from an integer, taken from another (inductively finite) float "
        "value by an operation that preserves finiteness, or guarded by tests excluding NaN and both infinities on every path.")

NAN = float("nan"); INF = float("inf")
REPS = {"nan": [NAN], "+inf": [INF], "-inf": [-INF], "fin": [-1.7e308, -1.0, -0.0, 0.0, 0.5, 1.0, 1.7e308]}
PRES = {"llvm.fabs.f64": 1, "llvm.floor.f64": 1, "llvm.ceil.f64": 1, "llvm.round.f64": 1, "llvm.trunc.f64": 1, "llvm.rint.f64": 1, "llvm.nearbyint.f64": 1, "llvm.roundeven.f64": 1,
        "fabs": 1, "floor": 1, "ceil": 1, "round": 1, "trunc": 1, "rint": 1, "cbrt": 1, "sin": 1, "cos": 1, "llvm.sin.f64": 1, "llvm.cos.f64": 1, "atan": 1, "tanh": 1, "llvm.copysign.f64": 1,
        "atan2": 2, "fmin": 2, "fmax": 2, "llvm.minnum.f64": 2, "llvm.maxnum.f64": 2}


def fcmp(p, a, b):
    un = a != a or b != b
    if p in ("ord", "uno"): return un == (p == "uno")
    if p in ("true", "false"): return p == "true"
    r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]]
    return (not un and r) if p[0] == "o" else (un or r)


def const(o):
    if o[0] == "fp":
        try: return float(o[1].replace("+Inf", "inf").replace("-Inf", "-inf"))
        except ValueError: return None
    return None


def classes(fa, a, key):
    """classes of key that are compatible with atom a, or None if it says nothing"""
    p = a[0]
    if p.startswith("fpclass:"):
        ab, x = absof(fa, a[1])
        if x != key: return None
        mk = int(p[8:]); out = set()
        if mk & 3: out.add("nan")
        if mk & 4: out.add("-inf")
        if mk & 512: out.add("+inf")
        if mk & 0x1F8: out.add("fin")
        if ab and "+inf" in out: out.add("-inf")
        return out
    if not p.startswith("fcmp:"): return None
    neg = p[5] == "!"; pr = p[6:] if neg else p[5:]
    la, lx = absof(fa, a[1]); ra, rx = absof(fa, a[2])
    cl, cr = const(a[1]), const(a[2])
    if lx != key and rx != key: return None
    if (lx != key and cl is None) or (rx != key and cr is None): return None
    out = set()
    for c, reps in REPS.items():
        for r in reps:
            x = (abs(r) if la else r) if lx == key else cl
            y = (abs(r) if ra else r) if rx == key else cr
            if fcmp(pr, x, y) != neg: out.add(c); break
    return out


def absof(fa, o):
    o = fa.canon(fa.strip(o)) if o[0] == "ins" else o
    d = fa.f.define(o)
    if d is not None and d.op == "call" and d.cname() in ("llvm.fabs.f64", "fabs"): return True, fa.canon(d.ops[0])
    return False, o


class Fin:
    def __init__(s, P, fa):
        s.P = P; s.fa = fa; s.T = P.T["ltFloat"]; s.memo = {}

    def allowed(s, o, blk, extra=()):
        key = s.fa.canon(o); out = set(REPS)
        for a in list(s.fa.block_conds(blk)) + list(extra):
            c = classes(s.fa, a, key)
            if c is not None: out &= c
        return out

    def fin(s, o, blk, extra=(), depth=0):
        """is double/float operand o certainly finite when blk executes?"""
        fa = s.fa; f = fa.f
        if o[0] == "fp":
            v = const(o); return v is not None and v == v and abs(v) != INF
        if o[0] in ("zero",): return True
        if o[0] != "ins": return False
        if s.allowed(o, blk, extra) <= {"fin"}: return True
        k = (o, blk)
        if not extra and k in s.memo: return s.memo[k]
        s.memo[k] = True           # loops: inductive
        r = s.fin1(f.ins[o[1]], blk, depth) if depth < 20 else False
        s.memo[k] = r
        return r

    def fin1(s, i, blk, depth):
        fa = s.fa; f = fa.f
        if i.op in ("sitofp", "uitofp"): return True
        if i.op in ("fpext", "fneg", "freeze"): return s.fin(i.ops[0], i.blk, (), depth + 1) or s.fin(i.ops[0], blk, (), depth + 1)
        if i.op == "bitcast":
            return s.payload(i.ops[0], i)
        if i.op == "load":
            k = fa.klass(i)
            if k[0] == "lVal" and k[1] == 8: return True
            c = fa.canon(("ins", i.id))
            if c != ("ins", i.id): return s.fin(c, blk, (), depth + 1)
            return False
        if i.op == "call":
            n = PRES.get(i.cname())
            if n: return all(s.fin(o, i.blk, (), depth + 1) for o in i.ops[:n])
            return False
        if i.op == "phi":
            return all(s.fin(v, b, tuple(fa.edge(b, i.blk)), depth + 1) for v, b in i.inc if v[0] != "undef" and v != ("ins", i.id))
        if i.op == "select":
            return s.fin(i.ops[1], blk, tuple(fa.cond(i.ops[0], True)), depth + 1) and s.fin(i.ops[2], blk, tuple(fa.cond(i.ops[0], False)), depth + 1)
        return False

    def payload(s, o, use):
        """i64 bits taken from a value: finite by induction if that value is a float"""
        fa = s.fa
        c = fa.canon(fa.strip(o)) if o[0] == "ins" else o
        d = fa.f.define(c)
        if d is not None and d.op == "bitcast" and fa.f.define(d.ops[0]) is not None: return s.fin(d.ops[0], use.blk)
        if fa.f.define(c) is not None and fa.f.define(c).ty in ("double", "float"): return s.fin(c, use.blk)
        if d is not None and d.op == "phi":
            return all(v[0] == "undef" or s.payload(v, use) for v, _ in d.inc if v != ("ins", d.id))
        t = fa.pair_tags(c, use)
        return t is not None and not (t - {s.T})


def run():
    R = Report("C07", RULE)
    m = prog(); P = Prog(m); n = 0
    T = P.T["ltFloat"]
    for name, f in sorted(m.defs.items()):
        if f.ai and not P.callers(name) and not f.taken: continue
        fa = P.f(name); F = Fin(P, fa)
        for i in f.instrs():
            src = None
            if i.op == "store":
                k = fa.klass(i)
                d = f.define(i.ops[0])
                isd = i.ops[0][0] == "fp" or (d is not None and d.ty == "double")
                if isd and k[0] == "lVal" and k[1] == 8: src = i.ops[0]
            elif i.op == "bitcast" and i.ty == "i64":
                d = f.define(i.ops[0])
                if i.ops[0][0] == "fp" or (d is not None and d.ty == "double"):
                    src = i.ops[0]
            if src is None: continue
            n += 1
            path = " <- ".join(l[2] for l in (i.loc or [])) or f.sname
            R.obligation(F.fin(src, i.blk), "%s: %s" % (f.sname, what(fa, src)), "%s makes a value of a double that can be NaN or infinite (%s)" % (path, what(fa, src)), i.where_full(), name)
        tagged(R, P, fa, T)
    R.floor("doubles becoming values", n, 45)
    return R.finish()


def what(fa, o):
    """short description of the source of a double"""
    d = fa.f.define(fa.canon(o)) if o[0] == "ins" else None
    if d is None: return str(o[1]) if len(o) > 1 else o[0]
    if d.op == "call": return "result of %s" % (d.cname() or "call")
    return "result of %s" % d.op


def tagged(R, P, fa, T):
    """values built with a float tag must take their payload from a double"""
    f = fa.f; seen = set()
    for i in f.instrs():
        if i.op != "insertvalue" or i.ix != 1 or i.ty != "{ i16, i64 }": continue
        b = f.define(i.ops[0])
        if b is None or b.op != "insertvalue" or b.ix != 0: continue
        work = [(b.ops[1], i.ops[1], i)]
        while work:
            t, p, use = work.pop()
            if (t, p) in seen: continue
            seen.add((t, p))
            td, pd = f.define(t), f.define(p)
            if t[0] == "int" and t[1] == T:
                ok = p[0] == "undef" or bits(fa, p, use, T)
                R.obligation(ok, "%s: float from %s" % (f.sname, pd.op if pd is not None else p[0]), "%s makes a float out of bits that do not come from a checked double" % f.sname, i.where_full(), f.name)
            elif td is not None and td.op == "phi":
                if pd is not None and pd.op == "phi" and pd.blk == td.blk:
                    pin = dict((b2, v) for v, b2 in pd.inc)
                    for v, b2 in td.inc: work.append((v, pin.get(b2, ("undef",)), use))
                else:
                    for v, b2 in td.inc:
                        if v[0] == "int": work.append((v, p, use))


def bits(fa, p, use, T, n=0):
    if p[0] in ("int",): return True
    d = fa.f.define(p)
    if d is None:
        t = fa.pair_tags(p, use)
        return t is not None and not (t - {T})
    if d.op == "bitcast" and fa.f.define(d.ops[0]) is not None and fa.f.define(d.ops[0]).ty == "double": return True
    if d.op == "bitcast" and d.ops[0][0] == "fp": return True
    if d.op == "phi" and n < 5: return all(v[0] == "undef" or bits(fa, v, use, T, n + 1) for v, _ in d.inc)
    t = fa.pair_tags(p, use)
    return t is not None and not (t - {T})
