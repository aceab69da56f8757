"""Path walker: enumerates the paths of a region, following only branches whose condition is not refuted by the
values known along the path.  Values are ints or None (unknown); loads can be given values by a model."""
from .build import AnalysisBroken

CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b}
SC = {"slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}


def width(ty):
    return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else 64


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) and w > 1 else v


def live_in(f):
    """instructions whose value may still be used when a block is entered (phi inputs count at the predecessor)"""
    if getattr(f, "_live", None) is not None: return f._live
    nb = range(len(f.blocks)); use = {}; dfn = {}
    for b, l in enumerate(f.blocks):
        d = set(); u = set()
        for i in l:
            if i.op != "phi":
                for o in list(i.ops) + ([i.base] if i.op == "getelementptr" and i.base else []) + ([v for v, c in i.var] if i.op == "getelementptr" else []):
                    if o and o[0] == "ins" and o[1] not in d: u.add(o[1])
            d.add(i.id)
        use[b] = u; dfn[b] = d
    live = {b: set(use[b]) for b in nb}
    pred = {b: [] for b in nb}; pin = {}
    for b in nb:
        for t in f.succ[b]: pred[t].append(b)
        for i in f.blocks[b]:
            if i.op != "phi": break
            for v, pb in i.inc:
                if v[0] == "ins": pin.setdefault(pb, set()).add(v[1])
    work = list(nb); on = set(work)
    while work:
        b = work.pop(); on.discard(b)
        n = set(pin.get(b, ()))
        for t in f.succ[b]: n |= live[t]
        n -= dfn[b]; n |= use[b]
        if n != live[b]:
            live[b] = n
            for q in pred[b]:
                if q not in on: on.add(q); work.append(q)
    f._live = live
    return live


class Path:
    def __init__(s):
        s.env = {}; s.ev = []; s.atoms = []; s.mem = {}; s.blocks = []; s.end = None

    def copy(s):
        p = Path(); p.env = dict(s.env); p.ev = list(s.ev); p.atoms = list(s.atoms); p.mem = dict(s.mem); p.blocks = list(s.blocks)
        return p


class Walker:
    """subclass: load(path, ins) -> value or None; event(path, ins) records what matters"""
    limit = 4000; visits = 2; dedupe = False

    def __init__(s, fa):
        s.fa = fa; s.f = fa.f; s.out = []; s.n = 0
        if s.dedupe:
            s.live = live_in(fa.f); s.phis = [[i for i in l if i.op == 'phi'] for l in fa.f.blocks]

    def key(s, p, b, pv):
        """paths that reach a block with the same known values and the same history need following only once"""
        lv = s.live[b]
        phi = []
        for i in s.f.blocks[b]:
            if i.op != "phi": break
            phi += [s.val(p, x) for x, pb in i.inc if pb == pv]
        return (b, pv if not phi else None, tuple(phi), frozenset((k, v) for k, v in p.env.items() if k in lv),
                frozenset(p.mem.items()), s.history(p))

    def history(s, p): return tuple(p.ev)

    def load(s, p, i): return None
    def event(s, p, i): pass

    def val(s, p, o):
        if o[0] == "int": return sgn(o[1], o[2] if len(o) > 2 else 64)
        if o[0] == "ins": return p.env.get(o[1])
        return None

    def agg(s, a, ix, v):
        d = dict(a) if isinstance(a, tuple) else {}
        d[ix] = v
        return tuple(sorted(d.items(), key=str))

    def ev1(s, p, i):
        f = s.f; w = width(i.ty)
        if i.op == "load": return s.load(p, i)
        v = [s.val(p, o) for o in i.ops]
        if i.op == "insertvalue": return s.agg(v[0], i.ix, v[1])
        if i.op == "extractvalue": return dict(v[0]).get(i.ix) if isinstance(v[0], tuple) else None
        v = [None if isinstance(x, tuple) else x for x in v]
        if i.op == "call" and (i.cname() or "").startswith("llvm.expect"): return v[0]
        if i.op in ("freeze", "sext", "bitcast"):
            if i.op == "sext" and v[0] is not None and f.define(i.ops[0]) is not None and f.define(i.ops[0]).ty == "i1": return -v[0]
            return v[0]
        if i.op == "zext":
            if v[0] is None: return None
            sw = width(f.define(i.ops[0]).ty) if f.define(i.ops[0]) is not None else 64
            return v[0] & ((1 << sw) - 1)
        if i.op == "trunc": return None if v[0] is None else sgn(v[0], w)
        if i.op == "icmp":
            if None in v[:2]:
                return None
            a, b = v[:2]
            if i.pred in CMP: return int(CMP[i.pred](a, b))
            if i.pred in SC: return int(SC[i.pred](a, b))
            return int(SC["s" + i.pred[1:]](a & (2 ** 64 - 1), b & (2 ** 64 - 1)))
        if i.op == "and":
            if 0 in v: return 0
            return None if None in v else v[0] & v[1]
        if i.op == "select":
            if v[0] is None: return v[1] if v[1] == v[2] else None
            return v[1] if v[0] & 1 else v[2]
        if None in v or not v: return None
        try:
            r = {"or": lambda: v[0] | v[1], "xor": lambda: v[0] ^ v[1], "add": lambda: v[0] + v[1], "sub": lambda: v[0] - v[1], "mul": lambda: v[0] * v[1],
                 "shl": lambda: v[0] << v[1], "lshr": lambda: (v[0] & ((1 << w) - 1)) >> v[1], "ashr": lambda: v[0] >> v[1]}[i.op]()
        except KeyError: return None
        r = sgn(r, w)
        return r & 1 if w == 1 else r

    def run(s, start, stop, prev=None, path=None):
        """walk from block start until a block in stop is entered (or the function ends)"""
        s.out = []; s.n = 0
        seen = set()
        work = [(start, prev, path or Path(), 0)]
        while work:
            b, pv, p, at = work.pop()
            s.n += 1
            if s.n > s.limit: raise AnalysisBroken("too many paths in %s" % s.f.name)
            if not at and p.blocks.count(b) >= s.visits: continue
            if s.dedupe and not at:
                lv = s.live[b]; pi = {v[1] for i in s.phis[b] for v, pb in i.inc if v[0] == "ins"}
                p.env = {k: v for k, v in p.env.items() if v is not None and (k in lv or k in pi)}
                k = s.key(p, b, pv)
                if k in seen: continue
                seen.add(k)
            if not at: p.blocks.append(b)
            new = {}
            for n, i in enumerate(s.f.blocks[b]):
                if n < at: continue
                if i.op == "phi":
                    v = [x for x, pb in i.inc if pb == pv]
                    new[i.id] = s.val(p, v[0]) if v else None
                    continue
                if new: p.env.update(new); new = {}
                s.event(p, i)
                if i.op in ("store", "br", "switch", "ret", "unreachable"): continue
                r = s.ev1(p, i)
                if r is None and i.op == "select":
                    # one of two known values: follow both
                    x, y = s.val(p, i.ops[1]), s.val(p, i.ops[2])
                    if isinstance(x, int) and isinstance(y, int):
                        q = p.copy(); q.env[i.id] = y; work.append((b, pv, q, n + 1)); r = x
                p.env[i.id] = r
            p.env.update(new)
            t = s.f.blocks[b][-1]
            if t.op in ("ret", "unreachable"):
                p.end = t; s.out.append(p); continue
            nxt = s.f.succ[b]
            if t.op == "br" and len(t.ops) == 3:
                c = s.val(p, t.ops[0])
                if c is not None: nxt = [t.ops[2][1] if c & 1 else t.ops[1][1]]
            elif t.op == "switch":
                c = s.val(p, t.ops[0])
                if c is not None: nxt = [([d for k, d in t.cases if k == c] or [t.default])[0]]
            for k, x in enumerate(nxt):
                q = p.copy() if k < len(nxt) - 1 else p
                s.took(q, b, x)
                if x in stop: q.end = (b, x); s.out.append(q)
                else: work.append((x, b, q, 0))
        return s.out

    def took(s, p, a, b):
        p.atoms += s.fa.edge(a, b)
