"""Linear inequalities over the integers that hold at a program point, and a prover for goals of that kind.

Values are the mathematical (signed) values of SSA operands. An operation contributes its exact result only where the facts at hand show that it cannot
overflow; otherwise its result is an unknown within the range of its type. Facts come from dominating branch conditions, value ranges of types, joins (case
split on the incoming edges), loop counters (invariants found by induction) and the invariants of the heap structures given by the caller."""
from math import gcd
from .loops import NEG, SWAP, comb

ZERO = (0, {})


def K(c): return (c, {})
def add(a, b, f=1): return comb(a[0], a[1], b[0], b[1], f)
def sub(a, b): return add(a, b, -1)
def scale(a, n): return (a[0] * n, {x: c * n for x, c in a[1].items()} if n else {})
def key(a): return (a[0], tuple(sorted(a[1].items(), key=repr)))


def unsat(ineqs, limit=600):
    """no integer assignment satisfies all k + sum >= 0 (sound, incomplete): Fourier-Motzkin elimination"""
    cur = {}
    def put(dst, k, t):
        if not t:
            return k < 0
        g = 0
        for n in t.values(): g = gcd(g, n)
        if g > 1: k = k // g; t = {x: n // g for x, n in t.items()}
        kk = tuple(sorted(t.items(), key=lambda y: repr(y[0])))
        if kk not in dst or dst[kk][0] > k: dst[kk] = (k, t)
        return False
    for k, t in ineqs:
        if put(cur, k, t): return True
    while cur:
        cnt = {}
        for kk, (k, t) in cur.items():
            for x, n in t.items():
                p = cnt.setdefault(x, [0, 0]); p[n > 0] += 1
        x = min(cnt, key=lambda y: (cnt[y][0] * cnt[y][1] - cnt[y][0] - cnt[y][1], repr(y)))
        pos = [v for v in cur.values() if v[1].get(x, 0) > 0]; neg = [v for v in cur.values() if v[1].get(x, 0) < 0]
        nxt = {}
        for v in cur.values():
            if x not in v[1]: nxt[tuple(sorted(v[1].items(), key=lambda y: repr(y[0])))] = v
        for kp, tp in pos:
            for kn, tn in neg:
                a, b = tp[x], -tn[x]
                k, t = comb(b * kp, {y: n * b for y, n in tp.items()}, kn, tn, a)
                t.pop(x, None)
                if put(nxt, k, t): return True
        cur = nxt
        if len(cur) > limit: return False
    return False


class Bounds:
    def __init__(s, P, name, facts=None):
        s.P = P; s.fa = P.f(name); s.f = s.fa.f
        s.extra = facts           # facts(bounds, atom) -> inequalities known about an atom
        s._hyp = {}; s._inv = {}; s._val = {}; s._hull = {}; s._rep = {}; s._reps = {}
        s.pre = []                # inequalities assumed on entry
        s.steps = 0

    # ------------------------------------------------------------- types
    def width(s, o):
        if o[0] == "int": return o[2] if len(o) > 2 else 64
        ty = None
        if o[0] == "ins": ty = s.f.ins[o[1]].ty
        elif o[0] == "arg": ty = s.f.argtys[o[1]]
        elif o[0] == "ev":
            c = s.f.ins[o[1]].ty or ""
            ty = c.strip("{} ").split(", ")[o[2]] if c.startswith("{") else None
        if ty and ty[0] == "i" and ty[1:].isdigit(): return int(ty[1:])
        return 64

    def isptr(s, o):
        if o[0] == "ins": return s.f.ins[o[1]].ty == "ptr"
        if o[0] == "arg": return s.f.argtys[o[1]] == "ptr"
        return o[0] in ("glob", "null", "fn")

    # ------------------------------------------------------------- values
    PURE = ("icmp", "add", "sub", "mul", "shl", "zext", "sext", "trunc", "and", "or", "xor", "select", "lshr", "ashr", "sdiv", "udiv", "srem", "urem", "fptosi", "sitofp", "bitcast")

    FUNCS = ()                # functions whose result depends on their arguments alone

    def canon(s, o):
        """one representative of all operands computed the same way from the same values"""
        if o[0] != "ins": return o
        o = s.fa.canon(o)
        if o[0] != "ins": return o
        if o not in s._rep:
            s._rep[o] = o
            i = s.f.ins[o[1]]; k = None
            if i.op in s.PURE or i.op == "call" and i.cname() in s.FUNCS: k = (i.op, i.cname() if i.op == "call" else i.pred, i.ty) + tuple(s.canon(x) for x in i.ops)
            elif i.op == "phi":
                g = s.gate(i)
                if g: k = ("gate", i.ty) + g
            if k is not None:
                c = s._reps.setdefault(k, [])
                for x in c:
                    # what is known of a join holds only where it is reached
                    if i.op != "phi" or s.f.ins_dominates(s.f.ins[x[1]], i): s._rep[o] = x; break
                else: c.append(o)
        return s._rep[o]

    def gate(s, i):
        """(condition, value if it holds, value if not) of a join of the two sides of one branch"""
        if len(i.inc) != 2 or i.blk not in s.f.idom or s.header(i): return None
        d = s.f.idom[i.blk]; t = s.f.blocks[d][-1]
        if t.op != "br" or len(t.ops) != 3: return None
        c = s.canon(t.ops[0])
        if c[0] != "ins": return None
        su = s.f.succ[d]; cs = s.fa.cond(t.ops[0], True)
        if len(cs) != 1: return None
        v = {}
        for x, b in i.inc:
            for q in set(su):
                if (q == i.blk and b == d) or (q != i.blk and s.f.pred[q] == [d] and s.f.dominates(q, b)):
                    v[t.ops[2][1] == q] = s.canon(x)
        if set(v) != {True, False}: return None
        p, x, y = cs[0]
        if p not in NEG: return None
        if p in ("ne", "sge", "sgt", "uge", "ugt"): p = NEG[p]; v = {True: v[False], False: v[True]}
        return (p, s.canon(x), s.canon(y), v[True], v[False])

    def val(s, o, H, d=0):
        """linear form of the signed value of an operand under the inequalities H"""
        o = s.canon(o)
        if o[0] == "int":
            w = o[2] if len(o) > 2 else 64; v = o[1]
            if w > 1: v &= (1 << w) - 1; v -= (v >> (w - 1)) << w
            return K(v)
        if o[0] == "null": return K(0)
        if o[0] == "glob": return (o[2], {("glob", o[1]): 1}) if o[2] else (0, {("glob", o[1]): 1})
        me = (0, {o: 1})
        if o[0] != "ins" or d > 14: return me
        i = s.f.ins[o[1]]
        if i.op in ("bitcast", "inttoptr", "ptrtoint", "freeze"): return s.val(i.ops[0], H, d + 1)
        if i.op == "sext": return me if s.width(i.ops[0]) == 1 else s.val(i.ops[0], H, d + 1)
        if i.op == "zext":
            w = s.width(i.ops[0])
            if w == 1: return me
            t = s.val(i.ops[0], H, d + 1)
            return t if s.holds(t, H) else (0, {o: 1})
        if i.op == "trunc":
            t = s.val(i.ops[0], H, d + 1); w = s.width(o)
            return t if w > 1 and s.fits(t, w, H) else me
        if i.op == "getelementptr" and i.off is not None:
            t = add(s.val(i.base, H, d + 1), K(i.off))
            for v, c in i.var: t = add(t, s.val(v, H, d + 1), c)
            return t
        if i.op in ("add", "sub", "mul", "shl"):
            w = s.width(o)
            if i.op in ("add", "sub"): t = add(s.val(i.ops[0], H, d + 1), s.val(i.ops[1], H, d + 1), 1 if i.op == "add" else -1)
            else:
                x, y = s.val(i.ops[0], H, d + 1), s.val(i.ops[1], H, d + 1)
                if x[1] and y[1] and i.op == "mul" and H:
                    for k in (1, 0):
                        c = s.constant((x, y)[k], H)
                        if c is not None: x, y = (x, y)[1 - k], K(c); break
                if x[1] and y[1]: return me
                if i.op == "mul":
                    if not y[1]: x, y = y, x
                    t = scale(y, x[0])
                else:
                    if y[1] or not 0 <= y[0] < w: return me
                    t = scale(x, 1 << y[0])
            return t if s.fits(t, w, H) else me
        if i.op in ("lshr", "udiv", "urem"):
            if not s.holds(s.val(i.ops[0], H, d + 1), H): return me
        return me

    def constant(s, t, H):
        """the constant a value drawn from a set of constants is known to be"""
        if len(t[1]) != 1 or t[0]: return None
        (a, n), = t[1].items()
        i = s.f.define(a) if a[0] == "ins" else None
        while i is not None and i.op in ("sext", "zext"): i = s.f.define(s.canon(i.ops[0]))
        if n != 1 or i is None or i.op != "phi": return None
        for c in sorted({v[1] for v, b in i.inc if v[0] == "int"}):
            if s.holds((-c, {a: 1}), H) and s.holds((c, {a: -1}), H): return c
        return None

    def fixed(s, o, H):
        """the number an operand is known to be"""
        o = s.canon(o)
        return o[1] if o[0] == "int" else None

    def capval(s, v, H):
        """bytes behind a pointer value, counted from where it points"""
        if v[0] == "int": return K(0)
        b = s.base(v)
        return sub((0, {("cap", b): 1}), sub(s.val(v, H), (0, {b: 1})))

    def join(s, j, v, H, H2):
        """H2 gains: the joined value j is v"""
        a = s.canon(("ins", j.id)); q = (0, {a: 1}); t = s.val(v, H)
        H2 += [sub(q, t), sub(t, q)]
        if j.ty == "ptr" and v[0] not in ("int", "null", "undef"):
            c = (0, {("cap", a): 1}); t = s.capval(v, H)
            H2 += [sub(c, t), sub(t, c)]

    def fits(s, t, w, H):
        lo = s.interval(t)
        if lo is not None and -(1 << (w - 1)) <= lo[0] and lo[1] < 1 << (w - 1): return True
        return s.holds(add(t, K(1 << (w - 1))), H) and s.holds(sub(K((1 << (w - 1)) - 1), t), H)

    def interval(s, t):
        lo = hi = t[0]
        for a, n in t[1].items():
            r = s.range(a)
            if r is None: return None
            lo += n * (r[0] if n > 0 else r[1]); hi += n * (r[1] if n > 0 else r[0])
        return lo, hi

    def range(s, a):
        """values an atom can have by its type"""
        if a[0] == "glob": return (4096, 1 << 47)
        if a[0] == "cap": return (0, 1 << 47)
        if s.isptr(a): return (0, 1 << 47)
        w = s.width(a)
        if a[0] == "ins":
            i = s.f.ins[a[1]]
            if i.op == "zext": return (0, (1 << s.width(i.ops[0])) - 1)
            if i.op == "and":
                for q in i.ops:
                    if q[0] == "int" and q[1] >= 0: return (0, q[1])
            if i.op == "lshr" and i.ops[1][0] == "int" and 0 < i.ops[1][1] < w: return (0, (1 << (w - i.ops[1][1])) - 1)
            if i.op == "urem" and i.ops[1][0] == "int" and i.ops[1][1] > 0: return (0, i.ops[1][1] - 1)
            if i.op == "srem" and i.ops[1][0] == "int" and i.ops[1][1] > 0: return (1 - i.ops[1][1], i.ops[1][1] - 1)
            if i.op == "call" and i.cname() in ("strlen", "strnlen"): return (0, (1 << 31) - 2)
        if w == 1: return (-1, 1)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)

    # ------------------------------------------------------------- facts
    def about(s, a, H):
        """inequalities about one atom"""
        out = []
        r = s.range(a)
        if r: out += [(-r[0], {a: 1}), (r[1], {a: -1})]
        if a[0] == "ins":
            i = s.f.ins[a[1]]
            if i.op in ("sdiv", "udiv", "ashr", "lshr", "srem", "urem") and s.fixed(i.ops[1], H) is not None:
                c = s.fixed(i.ops[1], H)
                if i.op in ("ashr", "lshr"): c = 1 << c if 0 <= c < 63 else 0
                x = s.val(i.ops[0], H)
                if c > 0 and a not in x[1] and s.holds(x, H):
                    if i.op.endswith("rem"): out += [(0, {a: 1}), add(x, (0, {a: -1}))]
                    else: out += [sub(x, (0, {a: c})), add(sub((c - 1, {a: c}), x), K(0)), (0, {a: 1})]
            if i.op == "phi": out += s.invariants(i) if s.header(i) else s.hull(i)
        if s.extra: out += s.extra(s, a, H)
        return out

    def closure(s, H, goal):
        """H with the facts about every atom connected to the goal"""
        atoms = set(goal[1]); sys = []; todo = list(H); done = set()
        for _ in range(6):
            new = [h for h in todo if any(x in atoms for x in h[1])]
            grown = set(atoms)
            for h in new: sys.append(h); grown |= set(h[1])
            todo = [h for h in todo if h not in new]
            for a in sorted(grown - done, key=repr):
                done.add(a)
                for f in s.about(a, H):
                    sys.append(f); grown |= set(f[1])
            if grown == atoms and not new: break
            atoms = grown
        return sys, atoms

    def holds(s, goal, H):
        """goal >= 0 follows from H (and the facts about the atoms involved), without case splits"""
        if not goal[1]: return goal[0] >= 0
        iv = s.interval(goal)
        if iv is not None and iv[0] >= 0: return True
        k = (key(goal), id(H), len(H))
        if k in s._val: return s._val[k][0]
        s._val[k] = (False, H)
        s.steps += 1
        sys, _ = s.closure(H, goal)
        r = unsat(sys + [add(K(-1), goal, -1)])
        s._val[k] = (r, H)
        return r

    # ------------------------------------------------------------- conditions
    def rel(s, c, H):
        """inequalities a branch condition adds"""
        p = c[0]
        if p.startswith("f"): return []
        if p in ("in", "notin"):
            t = s.val(c[1], H)
            if p == "in" and c[2]: return [sub(t, K(min(c[2]))), sub(K(max(c[2])), t)]
            if p == "notin":
                for k in c[2]:
                    if s.holds(add(t, K(-k)), H) and s.holds(sub(K(k), t), H): return [K(-1)]
            return []
        x, y = s.val(c[1], H), s.val(c[2], H)
        if p == "eq": return [sub(x, y), sub(y, x)]
        if p == "ne":
            if not y[1] and y[0] == 0: 
                q = s.nonnull(c[1], H)
                if q: return q
            if s.holds(sub(x, y), H): return [add(sub(x, y), K(-1))]
            if s.holds(sub(y, x), H): return [add(sub(y, x), K(-1))]
            return []
        if p[1:] in ("gt", "ge"): x, y = y, x; p = SWAP[p]
        # x < y or x <= y
        if p[0] == "u" and not (s.isptr(c[1]) or s.isptr(c[2])):
            if not s.holds(y, H): return []
            out = [sub(y, x) if p == "ule" else add(sub(y, x), K(-1))]
            return out + [x] if s.unsigned_small(x, H) else out
        return [sub(y, x) if p[1:] == "le" else add(sub(y, x), K(-1))]

    def nonnull(s, o, H): return []

    def unsigned_small(s, x, H):
        """x <u y with y >= 0 as a signed value: x is not negative either"""
        return True

    def hyps(s, b):
        """inequalities that hold whenever block b executes"""
        if b in s._hyp: return s._hyp[b]
        if b == 0 or b not in s.f.idom: r = list(s.pre)
        else:
            d = s.f.idom[b]
            r = list(s.hyps(d)); s._hyp[b] = r
            if len(s.f.pred[b]) == 1: s.extend(r, s.fa.edge(s.f.pred[b][0], b))
        s._hyp[b] = r
        return r

    def extend(s, H, conds):
        for c in conds:
            for q in s.rel(c, H):
                H.append(q)

    def edge_hyps(s, a, b, base=None):
        H = list(base if base is not None else s.hyps(a))
        s.extend(H, s.fa.edge(a, b))
        return H

    def hull(s, i):
        """sign and size of a joined value, if they are the same on all edges"""
        if i.id in s._hull: return s._hull[i.id]
        s._hull[i.id] = []
        if i.blk not in s.f.idom or len(i.inc) > 12 or not (i.ty or "").startswith("i") or i.ty == "i1": return []
        out = []
        for c in ((0, 1), ((1 << 31) - 1, -1), (1 << 40, -1)):
            for v, b in i.inc:
                if v[0] == "undef": continue
                H = s.edge_hyps(b, i.blk)
                if not s.prove_in((lambda t: (c[0] + c[1] * t[0], {x: n * c[1] for x, n in t[1].items()}))(s.val(v, H)), H, b, 3): break
            else: out.append((c[0], {("ins", i.id): c[1]}))
        s._hull[i.id] = out
        return out

    # ------------------------------------------------------------- loops
    def header(s, i):
        L = s.f.loops()
        return L.get(i.blk) if i.blk in L else None

    def step(s, i, body):
        """constant a counter changes by in every iteration"""
        out = set()
        for v, b in i.inc:
            if b in body:
                a = s.fa.addr(v) if i.ty == "ptr" else None
                if a is not None:
                    if a.root != ("ins", i.id) or a.var: return None
                    out.add(a.off); continue
                d = s.f.define(s.canon(v))
                if d is None or d.op not in ("add", "sub") or s.canon(d.ops[0]) != ("ins", i.id) or s.canon(d.ops[1])[0] != "int": return None
                n = s.canon(d.ops[1])[1]
                out.add(n if d.op == "add" else -n)
        return out.pop() if len(out) == 1 else None

    def capof(s, v, H): return []

    def special(s, i):
        """further candidates for invariants of a loop variable"""
        return []

    def invariants(s, i):
        """inequalities about a loop counter that hold in every iteration, by induction"""
        if i.id in s._inv: return s._inv[i.id]
        body = s.header(i)
        if not body: return []
        L = i.blk; s._inv[i.id] = []
        me = ("ins", i.id)
        ini = [(v, b) for v, b in i.inc if b not in body]; nxt = [(v, b) for v, b in i.inc if b in body]
        if not ini or not nxt: return []
        def fixed(t): return all(a[0] != "ins" or (s.f.ins[a[1]].blk not in body and s.f.dominates(s.f.ins[a[1]].blk, L)) for a in t[1] if a != me)
        cand = []
        for v, b in ini:
            t = s.val(v, s.hyps(b))
            if fixed(t): cand += [sub((0, {me: 1}), t), sub(t, (0, {me: 1}))]
        cand += [(0, {me: 1})]
        def guards():
            for b in sorted(body):
                for q in s.f.succ[b]:
                    if q in body or b == L:
                        for c in s.fa.edge(b, q):
                            H = s.hyps(b)
                            for r in s.rel(c, H):
                                n = r[1].get(me)
                                if n in (1, -1) and fixed(r): yield from (add(r, K(1)), r)
        cand += list(guards())
        if (i.ty or "")[:1] == "i" and i.ty != "i1" and len(body) < 60:
            # what the guards say about a counter that is not negative
            save = (s._hyp, s._val, s._inv); s._hyp = {b: v for b, v in s._hyp.items() if b not in body}; s._val = {}; s._inv = dict(s._inv); s._inv[i.id] = [(0, {me: 1})]
            cand += list(guards())
            s._hyp, s._val, s._inv = save
        cand += [c for c in s.special(i) if fixed(c)]
        # counters running in step, and differences kept
        for j in s.f.blocks[L]:
            if j.op != "phi": break
            if j is i: continue
            o = (0, {("ins", j.id): 1}); st = (s.step(i, body), s.step(j, body))
            for v, b in ini:
                w = [x for x, y in j.inc if y == b][0]
                if w[0] == "undef": continue
                H = s.hyps(b); t, u = s.val(v, H), s.val(w, H)
                if not fixed(t) or not fixed(u): continue
                x, y = sub((0, {me: 1}), t), sub(o, u)
                if st[0] and st[1]:
                    d = sub(scale(x, st[1]), scale(y, st[0])); cand += [d, scale(d, -1)]
                elif not t[1] and not u[1]: cand += [sub(x, y), sub(y, x), sub(o, (0, {me: 1})) if u[0] >= t[0] else sub((0, {me: 1}), o)]
                else:
                    # changed by the same amount in every iteration, in the same or the opposite direction
                    for sg in (1, -1):
                        if all(q[0] != "undef" and not sub(sub(s.val(p, H0), (0, {me: 1})), scale(sub(s.val(q, H0), o), sg))[1] and
                               sub(sub(s.val(p, H0), (0, {me: 1})), scale(sub(s.val(q, H0), o), sg))[0] == 0
                               for p, b0 in nxt for q in [[z for z, y0 in j.inc if y0 == b0][0]] for H0 in [s.edge_hyps(b0, L)]):
                            d = sub(x, scale(y, sg)); cand += [d, scale(d, -1)]
                if j.ty == "ptr" and w[0] == "int" and not t[1]: cand.append(sub((0, {("cap", ("ins", j.id)): 1}), sub((0, {me: 1}), t)))
                if j.ty == "ptr" and w[0] == "ins":
                    c = sub((0, {("cap", ("ins", j.id)): 1}), (0, {me: 1})); q = s.capof(w, H)
                    for z in q:
                        d = sub(z, t)
                        if fixed(z) and not d[1]: cand += [add(c, K(-d[0]))]
        seen = set(); live = []
        for c in cand:
            if key(c) not in seen: seen.add(key(c)); live.append(c)
        def at(c, v, H, b):
            out = (c[0], {})
            for x, n in c[1].items():
                ph = x[1] if x[0] == "cap" else x
                j = s.f.define(ph) if ph[0] == "ins" else None
                if j is None or j.op != "phi" or j.blk != L: out = add(out, (0, {x: n})); continue
                w = [q for q, y in j.inc if y == b][0]
                out = add(out, s.capval(w, H) if x[0] == "cap" else s.val(w, H), n)
            return out
        live = [c for c in live if all(s.prove_in(at(c, v, s.edge_hyps(b, L), b), s.edge_hyps(b, L), b) for v, b in ini)]
        while live:
            s._inv[i.id] = list(live)
            keepers = []
            save = (s._hyp, s._val); s._hyp = dict(s._hyp); s._val = {}
            for b in body: s._hyp.pop(b, None)
            for c in live:
                ok = True
                for v, b in nxt:
                    H = s.edge_hyps(b, L)
                    if not s.prove_in(at(c, v, H, b), H, b): ok = False; break
                if ok: keepers.append(c)
            s._hyp, s._val = save
            if len(keepers) == len(live): break
            live = keepers
        s._inv[i.id] = live
        for b in body: s._hyp.pop(b, None)
        s._val = {}
        return live

    # ------------------------------------------------------------- goals
    def prove(s, goal, blk, H=None):
        return s.prove_in(goal, s.hyps(blk) if H is None else H, blk)

    def prove_in(s, goal, H, blk, depth=4, split=()):
        """goal >= 0 under H; joins among the involved values, and of the paths leading to the blocks involved, are split"""
        if s.holds(goal, H): return True
        if depth == 0: return False
        blk = () if blk is None else blk if isinstance(blk, tuple) else (blk,)
        sys, atoms = s.closure(H, goal)
        for a in sorted(atoms, key=lambda x: (x not in goal[1], repr(x))):
            if a[0] == "cap": a = a[1]
            if a in split or a[0] != "ins": continue
            i = s.f.ins[a[1]]
            if i.op == "select":
                ok = True
                for k in (True, False):
                    H2 = list(H); s.extend(H2, s.fa.cond(i.ops[0], k))
                    s.join(i, i.ops[1 if k else 2], H2, H2)
                    if not s.prove_in(goal, H2, blk, depth - 1, split + (a,)): ok = False; break
                if ok: return True
            elif i.op == "phi" and not s.header(i) and i.blk in s.f.idom:
                if len(i.inc) > 8: continue
                if s.arrive(goal, H, blk, i.blk, atoms, depth, split + (a,), i): return True
        for b in blk:
            # the nearest block before it where paths meet
            while b != 0 and len(s.f.pred[b]) == 1: b = s.f.pred[b][0]
            if b == 0 or b not in s.f.idom or b in s.f.loops() or ("bb", b) in split or len(s.f.pred[b]) > 8: continue
            if s.arrive(goal, H, tuple(x for x in blk if x != b), b, atoms, depth, split + (("bb", b),)): return True
        return False

    def dead(s, H2, H):
        """the facts added to H contradict each other or H"""
        new = {}
        for h in H2[len(H):]:
            if not h[1]:
                if h[0] < 0: return True
            new.update(h[1])
        if not new: return False
        sys, _ = s.closure(H2, (0, new))
        if unsat(sys): return True
        more = dict(new)
        for h in H: more.update(h[1])
        if len(more) == len(new): return False
        sys, _ = s.closure(H2, (0, more))
        return unsat(sys)

    def arrive(s, goal, H, blk, m, atoms, depth, split, only=None):
        """goal >= 0 on each of the ways into block m"""
        for b in s.f.pred[m]:
            H2 = list(H); dead = False
            for h in s.edge_hyps(b, m):
                if h not in H2: H2.append(h)
            s.extend(H2, s.fa.edge(b, m))
            # inequalities on the way that say more now
            x = b
            while x != s.f.idom[m] and x in s.f.idom and x != 0:
                if len(s.f.pred[x]) == 1: s.extend(H2, [c for c in s.fa.edge(s.f.pred[x][0], x) if c[0] in ("ne", "notin")])
                x = s.f.idom[x]
            # the joins of the block take the values of the same edge
            for j in s.f.blocks[m]:
                if j.op != "phi": break
                ja = s.canon(("ins", j.id))
                v = [x for x, y in j.inc if y == b][0]
                if v[0] == "int" and j.ty == "ptr" and ("cap", ja) in goal[1]: dead = True; break     # the null pointer: nothing is accessed
                if v[0] != "undef": s.join(j, v, H2, H2)
            if not dead and not s.dead(H2, H) and not s.prove_in(goal, H2, tuple(x for x in blk if x != b) + (b,), depth - 1, split): return False
        return True
