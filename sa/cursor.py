"""Position analysis of pointers into the source text of the reader.

The text is [BUF, END) followed by a zero byte at END. A pointer is (version, offset); for each version an upper bound relative to END and
a lower bound relative to BUF are known. Forward dataflow over the compiled functions, refined by comparisons of pointers and by what a
branch says about a byte: a byte that is known not to be zero is not the terminator. Functions are analysed for the join of their calls."""
from .build import AnalysisBroken

CAP = 64
CSTR = {"strlen", "strchr", "strrchr", "strpbrk", "strspn", "strcspn", "strtol", "strtoll", "strtoul", "strtoull", "strtod", "strtof", "atoi", "atol", "atof"}
MEM = {"llvm.memcpy.p0.p0.i64": (1, 2), "llvm.memmove.p0.p0.i64": (1, 2), "memcpy": (1, 2), "memmove": (1, 2), "lStringNew": (0, 1), "lValStringLen": (0, 1), "memchr": (0, 2), "strncmp": None, "strncasecmp": None, "strnlen": None, "strndup": None}


class St:
    __slots__ = ("slot", "ub", "lb", "al")
    def __init__(s): s.slot = {}; s.ub = {"END": 0, "BUF": 0}; s.lb = {"END": 0, "BUF": 0}; s.al = {}
    def copy(s):
        n = St(); n.slot = dict(s.slot); n.ub = dict(s.ub); n.lb = dict(s.lb); n.al = dict(s.al); return n
    def up(s, p):
        u = s.ub.get(p[0]); return None if u is None else u + p[1]
    def lo(s, p):
        l = s.lb.get(p[0]); return None if l is None else l + p[1]
    def same(s, o): return s.slot == o.slot and s.ub == o.ub and s.lb == o.lb
    def gc(s):
        live = {v for v, _ in s.slot.values()} | {"END", "BUF"}
        s.ub = {k: v for k, v in s.ub.items() if k in live and v is not None}
        s.lb = {k: v for k, v in s.lb.items() if k in live and v is not None}


def cap(x, up):
    if x is None: return None
    if up: return None if x > 6 else x
    return None if x < -CAP else x


def join(a, b, blk):
    """a: state so far at the head of blk, b: new one"""
    n = St(); n.al = a.al; new = {}
    n.ub = {}; n.lb = {}
    taken = {"END", "BUF"}
    moved = {p[0] for k, p in a.slot.items() if b.slot.get(k) not in (None, p)}
    for k in sorted(a.slot, key=str):
        p = a.slot[k]; q = b.slot.get(k)
        if q is None: continue
        if p == q and p[0] in ("END", "BUF"): n.slot[k] = p; continue
        if p == q and not (p[0] in moved and p[0][:2] == ("J", blk)): n.slot[k] = p; nv = p[0]; pa = pb = (p[0], 0); taken.add(nv)
        else:
            g = (p[0], q[0], p[1] - q[1])
            if g not in new:
                if p[0][:2] == ("J", blk) and p[0] not in taken: new[g] = (p[0], 0)
                else: new[g] = (("J", blk, str(k)), p[1])
                taken.add(new[g][0])
            nv, base = new[g]; n.slot[k] = (nv, p[1] - base); pa = (p[0], base); pb = (q[0], base - g[2])
        ua, u2, la, l2 = a.up(pa), b.up(pb), a.lo(pa), b.lo(pb)
        u = None if ua is None or u2 is None else max(ua, u2); l = None if la is None or l2 is None else min(la, l2)
        for d, x, up in ((n.ub, u, True), (n.lb, l, False)):
            x = cap(x, up)
            if x is not None: d[nv] = x
    for c in ("END", "BUF"):
        n.ub[c] = max(a.ub[c], b.ub[c]); n.lb[c] = min(a.lb[c], b.lb[c])
    n.gc(); return n


class Cursor:
    def __init__(s, m, struct="lReadContext", root="lRead"):
        s.m = m; s.struct = struct
        if root not in m.defs: raise AnalysisBroken("%s not found" % root)
        s.root = m.fns[root]
        s.fields()
        s.entry = {(root, ()): None}; s.post = {}; s.obs = {}; s.nfun = set(); s.callers = {}; s.passed = {}; s.ptrcalls = {}

    # which field is the text, its end, the position
    def fields(s):
        st = {}
        for f in s.m.defs.values():
            for i in f.instrs():
                if i.op == "store":
                    c = s.ctxoff(f, i.ops[1])
                    if c: st.setdefault(c[1], []).append((f, i))
        const = {o: L[0] for o, L in st.items() if all(f is s.root for f, _ in L) and len(L) == 1}
        moving = [o for o in st if o not in const]
        if len(moving) != 1: raise AnalysisBroken("no single position in %s: %s" % (s.struct, sorted(st)))
        s.cur = moving[0]; s.bufoff = s.endoff = None
        for o, (f, i) in const.items():
            v = i.ops[0]; d = f.define(v)
            if v == ("arg", s.textarg(f)): s.bufoff = o
            elif d is not None and d.op == "getelementptr": s.endoff = o; s.endval = v
        if s.bufoff is None or s.endoff is None: raise AnalysisBroken("text and end of %s not found" % s.struct)

    def textarg(s, f):
        return next(k for k, t in enumerate(f.argtys) if t == "ptr")if not f.argtys[0] == "ptr" else 0

    def ctxoff(s, f, a):
        """(context pointer, offset) if a is the address of a field of a reader context"""
        off = 0
        while True:
            if s.isctx(f, a): return (a, off)
            d = f.define(a)
            if d is None or d.op != "getelementptr" or d.var: return None
            off += d.off; a = d.base

    def isctx(s, f, a):
        if a[0] == "arg": return a[1] + 1 < len(f.dtypes) and f.dtypes[a[1] + 1].replace("const ", "").strip() == s.struct + "*"
        d = f.define(a)
        return d is not None and d.op == "alloca" and s.struct in str(d.aty)

    def run(s):
        work = [(s.root.name, ())]; rounds = 0
        s.obs = {}
        while work:
            rounds += 1
            if rounds > 4000: raise AnalysisBroken("position analysis does not converge")
            n = work.pop(0)
            s.dirty = []
            before = s.post.get(n)
            s.func(s.m.fns[n[0]], n)
            if s.post.get(n) != before: s.dirty += [c for c in s.callers.get(n, ())]
            for d in s.dirty:
                if d not in work: work.append(d)
        for (n, j), L in s.ptrcalls.items():
            if (n, j) not in s.passed: continue
            for (me0, iid), (i, ok) in L.items():
                if me0 in s.obs:
                    s.obs[me0][(iid, n, j)] = (i, ok, "call of %s%s" % (n, "" if ok else " may be given a pointer that is not one into the source text"))
        return s

    def call_into(s, name, ctx, ptrs, caller):
        """join a call into the entry of name; ctx: (ub, lb, isexact) of the position or None; ptrs: {argno: (tag, ub, lb)}"""
        new = {"cell": ctx}; new.update(ptrs)
        old = s.entry.get(name)
        s.callers.setdefault(name, set()).add(caller)
        if old is None: j = new
        else:
            j = {}
            for k in set(old) & set(new):
                a, b = old[k], new[k]
                if a is None or b is None: continue
                j[k] = (a[0] if a[0] == b[0] else None, None if a[1] is None or b[1] is None else cap(max(a[1], b[1]), True), None if a[2] is None or b[2] is None else cap(min(a[2], b[2]), False))
        if j != old: s.entry[name] = j; s.dirty.append(name)

    def func(s, f, me):
        s.nfun.add(f.name); s.me = me
        st = St(); e = s.entry.get(me)
        s.consts = {("arg", k): ("int", v) for k, v in me[1]}
        if f is s.root: st.slot[("arg", s.textarg(f))] = ("BUF", 0)
        else:
            for k, v in (e or {}).items():
                if v is None: continue
                key = "cell" if k == "cell" else ("arg", k)
                if v[0] in ("BUF", "END"): st.slot[key] = (v[0], 0)
                else:
                    ver = ("E", str(k)); st.slot[key] = (ver, 0)
                    if v[1] is not None: st.ub[ver] = v[1]
                    if v[2] is not None: st.lb[ver] = v[2]
        s.f = f; s.res = None
        ins = {0: {(): st}}; work = [(0, ())]; n = 0
        mine = {}
        while work:
            n += 1
            if n > 40000: raise AnalysisBroken("position analysis of %s does not converge" % f.name)
            work.sort(key=lambda w: f.rpon[w[0]]); b, key = work.pop(0)
            x = ins[b][key].copy()
            if s.block(f, b, x, mine) is None: continue
            for t, y in s.edges(f, b, x):
                y = y.copy(); al = {}
                upd = {}
                for i in f.blocks[t]:
                    if i.op != "phi": break
                    v = next((o for o, p in i.inc if p == b), None)
                    p = s.ptr(f, y, v) if i.ty == "ptr" else None
                    if i.ty == "ptr": upd[("ins", i.id)] = p
                    else:
                        w = v
                        while w[0] == "ins" and w in x.al: w = x.al[w]
                        al[("ins", i.id)] = w
                        bp = y.slot.get(("byte", w[1])) if w[0] == "ins" else None
                        upd[("byte", i.id)] = bp
                for k, p in upd.items():
                    if p is None: y.slot.pop(k, None)
                    else: y.slot[k] = p
                y.al = al; y.gc()
                k2 = tuple(sorted((k, v) for k, v in al.items() if v[0] in ("int", "ins")))
                cur = ins.setdefault(t, {})
                if k2 not in cur and len(cur) > 60: k2 = ()
                if k2 not in cur: cur[k2] = y
                else:
                    z = join(cur[k2], y, (t, hash(k2) & 0xffff if k2 else 0)); z.al = cur[k2].al
                    if z.same(cur[k2]): continue
                    cur[k2] = z
                if (t, k2) not in work: work.append((t, k2))
        # obligations are recorded from the stable states only
        mine = {}
        s.res = None
        for b in ins:
            for key, x in ins[b].items(): s.block(f, b, x.copy(), mine, final=True)
        s.obs[me] = mine
        if s.res is not None: s.post[me] = s.res

    def ptr(s, f, x, o):
        p = x.slot.get(o)
        return p

    def block(s, f, b, x, mine, final=False):
        for i in f.blocks[b]:
            k = ("ins", i.id)
            if i.op == "phi": continue
            if i.op == "load":
                c = s.ctxoff(f, i.ops[0])
                if c:
                    if c[1] == s.cur and "cell" in x.slot: x.slot[k] = x.slot["cell"]
                    elif c[1] == s.bufoff: x.slot[k] = ("BUF", 0)
                    elif c[1] == s.endoff: x.slot[k] = ("END", 0)
                    continue
                p = x.slot.get(i.ops[0])
                if p is not None:
                    n = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}.get(i.ty, 8)
                    s.need(mine, f, i, x, p, n, "read"); x.slot[("byte", i.id)] = p
            elif i.op == "store":
                c = s.ctxoff(f, i.ops[1])
                if c:
                    if c[1] == s.cur:
                        p = x.slot.get(i.ops[0])
                        if p is None: x.slot.pop("cell", None); s.fresh(x, ("S", i.id), None, None); p = (("S", i.id), 0)
                        x.slot["cell"] = p
                    elif c[1] == s.endoff and f is s.root: x.slot[i.ops[0]] = ("END", 0)
                elif i.ops[1] in x.slot: s.note(mine, f, i, False, "writes into the source text")
            elif i.op == "getelementptr":
                p = x.slot.get(i.base)
                if p is not None:
                    if not i.var: x.slot[k] = (p[0], p[1] + i.off)
                    else:
                        x.slot.pop(k, None); s.variable(f, x, i, p, ("G", i.id)); x.slot[k] = (("G", i.id), 0)
            elif i.op in ("bitcast", "freeze") and i.ops[0] in x.slot: x.slot[k] = x.slot[i.ops[0]]
            elif i.op == "select" and i.ty == "ptr":
                p, q = s.arm(f, x, i, 1), s.arm(f, x, i, 2)
                if p and q:
                    v = ("L", i.id); a, b2, c2, e2 = x.up(p), x.up(q), x.lo(p), x.lo(q); x.slot.pop(k, None)
                    s.fresh(x, v, None if a is None or b2 is None else max(a, b2), None if c2 is None or e2 is None else min(c2, e2)); x.slot[k] = (v, 0)
            elif i.op in ("call", "invoke"):
                s.call(f, i, x, mine)
                if x.slot is None: return None
            elif i.op == "ret":
                c = x.slot.get("cell")
                r = (x.up(c), x.lo(c)) if c else (None, None)
                s.res = r if s.res is None else (None if s.res[0] is None or r[0] is None else max(s.res[0], r[0]), None if s.res[1] is None or r[1] is None else min(s.res[1], r[1]))
        return x

    def fresh(s, x, v, u, l):
        # whatever still is what v was the last time round keeps a version of its own
        for k in [k for k, q in x.slot.items() if q[0] == v]:
            w = ("O", str(k), v); q = x.slot[k]; used = any(e[0] == w for e in x.slot.values())
            x.slot[k] = (w, q[1])
            for d in (x.ub, x.lb):
                b = d.get(v)
                if used or b is None: d.pop(w, None)
                else: d[w] = b
        x.ub.pop(v, None); x.lb.pop(v, None)
        u, l = cap(u, True), cap(l, False)
        if u is not None: x.ub[v] = u
        if l is not None: x.lb[v] = l

    def arm(s, f, x, i, k):
        """an arm of a select of pointers: what was searched for, where it has been found"""
        p = x.slot.get(i.ops[k])
        if p is None and ("found",) + i.ops[k][1:] in x.slot:
            y = x.copy(); s.assume(f, y, i.ops[0], k == 1); p = y.slot.get(i.ops[k])
        return p

    def variable(s, f, x, i, p, v):
        """p + what is computed: the length of what has been scanned from p, or one of a few numbers each under its condition"""
        if len(i.var) != 1 or i.var[0][1] != 1: return s.fresh(x, v, None, None)
        o = i.var[0][0]; d = f.define(o)
        while d is not None and d.op in ("zext", "sext", "trunc") and d.ty != "i1" and not s.boolean(f, d.ops[0]): o = d.ops[0]; d = f.define(o)
        if d is not None and x.slot.get(("span", d.id)) == p and i.off == 0: return s.fresh(x, v, 0, x.lo(p))
        us, ls = [], []
        for val, cond, truth in s.values(f, x, o):
            if val is None: return s.fresh(x, v, *s.indexed(f, x, i, p))
            y = x.copy()
            if cond is not None:
                if s.assume(f, y, cond, truth) is False: continue
                s.nonzero(f, y, cond, lambda w: bool(w & 1) == truth)
            q = (p[0], p[1] + val + i.off); us.append(y.up(q)); ls.append(y.lo(q))
        if us: s.fresh(x, v, None if None in us else max(us), None if None in ls else min(ls))

    prover = None
    def indexed(s, f, x, i, p):
        """bounds of p plus a computed index, by linear arithmetic"""
        if s.prover is None: return None, None
        h = s.prover(f.name); H = list(h.hyps(i.blk)); me = h.val(("ins", i.id), H); up = lo = None
        ends = [k for k, q in x.slot.items() if q == ("END", 0) and k[0] in ("ins", "arg")]
        if not h.prove_in(h.val(i.var[0][0], H), H, i.blk): return None, None
        lo = x.lo((p[0], p[1] + i.off))
        for e in ends:
            ev = h.val(e, H)
            for k, q in x.slot.items():
                if k[0] in ("ins", "arg") and k != e and x.up(q) is not None: 
                    d = (lambda a, b: (a[0] - b[0], {z: n for z in set(a[1]) | set(b[1]) for n in [a[1].get(z, 0) - b[1].get(z, 0)] if n}))(ev, h.val(k, H))
                    H.append((d[0] + x.up(q), d[1]))
            d = (ev[0] - me[0], {z: n for z in set(ev[1]) | set(me[1]) for n in [ev[1].get(z, 0) - me[1].get(z, 0)] if n})
            if h.prove_in((d[0] - 1, d[1]), H, i.blk): up = -1
            elif h.prove_in(d, H, i.blk): up = 0
            if up is not None: break
        return up, lo

    def boolean(s, f, o):
        d = f.define(o); return d is not None and d.ty == "i1"

    def values(s, f, x, o):
        c = s.const(f, x, o)
        if c is not None: return [(c[1], None, None)]
        n = 0
        while o in x.al and n < 20: o = x.al[o]; n += 1
        d = f.define(o)
        if d is not None and d.op == "select":
            a, b = s.const(f, x, d.ops[1]), s.const(f, x, d.ops[2])
            if a is not None and b is not None: return [(a[1], d.ops[0], True), (b[1], d.ops[0], False)]
        if d is not None and d.op in ("zext", "sext") and s.boolean(f, d.ops[0]): return [(0, d.ops[0], False), (1 if d.op == "zext" else -1, d.ops[0], True)]
        return [(None, None, None)]

    def need(s, mine, f, i, x, p, n, what):
        u, l = x.up(p), x.lo(p)
        ok = u is not None and u + n - 1 <= 0
        ok2 = l is not None and l >= 0
        s.note(mine, f, i, ok and ok2, "%s %s" % (what, "may go beyond the end of the source text" if not ok else "may go before the start of the source text"))

    def note(s, mine, f, i, ok, msg):
        o = mine.get(i.id)
        if o is None or (o[1] and not ok): mine[i.id] = (i, ok, msg)

    def call(s, f, i, x, mine):
        n = i.cname(); k = ("ins", i.id)
        if n is None: return
        hasctx = any(s.isctx(f, o) for o in i.ops)
        tr = {j: x.slot[o] for j, o in enumerate(i.ops) if o in x.slot and o[0] != "int"}
        if n in s.m.defs and n not in MEM and (hasctx or tr):
            for j, o in enumerate(i.ops):
                if j < len(s.m.fns[n].argtys) and s.m.fns[n].argtys[j] == "ptr" and not s.isctx(f, o):
                    if j in tr: s.passed.setdefault((n, j), True)
                    s.ptrcalls.setdefault((n, j), {})[(s.me, i.id)] = (i, j in tr)
            c = x.slot.get("cell") if hasctx else None
            def d(p): return (p[0] if p[0] in ("BUF", "END") and p[1] == 0 else None, x.up(p), x.lo(p))
            key = (n, tuple(sorted((j, v[1]) for j, v in ((j, s.const(f, x, o)) for j, o in enumerate(i.ops)) if v is not None)))
            if sum(1 for e in s.entry if e[0] == n) > 24 and key not in s.entry: key = (n, ())
            s.call_into(key, d(c) if c else None, {j: d(p) for j, p in tr.items()}, s.me)
            if hasctx:
                if key in s.post:
                    v = ("C", i.id); x.slot.pop("cell", None); s.fresh(x, v, *s.post[key]); x.slot["cell"] = (v, 0)
                else: x.slot = None
            return
        if not tr: return
        s.result(f, i, x, n, tr)
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"): return
        if n in CSTR or n not in MEM:
            for p in tr.values(): s.need(mine, f, i, x, p, 1, "call of %s" % n)
            return
        spec = MEM[n]
        if spec is None:
            for p in tr.values(): s.need(mine, f, i, x, p, 1, "call of %s" % n)
            return
        if spec[0] not in tr: return
        p = tr[spec[0]]; ln = i.ops[spec[1]]
        if ln[0] == "int":
            if ln[1]: s.need(mine, f, i, x, p, ln[1], "call of %s" % n)
            return
        e = s.diff(f, x, ln, p)
        if e is None: s.note(mine, f, i, False, "call of %s with a length not known to end within the source text" % n); return
        u, l = x.up(e), x.lo(p)
        s.note(mine, f, i, u is not None and u <= 0 and l is not None and l >= 0, "call of %s may go beyond the source text" % n)

    def result(s, f, i, x, n, tr):
        """what a search of the text gives"""
        p = tr.get(0)
        if p is None or n in s.m.defs: return
        if n in ("strlen", "strspn", "strcspn"): x.slot[("span", i.id)] = p
        elif n in ("memchr", "strchr", "strrchr", "strpbrk", "strstr"):
            u = 0
            if n == "memchr":
                e = s.diff(f, x, i.ops[2], p); u = x.up(e) - 1 if e and x.up(e) is not None else None
            elif n == "strpbrk" or n != "strstr" and i.ops[1][0] == "int" and i.ops[1][1] % 256: u = -1
            v = ("F", i.id); l = x.lo(p); x.slot.pop(("ins", i.id), None); x.slot.pop(("found", i.id), None); s.fresh(x, v, u, l); x.slot[("found", i.id)] = (v, 0)

    def diff(s, f, x, o, p):
        """the pointer that the length o leads to from p: o = q - p"""
        d = f.define(o)
        while d is not None and d.op in ("zext", "sext", "trunc"): d = f.define(d.ops[0])
        if d is not None and d.op == "sub":
            a, b = f.define(d.ops[0]), f.define(d.ops[1])
            if a is not None and b is not None and a.op == b.op == "ptrtoint":
                q, r = x.slot.get(a.ops[0]), x.slot.get(b.ops[0])
                if q and r and r == p: return q
        return None

    def const(s, f, x, o):
        """a small integer argument known here"""
        n = 0
        while o in x.al and n < 20: o = x.al[o]; n += 1
        if o in s.consts: o = s.consts[o]
        return o if o[0] == "int" and len(o) > 1 and abs(o[1]) < 300 else None

    # conditions
    def ev(s, f, x, o, key, depth=0):
        """value of o if the byte at position key were zero; None if it depends on anything else"""
        if o in s.consts: return s.consts[o][1]
        if o[0] == "int": return o[1]
        if o in x.al: return s.ev(f, x, x.al[o], key, depth + 1)
        if o[0] != "ins" or depth > 40: return None
        d = f.ins[o[1]]
        bp = x.slot.get(("byte", d.id))
        if bp is not None and (d.op == "load" or d.op == "phi"): return 0 if bp == key else None
        if d.op in ("zext", "sext", "freeze"):
            v = s.ev(f, x, d.ops[0], key, depth + 1); return v
        if d.op == "trunc":
            return s.ev(f, x, d.ops[0], key, depth + 1)
        if d.op == "call" and d.cname() in ("tolower", "toupper"): return s.ev(f, x, d.ops[0], key, depth + 1)
        if d.op == "call" and d.cname() in ("isspace", "isdigit", "isalpha", "isalnum", "isxdigit", "isupper", "islower", "ispunct", "isgraph", "isprint"):
            return 0 if s.ev(f, x, d.ops[0], key, depth + 1) == 0 else None
        if d.op == "load":
            g = f.define(d.ops[0])
            if g is not None and g.op == "getelementptr":
                t = f.define(g.base)
                if t is not None and t.op == "load":
                    c = f.define(t.ops[0])
                    if c is not None and c.op == "call" and c.cname() == "__ctype_b_loc" and g.var and not g.off and s.ev(f, x, g.var[0][0], key, depth + 1) == 0: return 2
                    if c is not None and c.op == "call" and c.cname() in ("__ctype_tolower_loc", "__ctype_toupper_loc") and g.var and not g.off and s.ev(f, x, g.var[0][0], key, depth + 1) == 0: return 0
            return None
        if len(d.ops) == 2 and d.op in ("and", "or", "xor", "add", "sub", "icmp", "shl", "lshr", "mul"):
            a, b = (s.ev(f, x, q, key, depth + 1) for q in d.ops[:2])
            if d.op == "and" and (a == 0 or b == 0): return 0
            if d.op == "or" and d.ty == "i1" and (a in (1, -1) or b in (1, -1)): return 1
            if a is None or b is None: return None
            if d.op == "icmp":
                w = 64
                ua, ub = a & (2**w - 1), b & (2**w - 1)
                if (a < 0) != (b < 0) and d.pred[0] == "u":
                    ua, ub = a & 0xffffffff, b & 0xffffffff
                return int({"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub}[d.pred])
            v = {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b, "shl": a << (b & 63), "lshr": a >> (b & 63) if a >= 0 else None, "mul": a * b}[d.op]
            if v is not None and d.ty == "i1": v &= 1
            return v
        if d.op == "select":
            c = s.ev(f, x, d.ops[0], key, depth + 1)
            if c is None: return None
            return s.ev(f, x, d.ops[1] if c & 1 else d.ops[2], key, depth + 1)
        return None

    def leaves(s, f, x, o, out, depth=0):
        if o in x.al: return s.leaves(f, x, x.al[o], out, depth + 1)
        if o[0] != "ins" or depth > 40: return
        d = f.ins[o[1]]
        bp = x.slot.get(("byte", d.id))
        if bp is not None: out.add(bp)
        if d.op in ("phi", "alloca"): return
        for q in list(d.ops) + [v for v, _ in d.var]: s.leaves(f, x, q, out, depth + 1)

    def nonzero(s, f, x, o, want, neg=False):
        """the branch on o took a way that is not that of value v==0 ..."""
        out = set(); s.leaves(f, x, o, out)
        for key in out:
            v = s.ev(f, x, o, key)
            if v is None: continue
            if not want(v):
                u = x.up(key)
                if u is not None and u <= 0: s.setub(x, key, -1)

    def setub(s, x, p, u):
        c = x.ub.get(p[0]); n = u - p[1]
        if c is None or n < c: x.ub[p[0]] = n

    def setlb(s, x, p, l):
        c = x.lb.get(p[0]); n = l - p[1]
        if c is None or n > c: x.lb[p[0]] = n

    def assume(s, f, x, o, truth, depth=0):
        """refine pointers by the condition o being truth; False if it cannot be"""
        if o in x.al: return s.assume(f, x, x.al[o], truth, depth + 1)
        if o in s.consts: o = s.consts[o]
        if o[0] == "int": return bool(o[1]) == truth
        if o[0] != "ins" or depth > 40: return True
        d = f.ins[o[1]]
        if d.op in ("zext", "sext", "freeze", "trunc"): return s.assume(f, x, d.ops[0], truth, depth + 1)
        if d.op == "xor" and d.ty == "i1" and d.ops[1][0] == "int" and d.ops[1][1]: return s.assume(f, x, d.ops[0], not truth, depth + 1)
        if d.op == "and" and d.ty == "i1" and truth: return s.assume(f, x, d.ops[0], True, depth + 1) and s.assume(f, x, d.ops[1], True, depth + 1)
        if d.op == "or" and d.ty == "i1" and not truth: return s.assume(f, x, d.ops[0], False, depth + 1) and s.assume(f, x, d.ops[1], False, depth + 1)
        if d.op == "icmp":
            a, b = d.ops
            if b[0] == "int" and b[1] == 0 and d.pred in ("eq", "ne"):
                e = f.define(a)
                if a in x.al or (e is not None and e.op in ("zext", "sext", "freeze", "xor", "icmp", "phi") and e.ty in ("i1", "i32", "i64", "i8")):
                    if a in x.al or e.op in ("zext", "sext", "freeze"):
                        return s.assume(f, x, a, truth == (d.pred == "ne"), depth + 1)
            p, q = x.slot.get(a), x.slot.get(b)
            if p is None and b[0] == "int" and a[0] == "ins" and ("found", a[1]) in x.slot and d.pred in ("eq", "ne"):
                if truth == (d.pred == "ne"): x.slot[a] = x.slot[("found", a[1])]
                return True
            if p is None and q is None:
                # differences of pointers
                e, g = f.define(a), b
                if e is not None and e.op == "sub" and g[0] == "int":
                    c1, c2 = f.define(e.ops[0]), f.define(e.ops[1])
                    if c1 is not None and c2 is not None and c1.op == c2.op == "ptrtoint":
                        p, q = x.slot.get(c1.ops[0]), x.slot.get(c2.ops[0])
                        if p and q: return s.rel(x, d.pred.replace("u", "s") if d.pred[0] == "u" else d.pred, p, (q[0], q[1] + g[1]), truth)
                return True
            if p is not None and q is not None: return s.rel(x, d.pred, p, q, truth)
        return True

    def rel(s, x, pred, p, q, truth):
        neg = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
        r = pred if pred in ("eq", "ne") else pred[1:]
        if not truth: r = neg[r]
        if r == "gt": r, p, q = "lt", q, p
        if r == "ge": r, p, q = "le", q, p
        def le(a, b, k):
            u = x.up(b)
            if u is not None: s.setub(x, a, u - k)
            l = x.lo(a)
            if l is not None: s.setlb(x, b, l + k)
        if r == "lt": le(p, q, 1)
        elif r == "le": le(p, q, 0)
        elif r == "eq": le(p, q, 0); le(q, p, 0)
        elif r == "ne":
            # p != q where p <= q is known
            for a, b in ((p, q), (q, p)):
                if b == ("END", 0) and x.up(a) == 0: s.setub(x, a, -1)
                if b == ("BUF", 0) and x.lo(a) == 0: s.setlb(x, a, 1)
        return True

    def edges(s, f, b, x):
        t = f.blocks[b][-1]
        if t.op == "br":
            if len(t.ops) == 1: yield t.ops[0][1], x; return
            for truth, dst in ((False, t.ops[1][1]), (True, t.ops[2][1])):
                y = x.copy(); c = t.ops[0]
                if s.assume(f, y, c, truth) is False: continue
                s.nonzero(f, y, c, lambda v: bool(v & 1) == truth)
                yield dst, y
        elif t.op == "switch":
            vals = [c[0] for c in t.cases]
            for v, dst in [(c[0], c[1]) for c in t.cases] + [(None, t.default)]:
                y = x.copy()
                s.nonzero(f, y, t.ops[0], (lambda w, v=v: w == v) if v is not None else (lambda w: w not in vals))
                yield dst, y
        else:
            for d in f.succ[b]: yield d, x
