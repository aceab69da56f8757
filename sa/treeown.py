"""Provenance of tree pointers: what is attached to an object must be a tree nothing else is attached to."""
from .facts import Prog
from .build import AnalysisBroken

INSERT = "lTreeInsert"


class Own:
    def __init__(s, P):
        s.P = P; s.m = P.m
        s.slots = {}
        for st in s.m.structs:
            for x in s.m.struct(st)["fields"]:
                if (x.get("t") or "").replace("const ", "").replace(" ", "") == "lTree*" and x["n"] != "nextFree": s.slots.setdefault(st, set()).add(x["o"])
        s.slots.setdefault("lTreeRoot", set()).add(0)
        s.ret = {}

    def rtype(s, f): return (f.dtypes[0] if f.dtypes else "").replace("const ", "").replace(" ", "")
    def atype(s, f, k): return (f.dtypes[1 + k] if len(f.dtypes) > 1 + k else "").replace("const ", "").replace(" ", "")

    def origins(s, fa, o, seen=None):
        """set of (kind, detail): null / fresh instr / load addr / arg k / insert (instr, origins) / other"""
        f = fa.f; seen = set() if seen is None else seen
        o = fa.canon(o) if o[0] == "ins" else o
        if o in seen: return set()
        seen.add(o)
        if o[0] in ("int", "zero", "null", "undef"): return {("null",)}
        if o[0] == "arg": return {("arg", o[1])}
        if o[0] != "ins": return {("other", repr(o))}
        i = f.ins[o[1]]
        if i.op in ("phi",):
            r = set()
            for v, b in i.inc: r |= s.origins(fa, v, seen)
            return r
        if i.op == "select": return s.origins(fa, i.ops[1], seen) | s.origins(fa, i.ops[2], seen)
        if i.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"): return s.origins(fa, i.ops[0], seen)
        if i.op == "load":
            a = fa.access(i)
            return {("load", i.id)}
        if i.op == "call":
            n = i.cname()
            if n == INSERT: return {("insert", i.id)}
            g = s.m.defs.get(n)
            if g is None: return {("other", "result of %s" % n)}
            r = set()
            for x in s.returns(n):
                if x[0] == "arg":
                    r |= s.origins(fa, i.ops[x[1]], seen) if x[1] < len(i.ops) else {("other", n)}
                elif x[0] == "insarg": r.add(("via", i.id, x[1]))
                elif x[0] == "fresh": r.add(("fresh", i.id))
                else: r.add(x)
            return r
        return {("other", i.op)}

    def returns(s, n):
        """origins of a function's result in terms of its arguments"""
        if n in s.ret: return s.ret[n]
        if n in ("lTreeNew", "lTreeDup", "lTreeAllocRaw"): return {("fresh",)}
        s.ret[n] = set()
        f = s.m.defs[n]; fa = s.P.f(n); out = set()
        for i in f.instrs():
            if i.op != "ret" or not i.ops: continue
            out |= s.summ(fa, s.origins(fa, i.ops[0]))
        s.ret[n] = out
        return out

    def summ(s, fa, org, depth=0):
        out = set()
        for x in org:
            if x[0] in ("null", "arg"): out.add(x)
            elif x[0] == "fresh": out.add(("fresh",))
            elif x[0] in ("insert", "via"):
                i = fa.f.ins[x[1]]; arg = i.ops[0 if x[0] == "insert" else x[2]]
                for y in s.summ(fa, s.origins(fa, arg), depth + 1) if depth < 8 else ():
                    if y[0] == "arg": out.add(("insarg", y[1]))
                    elif y[0] == "null": out.add(("fresh",))
                    elif y[0] != "insarg" or True: out.add(y)
            elif x[0] == "load": out.add(("other", "a tree that is attached elsewhere"))
            else: out.add(x)
        return out

    def istree(s, fa, o):
        """a pointer of type lTree*"""
        for x in s.origins(fa, o):
            if x[0] in ("insert", "via"): return True
            if x[0] == "fresh" and s.rtype(s.m.defs[fa.f.ins[x[1]].cname()]) == "lTree*": return True
            if x[0] == "arg" and s.atype(fa.f, x[1]) == "lTree*": return True
            if x[0] == "load":
                a = fa.access(fa.f.ins[x[1]])
                if a.st == "lTree" and a.so in s.slots.get("lTree", ()) or a.st in s.slots and a.so in s.slots[a.st]: return True
        return False


def roots(P, R):
    W = Own(P); m = P.m
    for st in ("lTree", "lTreeRoot", "lClosure"):
        if not W.slots.get(st): raise AnalysisBroken("C17: %s holds no trees" % st)
    inner = set()
    def reach(n):
        if n in inner or n not in m.defs: return
        inner.add(n)
        for i in m.defs[n].calls():
            if i.cname(): reach(i.cname())
    for n in (INSERT, "lTreeDup", "lTreeNew"): reach(n)
    nst = 0; takes = {}                 # functions that attach an argument
    work = [n for n, f in m.defs.items() if not (f.ai and not P.callers(n) and not f.taken)]
    def judge(fa, x, a, depth=0):
        """None when origin x may be attached at address a, else why not"""
        f = fa.f
        if x[0] in ("null", "fresh"): return None
        if x[0] in ("insert", "via"):
            i = f.ins[x[1]]; arg = i.ops[0 if x[0] == "insert" else x[2]]
            for y in W.origins(fa, arg):
                if y[0] == "load":
                    b = fa.access(f.ins[y[1]])
                    if a is not None and b.key() == a.key(): continue
                    if fresh_local(fa, b): continue
                    return "the grown tree replaces another object's tree only here"
                r = judge(fa, y, a, depth + 1) if depth < 6 else None
                if r: return r
            return None
        if x[0] == "load":
            b = fa.access(f.ins[x[1]])
            if a is not None and b.key() == a.key(): return None
            if fresh_local(fa, b): return None
            return "it belongs to another object (%s)" % (b.st or "memory")
        if x[0] == "arg": return ("arg", x[1])
        return x[1] if len(x) > 1 else x[0]
    def fresh_local(fa, b):
        """the object was created in this function and only lends its tree"""
        return False
    for n in sorted(work):
        f = m.defs[n]
        if n in inner: continue
        fa = None; uses = {}
        for i in f.instrs():
            if i.op != "store": continue
            if i.ops[0][0] not in ("ins", "arg"): continue
            fa = fa or P.f(n)
            if not W.istree(fa, i.ops[0]): continue
            a = fa.access(i)
            if fa.local_root(a.root) and not fa.escaped(a.root): continue
            if a.root[0] == "glob" and a.st is None: continue          # the free list
            if a.st == "lTree" and a.so not in W.slots["lTree"]: continue
            nst += 1; R.functions.add(n)
            where = i.where()
            if a.st == "lTree" or W.istree(fa, a.root if a.root[0] in ("ins", "arg") else ("int", 0, 64)):
                R.obligation(False, "%s links tree nodes itself" % n, "%s changes the links between tree nodes outside the tree operations" % n, where, n)
                continue
            for x in W.origins(fa, i.ops[0]):
                r = judge(fa, x, a)
                if isinstance(r, tuple): takes.setdefault((n, r[1]), where); continue
                R.obligation(r is None, "%s attaches a tree that is not its own" % n, "%s attaches a tree to %s although %s" % (n, a.st or "an object", r), where, n)
                if x[0] in ("fresh", "insert", "via"): uses.setdefault((x[0], x[1]), []).append((i, a))
        for k, us in uses.items():
            for p in range(len(us)):
                for q in range(len(us)):
                    if p == q: continue
                    (i, a), (j, b) = us[p], us[q]
                    if a.key() == b.key(): continue
                    later = i.blk == j.blk and i.pos < j.pos or i.blk != j.blk and j.blk in f.reaches(i.blk)
                    src = f.ins[k[1]]
                    if later and not (src.blk != i.blk and src.blk in f.reaches(i.blk) and not i.blk == src.blk and loops(f, i.blk, src.blk, j.blk)):
                        R.obligation(False, "%s attaches one tree twice" % n, "%s attaches the same tree to two objects" % n, j.where(), n)
    done = set()
    while set(takes) - done:
        for key in sorted(set(takes) - done):
            done.add(key); n, k = key
            cs = P.callers(n)
            for c in cs:
                fa = P.f(c.fn.name)
                if k >= len(c.ops): continue
                nst += 1
                for x in W.origins(fa, c.ops[k]):
                    r = judge(fa, x, None)
                    if isinstance(r, tuple): takes.setdefault((c.fn.name, r[1]), c.where()); continue
                    R.obligation(r is None, "%s hands over a tree that is not its own" % c.fn.name, "%s hands %s a tree to keep although %s" % (c.fn.name, n, r), c.where(), c.fn.name)
    R.floor("places where a tree is attached to an object", nst, 15)


def loops(f, a, src, b):
    """every way from a to b passes through src"""
    seen = set(); todo = list(f.succ[a])
    while todo:
        x = todo.pop()
        if x in seen or x == src: continue
        if x == b: return False
        seen.add(x); todo += f.succ[x]
    return True
