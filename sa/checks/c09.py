"""C09: exceptions stay exceptions: never stored as data, never handed on as arguments, never dropped."""
from ..report import Report, prog
from ..r_tags import setup

RULE = ("Exception flow: with the possible type tags of every value at every program point (forward dataflow, refined by branches, with callee result and parameter summaries) "
        "(1) no value stored into heap objects, globals or the interpreter's stacks may still be an exception or a reader comment marker, (2) no argument of a function that is also called "
        "through a pointer may be one, (3) results that may be exceptions are not ignored, success flags of runtime helpers included, (4) on every path on which a result is known to be an "
        "exception the function returns an exception (the interpreter: enters its throw code with one), (5) no way out of a function leaves a possible exception behind untested, "
        "(6) no built-in function returns a comment marker.")


def run():
    R = Report("C09", RULE)
    m = prog(); P, nats, _ = setup(m); T = P.T
    P.startup = startup(P)
    EX = T["ltException"]; BAD = frozenset([EX, T["ltComment"]])
    nst = narg = nres = 0; slots = set()
    for nm, f in sorted(m.defs.items()):
        if f.ai and not P.callers(nm) and not f.taken: continue
        fa = P.f(nm)
        nexcept = {}
        used = {o for j in f.instrs() for o in list(j.ops) + [v for v, _ in (j.inc or [])]}
        for i in f.instrs():
            if i.op == "store" and is_i16(fa, i.ops[0]):
                k = fa.klass(i)
                if parked(fa, i) and not fa.local_root(fa.addr(i.ops[1]).root) and fa.tags(i.ops[0], i.blk) & BAD: slots.add(parked(fa, i))
                if k[0] == "lVal" and k[1] == 0 or k[0] == "scalar" and tagged(fa, i):
                    a = fa.addr(i.ops[1])
                    if fa.local_root(a.root) or nm in P.startup and a.root[0] == "arg": continue
                    if k[0] == "lVal" and (k[2], k[3]) == ("lNFunc", 24): continue  # parsed lambda list: C14
                    nst += 1
                    t = fa.tags(i.ops[0], i.blk) & BAD
                    ok = not t or returned_slot(fa, i)
                    R.obligation(ok, "%s:store %s" % (f.sname, where(fa, i, k, f)), "%s stores a value that may be %s" % (f.sname, names(P, t)), i.where_full(), nm)
            if i.op == "call" and (i.cname() or "").startswith("llvm.memcpy") and len(i.ops) > 2 and i.ops[2][0] == "int" and i.ops[2][1] == 16:
                d = fa.rawaddr(i.ops[0]); sr = fa.rawaddr(i.ops[1])
                if not fa.local_root(d.root) and fa.local_root(sr.root):
                    nst += 1
                    t = local_tags(fa, sr.root, i) & BAD
                    R.obligation(not t, "%s:copy" % f.sname, "%s copies a value that may be %s into memory" % (f.sname, names(P, t)), i.where_full(), nm)
            if i.op == "call" and i.cname() in m.defs:
                g = m.defs[i.cname()]
                if g.taken:
                    for t, p, pos in P.lval_params(g):
                        narg += 1
                        tg = (fa.tags(i.ops[t], i.blk) if p is not None else local_tags(fa, fa.rawaddr(i.ops[t]).root, i)) & BAD
                        R.obligation(not tg, "%s:argument %d of %s" % (f.sname, pos, g.sname), "%s passes a value that may be %s to %s" % (f.sname, names(P, tg), g.sname), i.where_full(), nm)
                elif any(p is None for t, p, _ in P.lval_params(g)):
                    for t, p, pos in P.lval_params(g):
                        if p is None:
                            narg += 1
                            tg = local_tags(fa, fa.rawaddr(i.ops[t]).root, i) & BAD
                            R.obligation(not tg, "%s:argument %d of %s" % (f.sname, pos, g.sname), "%s passes a value that may be %s to %s" % (f.sname, names(P, tg), g.sname), i.where_full(), nm)
                if g.dtypes[0] in ("bool", "_Bool") and ("ins", i.id) not in used:
                    R.obligation(False, "%s:ignores %s" % (f.sname, g.sname), "%s ignores the success flag of %s" % (f.sname, g.sname), i.where_full(), nm)
            if i.op == "call" and i.ty == "{ i16, i64 }":
                ct = fa.call_tags(i)
                if not ct & BAD: continue
                nres += 1
                tgt = i.cname() or "a built-in function"
                if ("ins", i.id) not in used:
                    if nm == "main": continue    # the program's last value
                    R.obligation(False, "%s:ignores %s" % (f.sname, tgt), "%s ignores the result of %s, which may be an exception" % (f.sname, tgt), i.where_full(), nm)
                    continue
                if nm == "main": continue
                key = None
                for j in f.instrs():
                    if j.op == "extractvalue" and j.ops[0] == ("ins", i.id) and j.ix == 0: key = fa.tagkey(("ins", j.id)); break
                if key is None or i.cname() and lookup(P, i.cname()): continue
                if argstore(fa): continue
                bad = swallowed(fa, i, key, EX)
                R.obligation(bad is None, "%s:swallows %s" % (f.sname, tgt), "%s: an exception returned by %s is lost: %s" % (f.sname, tgt, bad), i.where_full(), nm)
    ncall, lost = unparked(P, slots)
    for f, c, why in lost:
        R.obligation(False, "%s:parked %s" % (f.sname, c.cname()), "%s: an exception recorded during %s is lost: %s" % (f.sname, c.cname(), why), c.where_full(), f.name)
    R.counts["records carrying an exception"] = len(slots); R.counts["calls that may record an exception"] = ncall
    for n in nats:
        R.obligation(T["ltComment"] not in P.ret_tags(n.fn), "comment:%s" % n.fn, "%s can return a reader comment marker" % n.fn, m.fns[n.fn].where() if hasattr(m.fns[n.fn], "where") else n.fn, n.fn)
    R.floor("stores of values into memory", nst, 60)
    R.floor("arguments of functions called through pointers", narg, 3)
    R.floor("calls whose result may be an exception", nres, 40)
    R.floor("built-in functions", len(nats), 100)
    return R.finish()


def startup(P):
    """functions that run once before the first program (called from main only): loading errors end the process there"""
    m = P.m
    up = {}
    for n in m.defs:
        for c in P.callers(n): up.setdefault(n, set()).add(c.fn.name)
    out = {"main"}; ch = True
    while ch:
        ch = False
        for n, f in m.defs.items():
            if n not in out and not f.taken and up.get(n) and up[n] <= out: out.add(n); ch = True
    run = {n for n, f in m.defs.items() if any(i.op == "indirectbr" or i.op == "call" and i.callee is not None and i.cname() is None for i in f.instrs())}
    w = list(run); down = {}
    for n in up:
        for c in up[n]: down.setdefault(c, []).append(n)
    while w:
        for t in down.get(w.pop(), ()):
            if t not in run: run.add(t); w.append(t)
    return out - run


def lookup(P, name, _memo={}):
    """a search for a key (not for anything about a value): it only reads memory and answers 'not found' with an
    exception that callers translate"""
    if name not in _memo:
        f = P.m.defs.get(name)
        _memo[name] = f is not None and not P.lval_params(f) and all(
            i.op != "store" and (i.op != "call" or (i.cname() or "").startswith("llvm.") or i.cname() in P.m.defs and (P.ret_tags(i.cname()) == frozenset([P.T["ltException"]]) or i.cname() != name and lookup(P, i.cname())))
            for i in f.instrs() if not (i.op == "store" and P.f(name).local_root(P.f(name).addr(i.ops[1]).root)))
    return _memo[name]


def parked(fa, i):
    """(structure, field) when a store keeps a value in a bookkeeping record of the runtime, not in a program value"""
    k = fa.klass(i)
    return (k[1], k[2]) if k[0] == "fld" and k[1] not in fa.p.m.structs else None


def unparked(P, slots):
    """calls that hand a record to code parking an exception there, after which the record's owner may return without fetching it"""
    m = P.m; out = []; n = 0
    for nm, f in sorted(m.defs.items()):
        fa = P.f(nm); rd = {}; calls = []
        for i in f.instrs():
            if i.op == "load" and i.ty in ("i16", "i64"):
                k = fa.klass(i)
                if k[0] == "fld" and (k[1], k[2]) in slots and fa.local_root(fa.addr(i.ops[0]).root): rd.setdefault(i.blk, []).append((i.pos, i))
            elif i.op == "call" and i.cname() in m.defs:
                for o in i.ops:
                    if o[0] == "ins" and f.ins[o[1]].ty == "ptr" and fa.local_root(fa.rawaddr(o).root):
                        st = record(fa, fa.rawaddr(o).root)
                        if any(s == st for s, _ in slots): calls.append(i)
        for c in calls:
            n += 1
            work = [(c.blk, c.pos + 1)]; seen = set(); bad = False; met = set()
            while work:
                b, p = work.pop()
                hit = [x for q, x in rd.get(b, ()) if q >= p]
                if hit: met.add(hit[0]); continue
                if f.blocks[b][-1].op == "ret": bad = True
                for t in f.succ[b]:
                    if t not in seen: seen.add(t); work.append((t, 0))
            if bad: out.append((f, c, "is not looked at"))
            else:
                for x in met:
                    r = swallowed(fa, x, fa.tagkey(("ins", x.id)), P.T["ltException"])
                    if r: out.append((f, c, r))
    return n, out


def record(fa, root):
    """struct name of a local record: from the accesses through it"""
    for i in fa.f.instrs():
        if i.op in ("load", "store"):
            a = fa.access(i)
            if a.root == root and a.st: return a.st
        elif i.op == "getelementptr":
            a = fa.rawaddr(("ins", i.id))
            if a.root == root and a.st: return a.st
    return None


def argstore(fa):
    """registers a native function, whose lambda list is read from a literal (decided by C14)"""
    return any(i.op == "store" and is_i16(fa, i.ops[0]) and fa.klass(i)[2:] == ("lNFunc", 24) for i in fa.f.instrs())


def tagged(fa, i):
    """an i16 store through a plain pointer next to a payload store: the tag of a value"""
    a = fa.addr(i.ops[1])
    for j in fa.f.blocks[i.blk]:
        if j.op == "store" and j is not i:
            b = fa.addr(j.ops[1])
            if b.root == a.root and b.var == a.var and b.off == a.off + 8: return True
    return False


def names(P, t):
    return " or ".join({"ltException": "an exception", "ltComment": "a comment marker"}.get(P.inv.get(x), "?") for x in sorted(t)) or "-"


def where(fa, i, k, f):
    return "%s+%s" % (k[2], k[3]) if k[0] == "lVal" else "value"


def local_tags(fa, root, use):
    """tags of the value kept in a local variable, from everything written to it"""
    out = set()
    for i in fa.f.instrs():
        if i.op == "store" and fa.rawaddr(i.ops[1]).root == root and fa.rawaddr(i.ops[1]).off == 0: out |= fa.tags(i.ops[0], use.blk if i.ops[0][0] == "arg" else i.blk)
        elif i.op == "call" and i.ops:
            c = i.cname() or ""
            if c.startswith("llvm.memcpy") and fa.rawaddr(i.ops[0]).root == root:
                if i.ops[2] == ("int", 6, 64): continue
                s = fa.rawaddr(i.ops[1])
                if fa.maybe_local(s.root): return fa.p.ALL
                out |= fa.p.VISIBLE
            elif not c.startswith("llvm.") and any(o[0] == "ins" and fa.f.ins[o[1]].ty == "ptr" and fa.rawaddr(o).root == root for o in i.ops): 
                if c in fa.p.m.defs and any(p is None for _, p, _ in fa.p.lval_params(fa.p.m.defs[c])): continue    # by-value copy
                return fa.p.ALL
    return frozenset(out)


def returned_slot(fa, i):
    """the slot is handed back as the function's result: every way on returns, and the returned value is loaded from that slot"""
    f = fa.f; seen = set(); work = [i.blk]; rets = 0
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b)
        t = f.blocks[b][-1]
        if t.op == "ret":
            rets += 1
            if not t.ops: return False
            o = fa.agg_part(t.ops[0], 0); d = f.define(o) if o is not None else None
            if d is None or d.op != "load": return False
            if fa.klass(d) != fa.klass(i): return False
        work += f.succ[b]
        if len(seen) > 12: return False
    return rets > 0


def is_i16(fa, o):
    if o[0] == "int": return o[2] == 16
    if o[0] == "ins": return fa.f.ins[o[1]].ty == "i16"
    if o[0] == "arg": return fa.f.argtys[o[1]] == "i16"
    return False


def throw_block(fa):
    """the block where the interpreter's throw sites meet"""
    if hasattr(fa, "_throw"): return fa._throw
    best = (0, None)
    EX = fa.p.T["ltException"]
    if any(i.op == "indirectbr" for i in fa.f.instrs()):
        for b in fa.f.rpo:
            for i in fa.f.blocks[b]:
                if i.op != "phi": break
                if i.ty != "i16": continue
                n = sum(1 for v, p in i.inc if fa.tags(v, p) == frozenset([EX]))
                if n > best[0] and n >= 5: best = (n, i)
    fa._throw = best[1]
    return best[1]


def swallowed(fa, call, key, EX, seen=frozenset()):
    """how the exception that call (or a phi merging it) may stand for gets lost, or None"""
    f = fa.f; only = frozenset([EX])
    H = throw_block(fa)
    flow = fa._flow(key, 0)
    # region where the call's result is defined (dominated by the call)
    def dom(b):
        while b != call.blk:
            if b == 0 or b not in f.idom: return False
            b = f.idom[b]
        return True
    merged = []
    for j in f.instrs():
        if j.op == "phi" and j is not call and j.ty == "i16":
            if any(fa.tagkey(v) == key and EX in fa_edge(fa, flow, key, p, j.blk) for v, p in j.inc): merged.append(j)

    def carried(o, b, seen=()):
        """is the returned tag the result itself, or another exception"""
        k = fa.tagkey(o)
        if k == key: return True
        t = fa.tags(o, b)
        if t == only: return True
        d = f.define(k)
        if d is not None and d.op == "phi" and k not in seen:
            return all(carried(v, p, seen + (k,)) for v, p in d.inc if leaves(p))
        if d is not None and d.op == "select": return carried(d.ops[1], b, seen) or carried(d.ops[2], b, seen)
        return False

    def leaves(b):
        """may the result be an exception nobody looked at when control leaves b"""
        return dom(b) and EX in flow.get(b, ()) and not consumed(b)

    def domby(b, x):
        while True:
            if b == x: return True
            if b == 0 or b not in f.idom: return False
            b = f.idom[b]

    use = {}
    for j in f.instrs():
        if j.op == "store" and is_i16(fa, j.ops[0]) and fa.tagkey(j.ops[0]) == key and parked(fa, j): 
            # only the first error is kept: the branch on the slot itself belongs to the parking
            for l in f.instrs():
                if l.op == "load" and l.ty == "i16" and fa.klass(l) == fa.klass(j) and domby(j.blk, l.blk): use.setdefault(l.blk, []).append(l)
            use.setdefault(j.blk, []).append(j)
        if j.op == "call" and j is not call and not (j.cname() or "").startswith("llvm."):
            for o in j.ops:
                if o[0] in ("ins", "arg") and fa.tagkey(o) == key: use.setdefault(j.blk, []).append(j)

    def consumed(b):
        """handed to another function on the way to b"""
        return any(dom(x) and domby(b, x) for x in use) or any(domby(b, j.blk) for j in merged if not j.ops)

    for b in f.rpo:
        t = f.blocks[b][-1]
        if t.op == "ret":
            if not t.ops or f.ret != "{ i16, i64 }":
                if leaves(b): return "it returns without looking at it"
                continue
            o = fa.agg_part(t.ops[0], 0)
            k = fa.tagkey(o)
            d = f.define(k)
            if d is not None and d.op == "phi" and d.blk == b:
                for v, p in d.inc:
                    if leaves(p) and EX in fa_edge(fa, flow, key, p, b) and not carried(v, p): return "an ordinary value is returned instead"
            elif leaves(b) and not carried(o, b): return "an ordinary value is returned instead"
        elif t.op == "indirectbr":
            if leaves(b): return "the next instruction is executed"
        else:
            for x in dict.fromkeys(f.succ[b]):
                if dom(b) and not dom(x) and leaves(b) and EX in fa_edge(fa, flow, key, b, x):
                    if any(j.blk == x and any(p == b and fa.tagkey(v) == key for v, p in j.inc) for j in merged): continue
                    if H is not None and towards(f, x, H.blk) or is_ret(f, x) or dead(f, x): continue
                    return "execution goes on as if nothing had happened"
    for j in merged:
        k = fa.tagkey(("ins", j.id))
        if j.blk != call.blk and k not in seen and not is_ret_phi(f, j) and not (H is not None and j.blk == H.blk):
            r = swallowed(fa, j, k, EX, seen | {key, k})
            if r: return r
    if H is not None:
        for v, p in H.inc:
            if leaves(p) and flow.get(p) == only and not carried(v, p): return "something else is thrown"
    return None


def is_ret(f, b):
    return f.blocks[b][-1].op == "ret"


def towards(f, b, h):
    """control can only go on to h"""
    seen = set()
    while b != h:
        if b in seen or len(f.succ[b]) != 1: return False
        seen.add(b); b = f.succ[b][0]
    return True


def dead(f, b):
    return not any(f.blocks[x][-1].op in ("ret", "indirectbr") for x in reach(f, b))


def reach(f, b):
    seen = {b}; w = [b]
    while w:
        for t in f.succ[w.pop()]:
            if t not in seen: seen.add(t); w.append(t)
    return seen


def is_ret_phi(f, j):
    t = f.blocks[j.blk][-1]
    return t.op == "ret"


def fa_edge(fa, flow, key, a, b):
    t = flow.get(a, frozenset()); e = fa.edge_set(a, b, key)
    return t if e is None else t & e
