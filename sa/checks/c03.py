"""C03: collections happen only at the interpreter's safe points, and everything live is stored where the collector looks."""
from ..report import Report, prog
from ..r_tags import setup
from ..cg import CG, liveness, live_across
from ..build import AnalysisBroken

RULE = ("Call graph: no built-in, and nothing the interpreter calls, reaches the collector or the interpreter; objects are only released by the collector. "
        "At each collection in the interpreter every live value is derived from the thread's stacks or current code (coinductive provenance over phis).")
HEAP = ("lPair", "lArray", "lTree", "lTreeRoot", "lClosure", "lBuffer", "lBufferView", "lBytecodeArray", "lSymbol", "lNFunc", "lVal")


def run():
    R = Report("C03", RULE)
    m = prog()
    P, nats, par = setup(m)
    cg = CG(m)
    for x in ("lGarbageCollect", "lBytecodeEval", "lGCSweep"):
        if x not in m.defs: raise AnalysisBroken("%s not found" % x)
    # functions putting objects on a free list
    freers = set()
    for n, f in m.defs.items():
        fa = P.f(n)
        for i in f.instrs():
            if i.op == "store" and i.ops[1][0] == "glob" and i.ops[1][1].endswith("FFree"):
                v = fa.canon(i.ops[0]); d = f.define(v)
                if v[0] == "int": continue
                # the pop side stores ->nextFree loaded from the old head
                if not (d is not None and d.op == "load"): freers.add(n)
    R.floor("releasing functions", len(freers), 6)
    collect = {"lGarbageCollect", "lGCSweep"} | freers
    fns = sorted({n.fn for n in nats if n.fn in m.defs})
    for fn in fns:
        seen = cg.reach(fn)
        for bad, what in (("lGarbageCollect", "the collector"), ("lBytecodeEval", "the interpreter")):
            R.obligation(bad not in seen, "%s reaches %s" % (m.fns[fn].sname, bad), "built-in %s can reach %s while it holds unrooted values: %s"
                         % (m.fns[fn].sname, what, cg.path(seen, bad) if bad in seen else ""), "%s:%d" % (m.fns[fn].file, m.fns[fn].line), fn)
    R.floor("built-ins", len(fns), 100)
    # the interpreter is not re-entered
    seen = {}
    for c, i in cg.out["lBytecodeEval"].items():
        seen = cg.reach(c)
        R.obligation("lBytecodeEval" not in seen, "interpreter re-entered through %s" % c, "the interpreter can be re-entered: its caller's stacks would not be traced: lBytecodeEval -> %s" % (cg.path(seen, "lBytecodeEval") if "lBytecodeEval" in seen else ""), i.where(), "lBytecodeEval")
    # who may call the collector / release objects
    for n, f in sorted(m.defs.items()):
        for i in f.calls():
            c = i.cname()
            if c == "lGarbageCollect":
                R.obligation(n == "lBytecodeEval", "%s calls the collector" % f.sname, "%s starts a collection outside of the interpreter loop" % f.sname, i.where(), n)
            elif c in freers and n not in freers:
                R.obligation(n == "lGCSweep" or only_from_sweep(m, P, n), "%s releases objects" % f.sname, "%s releases heap objects (%s) outside of the collector" % (f.sname, c), i.where(), n)
    # safe points
    f = m.fns["lBytecodeEval"]; fa = P.f("lBytecodeEval")
    li, lo = liveness(f)
    roots = thread_object(P, fa)
    rd, st = local_accesses(fa)
    gcs = f.calls("lGarbageCollect") if isinstance(f.calls("lGarbageCollect"), list) else list(f.calls("lGarbageCollect"))
    R.floor("safe points", len(gcs), 4)
    for g in gcs:
        R.obligation(fa.addr(g.ops[0]).root == roots, "collector gets the running thread", "the collection is not given the running thread's stacks", g.where(), "lBytecodeEval")
        for v in sorted(live_across(f, g, lo)):
            d = f.define(v)
            if v == roots or d is not None and (d.op == "alloca" or d.ty not in ("ptr", "i64", "{ i16, i64 }")): continue
            if d is not None and d.ty == "i64" and not payload(fa, v): continue
            ok = rooted(P, fa, v, roots, g)
            R.obligation(ok, "%s live across a collection" % (f.var(v) or "value"), "%s (defined at %s) is still used after the collection at %s but not stored anywhere the collector looks"
                         % (f.var(v) or "a value", d.where() if d is not None else "entry", g.where()), g.where(), "lBytecodeEval")
        # values kept in local memory (not promoted to registers) across the collection
        for a in f.instrs():
            me = ("ins", a.id)
            if a.op != "alloca" or me == roots or me not in rd: continue
            R.obligation(not local_read_after(fa, me, g, rd, st), "local memory live across a collection",
                         "a local variable is read after the collection at %s without being stored where the collector looks" % g.where(), g.where(), "lBytecodeEval")
    return R.finish()


def only_from_sweep(m, P, n):
    cs = P.callers(n)
    return bool(cs) and all(c.fn.name == "lGCSweep" for c in cs)


def thread_object(P, fa):
    for i in fa.f.instrs():
        if i.op == "alloca" and (i.aty or "").find("lThread") >= 0: return ("ins", i.id)
    # by use: the object handed to the collector
    for g in fa.f.calls("lGarbageCollect"): return fa.addr(g.ops[0]).root
    return None


def payload(fa, v):
    """is an i64 possibly a value's payload (as opposed to a plain integer computed here)?"""
    i = fa.f.define(v)
    if i is None: return True
    return i.op in ("load", "extractvalue", "ptrtoint", "phi", "call")


def rooted(P, fa, v, thread, g):
    """coinductive: v is in (or derived from a field of something in) the thread's stacks/current code"""
    f = fa.f
    def leaf(o, goal):
        """None: not rooted, else the (value, program point) pairs it depends on"""
        o = fa.canon(o) if o[0] == "ins" else o
        if stored_in_thread(fa, o, thread, goal): return []
        i = f.define(o)
        if i is None: return [] if o[0] in ("int", "undef", "glob") else None
        if i.op == "phi": return [(x, (b, len(f.blocks[b]) - 1)) for x, b in i.inc]
        if i.op == "load":
            a = fa.addr(i.ops[0])
            if a.root == thread: return []
            if fa.klass(i)[0] == "lVal": return None          # a popped value: its stack slot is no longer traced
            l = f.define(a.root)
            if l is not None and l.op == "load" and fa.addr(l.ops[0]).root == thread: return []
            return [(a.root, goal)]
        if i.op == "getelementptr": return [(fa.addr(o).root, goal)]
        if i.op in ("bitcast", "inttoptr", "ptrtoint", "freeze"): return [(i.ops[0], goal)]
        return None
    work = [(v, (g.blk, g.pos))]; seen = set()
    while work:
        o = work.pop()
        if o in seen: continue
        seen.add(o)
        d = leaf(*o)
        if d is None:
            if __import__("os").environ.get("DBG"): print("unrooted", o, f.define(o[0]), f.define(o[0]) and f.define(o[0]).where_full())
            return False
        work += d
    return True


def stored_in_thread(fa, o, thread, g):
    """is o stored into the thread object or into one of its stacks on every way from its definition to g?"""
    f = fa.f
    if not hasattr(fa, "_tstores"):
        fa._tstores = {}
        stacks = {fa.canon(i.ops[0]) for i in f.instrs() if i.op == "store" and fa.addr(i.ops[1]).root == thread}
        for i in f.instrs():
            if i.op != "store": continue
            a = fa.addr(i.ops[1])
            l = f.define(a.root)
            if a.root == thread or (a.root in stacks and l is not None and l.op == "call") or (l is not None and l.op == "load" and fa.addr(l.ops[0]).root == thread): fa._tstores.setdefault(fa.canon(i.ops[0]), []).append(i)
    ss = fa._tstores.get(o)
    if not ss: return False
    d = f.define(o)
    b, p = (d.blk, d.pos + 1) if d is not None else (0, 0)
    at = {}
    for s in ss: at.setdefault(s.blk, []).append(s.pos)
    return not path_avoiding(f, (b, p), g, at)


def path_avoiding(f, start, goal, at):
    """is there a way from start to goal (block, position) that meets none of the positions in at?"""
    work = [start]; seen = set()
    while work:
        b, p = work.pop()
        stop = min([x for x in at.get(b, []) if x >= p], default=None)
        if b == goal[0] and goal[1] >= p and (stop is None or goal[1] < stop): return True
        if stop is None:
            for s in f.succ[b]:
                if s not in seen: seen.add(s); work.append((s, 0))
    return False


def local_accesses(fa):
    rd = {}; st = {}
    f = fa.f
    for i in f.instrs():
        if i.op == "load" and i.ty in ("ptr", "i64"): rd.setdefault(fa.addr(i.ops[0]).root, []).append(i)
        elif i.op == "store": st.setdefault(fa.addr(i.ops[1]).root, {}).setdefault(i.blk, []).append(i.pos)
        elif i.op == "call":
            for o in i.ops:
                if o[0] == "ins" and f.ins[o[1]].ty == "ptr": st.setdefault(fa.addr(o).root, {}).setdefault(i.blk, []).append(i.pos)
    return rd, st


def local_read_after(fa, me, g, rd, st):
    """a load from local variable me, reachable after g without an intervening store"""
    f = fa.f
    return any(path_avoiding(f, (g.blk, g.pos + 1), (r.blk, r.pos), st.get(me, {})) for r in rd.get(me, ()))
