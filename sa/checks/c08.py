"""C08: what is immutable never changes."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup, base_type
from ..immut import *
from ..vmval import VM

RULE = ("Every built-in function, every instruction and every recursive function they use is followed through the compiled code on values nothing is known of except that whatever can carry the immutability flag carries it. "
        "Every store, copy and external call that writes is resolved to the object the address was derived from: none may change a list cell, an immutable array, buffer, view, tree or a string, nor - with a mutable buffer - "
        "the bytes behind an immutable view. Where the same function changes a mutable object of that type, it has to raise an exception for the immutable one. New views, buffers, arrays and trees share no memory with "
        "an immutable object unless they are immutable themselves; reading a tree literal and assembling code yields flagged objects.")

IMM = {"lPair": "a list cell", "lArray": "an immutable array", "elements": "the elements of an immutable array", "lBuffer": "an immutable buffer or string", "bytes": "the bytes of an immutable buffer or string",
       "lBufferView": "an immutable buffer view", "lTree": "an immutable tree", "lTreeRoot": "an immutable tree", "lSymbol": "a symbol", "?": "a value of unknown type"}
DESTRUCTIVE = {"nreverse"}      # documented to change the list it is given


def recursive(m):
    """functions that can call themselves"""
    idx = {}; low = {}; st = []; on = set(); out = set()
    calls = {n: [c for c in {i.cname() for i in f.calls()} if c in m.defs] for n, f in m.defs.items()}
    for root in m.defs:
        if root in idx: continue
        work = [(root, iter(calls[root]))]; idx[root] = low[root] = len(idx); st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx); st.append(w); on.add(w); work.append((w, iter(calls[w]))); break
                if w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    if len(c) > 1: out |= set(c)
                    elif v in calls[v]: out.add(v)
    return out


def run():
    R = Report("C08", RULE)
    P, nats, par = setup(prog()); m = P.m; vm = VM(P)
    raw = {n for n in m.defs if n.endswith("AllocRaw")}
    opaque = recursive(m) | raw | {"lGarbageCollect", "lBytecodeEval", "lApply"} | {n for n in m.defs if n.startswith("lSymS")}
    A = Imm(vm, opaque); T = A.T
    inv = {v: k for k, v in T.items()}
    ALLON = {"lBuffer": 1, "lBufferView": 1, "lArray": 1, "lTree": 1}
    VIEWON = {"lBuffer": 0, "lBufferView": 1, "lArray": 0, "lTree": 0}
    ALLOFF = {"lBuffer": 0, "lBufferView": 0, "lArray": 0, "lTree": 0}
    acc = []
    snap0 = Imm.snap

    def snap(): return dict(snap0(A), hits=list(A.hits), gen=dict(A.gen))
    A.snap = snap
    npaths = [0]; called = {}

    def args_of(f, root=False, fix={}):
        lv = P.lval_params(f); args = [None] * len(f.argtys); A.ptypes = {}
        for k, (t, v, pos) in enumerate(lv):
            x = fix[k] if k in fix else A.value(k, P.param_init.get((f.name, t)))
            if v is None:
                b = ("al", 0, "byval%d" % k); A.store(Ptr(b, 0), x[0], 2); A.store(Ptr(b, 8), x[1], 8); args[t] = Ptr(b)
            else: args[t], args[v] = x
        taken = {t for t, v, _ in lv} | {v for t, v, _ in lv}
        # pointers to objects: parameters of C types
        dts = [d for d in f.dtypes[1:]]
        c = 0; pos = {}
        for d in dts:
            if d in ("lVal", "const lVal"):
                c += 2 if c < len(f.argtys) and f.argtys[c] == "i16" else 1
            else:
                pos[c] = d; c += 1
        for k in range(len(args)):
            if args[k] is not None: continue
            args[k] = S(("arg", k), width(f.argtys[k]))
            t = base_type(pos.get(k))
            t = "lBuffer" if t == "lString" else t
            if root and t in STRUCTS: A.ptypes[args[k]] = (t, k)
        return args

    def follow(go, config):
        A.config = config
        had = A.visits, A.limit
        try:
            if A.visits > 2: A.limit = 8000
            ps = A.paths(go)
        except AnalysisBroken as e:
            # nested loops: one round of each less
            if had[0] <= 2 or "too many paths" not in str(e): raise
            A.visits, A.limit = 2, had[1]; ps = A.paths(go)
        finally: A.visits, A.limit = had
        npaths[0] += len(ps)
        for p in ps:
            for e in p.ev:
                if e[0] == "call" and e[1] in m.defs: called.setdefault(e[1], None)
        return ps

    def outcome(p):
        """(tag, payload) of a result, None when there is none"""
        if not isinstance(p.ret, Agg): return None
        d = dict(p.ret); A.sub = p.st["sub"]
        return A.norm(d.get(0)), A.norm(d.get(1))

    def restore(p):
        A.mem = p.st["mem"]; A.sub = p.st["sub"]; A.ne = p.st["ne"]; A.cmp = p.st["cmp"]; A.iv = p.st["iv"]; A.gen = p.st["gen"]

    def throws(p):
        if p.kind == "exit" or p.kind == "throw": return True
        r = outcome(p)
        return r is not None and r[0] == T["ltException"]

    def judge(name, f, ps, config, destructive):
        where = "%s:%d" % (f.file, f.line) if f else "lib/vm.c"
        seen = set()
        for p in ps:
            for what, obj, param, i, how, off in p.st["hits"]:
                if what not in IMM or param is not None: continue
                if what == "lPair" and destructive: continue
                if config is VIEWON and not (what in ("lBuffer", "bytes") and isinstance(obj, S) and obj.k[0] == "mem" and (A.kindat(p, obj.k[1]) or (None,))[0] == "lBufferView"): continue
                R.obligation(False, "%s changes %s" % (name, IMM[what]), "%s changes %s%s" % (name, IMM[what], " through an immutable view" if config is VIEWON else "") + (" (%s)" % how if how != "store" else ""), i.where(), f.name if f else None)
                seen.add(what)
        R.obligation(True, "%s leaves immutable values alone%s" % (name, " behind immutable views" if config is VIEWON else ""), "", where, f.name if f else None)

    def shared(name, f, ps):
        """new objects that share memory with immutable ones"""
        where = "%s:%d" % (f.file, f.line)
        for p in ps:
            if p.kind != "ret": continue
            restore(p)
            for b, d in list(A.mem.items()):
                if not (isinstance(b, tuple) and b and b[0] == "new"): continue
                st = b[2][:-8]; m_ = None
                if st == "lBufferView":
                    q = A.load(Ptr(b, 0), 8); k = A.kind(q)
                    fl = A.load(Ptr(b, A.flagoff[st]), 1)
                    if k and k[0] == "lBuffer" and not (isinstance(fl, int) and fl & 1): m_ = "a mutable view of an immutable buffer"
                elif st == "lBuffer":
                    q = A.load(Ptr(b, 0), 8); k = A.kind(q)
                    if k and k[0] == "bytes": m_ = "a buffer sharing the bytes of an immutable one"
                elif st == "lArray":
                    q = A.load(Ptr(b, [o for o, x in A.fields[st].items() if x["n"] == "data"][0]), 8); k = A.kind(q)
                    if k and k[0] == "elements": m_ = "an array sharing the elements of an immutable one"
                elif st == "lTreeRoot":
                    q = A.load(Ptr(b, A.rootoff), 8); k = A.kind(q)
                    if k and k[0] == "lTree": m_ = "a tree sharing the nodes of an immutable one"
                if m_: R.obligation(False, "%s makes %s" % (name, m_), "%s makes %s" % (name, m_), where, f.name)
            r = outcome(p)
            if r and r[0] == T["ltString"] and isinstance(r[1], Ptr) and isinstance(r[1].b, tuple) and r[1].b[0] == "new" and r[1].b[2] == "lBufferAllocRaw":
                fl = A.load(Ptr(r[1].b, A.flagoff["lBuffer"]), 1)
                R.obligation(isinstance(fl, int) and bool(fl & 1), "%s makes immutable strings" % name, "%s returns a string without the immutability flag" % name, where, f.name)
            if r and r[0] == T["ltString"] and isinstance(r[1], S):
                t = A.tagof(r[1])
                if t is not None and A.norm(t) == T["ltBuffer"]: R.obligation(False, "%s makes a string of a buffer" % name, "%s returns a buffer as a string without copying it: changing the buffer changes the string" % name, where, f.name)

    def reaches(f):
        """it is given values or objects"""
        return any(d in ("lVal", "const lVal") or base_type(d) in STRUCTS + ("lString", "lVal") for d in f.dtypes[1:])

    def reached(f):
        out = set(); work = [f.name]
        while work:
            n = work.pop()
            if n in out: continue
            out.add(n)
            if n in m.defs: work += [i.cname() for i in m.defs[n].calls() if i.cname()]
        return out

    def asked(name, n, f, ps):
        """what is asked to be mutable or immutable is, or is refused"""
        lv = P.lval_params(f)
        words = n.args.strip("()").split()
        if "immutable?" not in words: return
        k = words.index("immutable?"); w = "%s:%d" % (f.file, f.line)
        for want in (0, 1):
            for config in (ALLON, ALLOFF):
                for p in follow(lambda: A.frame(f, args_of(f, fix={k: (T["ltBool"], want)}), 0, None, {}, ()), config):
                    if p.kind != "ret": continue
                    restore(p); r = outcome(p)
                    if r is None or r[0] == T["ltException"] or not isinstance(r[1], Ptr) or not isinstance(r[1].b, tuple) or r[1].b[0] != "new": continue
                    fl = A.norm(A.load(Ptr(r[1].b, A.flagoff[r[1].b[2][:-8]]), 1))
                    R.obligation(isinstance(fl, int) and (fl & 1) == want, "%s: %s asked for" % (name, "immutable" if want else "mutable"), "%s returns something else when asked for %s result" % (name, "an immutable" if want else "a mutable"), w, f.name)
                    R.count("results with the immutability asked for")

    # --- functions that take structures: what they write through which parameter (to a fixed point)
    def effects(work):
        done = set()
        while work:
            n = work.pop()
            f = m.defs[n]
            if n in raw or n in done: continue
            A.name = n
            if not reaches(f): done.add(n); continue
            A.visits = 2
            ps = follow(lambda: A.frame(f, args_of(f, True), 0, None, {}, ()), ALLON)
            A.visits = Imm.visits
            eff = {h[2] for p in ps for h in p.st["hits"] if h[2] is not None and (h[0] in IMM or h[0] == "scope")}
            roots[n] = ps
            done.add(n)
            if eff - A.effects.get(n, set()):
                A.effects[n] = A.effects.get(n, set()) | eff
                work |= {c for c in roots if any(e[0] == "call" and e[1] == n for p in roots[c] for e in p.ev)}; done -= work
            work |= {c for c in called if c not in roots and c not in STOP} - done

    STOP = {"lGarbageCollect", "lBytecodeEval", "lApply"} | {n for n in m.defs if n.startswith("lSymS")} | raw
    roots = {}
    effects({n for n in opaque - STOP if n.startswith(("lTreeInsert", "lTreeDup"))})

    codes = {c: n for n, c in m.enum("lOpcode").items()}
    done = 0
    subjects = [(n.name if n.cls is None else "%s :%s" % (inv.get(n.cls, n.cls)[2:], n.name), m.defs[n.fn], n.kind == "func" and n.name in DESTRUCTIVE) for n in nats] + [(n, c, False) for c, n in codes.items() if c in vm.entry] + [("throwing", None, False)]

    def way(sub):
        A.ptypes = {}
        return (lambda: A.run_throw()) if sub is None else (lambda: A.run(sub, [None] * 4)) if isinstance(sub, int) else (lambda: A.frame(sub, args_of(sub), 0, None, {}, ()))
    fn_ = lambda f: f.name if f else None
    free = {}; on = {}
    for full, sub, destr in subjects:
        A.name = full; f = None if sub is None or isinstance(sub, int) else sub
        ps = on[full] = follow(way(sub), ALLON)
        R.obligation(bool(ps), "%s completes" % full, "%s never completes" % full, "%s:%d" % (f.file, f.line) if f else "lib/vm.c", fn_(f))
        judge(full, f, ps, ALLON, destr)
        if f: shared(full, f, ps); done += 1
        for n in nats:
            if f and n.fn == f.name: asked(full, n, f, ps)
        free[full] = follow(way(sub), ALLOFF)
        if any(h[0] in ("lBuffer", "bytes") for q in (ps, free[full]) for p in q for h in p.st["hits"]): judge(full, f, follow(way(sub), VIEWON), VIEWON, destr)
    effects({c for c in called if c not in roots and c not in STOP})
    for n, ps in sorted(roots.items()):
        if n in A.effects: continue
        judge(n, m.defs[n], ps, ALLON, False)
    R.count("functions that write through parameters", len(A.effects))

    # --- refusing: whatever is changed when mutable raises an exception when it is not
    KINDS = {"lBuffer", "bytes", "lBufferView", "lArray", "elements", "lTree", "lTreeRoot"}
    STATE = {"ltBuffer", "ltBufferView", "ltArray", "ltTree", "ltString"}
    def chain(p, obj):
        """the operand an object was reached through"""
        n = 0
        while isinstance(obj, (S, Ptr)) and n < 30:
            n += 1
            if isinstance(obj, Ptr): obj = obj.b; continue
            if obj.k[0] == "pay": return ("arg", obj.k[1])
            if obj.k[0] == "slot": return ("slot", obj.k[1])
            obj = obj.k[1] if len(obj.k) > 1 else None
        return None
    nm = 0
    for full, sub, destr in subjects:
        f = None if sub is None or isinstance(sub, int) else sub; fn = f.name if f else None
        ps = free[full]
        ways = set()
        for p in ps:
            for what, obj, param, i, how, off in p.st["hits"]:
                if what in KINDS and param is None and not (how == "store" and off == A.flagoff.get(what)):
                    w = chain(p, obj)
                    if w:
                        restore(p)
                        t = A.norm(A.tagsym(w))
                        if isinstance(t, int) and inv[t] in STATE: ways.add((w, t))
        if not ways: continue
        nm += 1
        ps = on[full]
        for p in ps:
            restore(p)
            for w, t in ways:
                if A.norm(A.tagsym(w)) != t: continue
                ok = throws(p) if f else p.ret is not None and p.ret[0] == "throw" or p.kind == "exit"
                R.obligation(ok, "%s refuses an immutable %s" % (full, inv[t][2:]), "%s does not raise an exception when given an immutable %s" % (full, inv[t][2:]), "%s:%d" % (f.file, f.line) if f else "lib/vm.c", fn)
    R.floor("functions and instructions that change objects", nm, 5)
    R.floor("built-in functions followed", done, 150)
    R.count("paths followed", npaths[0])

    # --- flags set where immutable things are made
    lits = 0; rec = recursive(m); nontree = {x for x in m.defs if x in rec or "lTreeRootAllocRaw" not in reached(m.defs[x])}
    for n in sorted(opaque):
        f = m.defs[n]
        if n in raw or not any(base_type(d) == "lReadContext" for d in f.dtypes[1:]) or f.dtypes[0] != "lVal": continue
        if n not in rec: continue
        A.name = n; A.visits = 2; A.opaque = nontree; f = m.defs[n]
        try: ps = follow(lambda: A.frame(f, args_of(f), 0, None, {}, ()), ALLOFF)
        finally: A.visits = Imm.visits; A.opaque = opaque
        for p in ps:
            if p.kind != "ret": continue
            restore(p)
            r = outcome(p)
            if r is None or r[0] != T["ltTree"] or not isinstance(r[1], Ptr): continue
            q = A.load(Ptr(r[1].b, A.rootoff), 8)
            if q == 0: continue
            q = A.ptr(q)
            fl = A.norm(A.load(Ptr(q.b, q.o + A.flagoff["lTree"]), 1))
            ok = isinstance(fl, int) and fl & 1 or isinstance(fl, S) and fl.k[0] == "or" and any(isinstance(x, int) and x & 1 for x in fl.k[1:])
            lits += 1
            R.obligation(bool(ok), "%s: tree literals are immutable" % n, "%s returns a tree literal that can be changed" % n, "%s:%d" % (f.file, f.line), n)
    R.floor("ways to read a tree literal", lits, 1)
    # code: the literals of an assembled function
    code = 0
    o = {x["n"]: x["o"] for x in m.struct("lBytecodeArray")["fields"]}
    for n in nats:
        f = m.defs[n.fn]
        if "lBytecodeArrayAllocRaw" not in reached(f): continue
        A.name = n.fn
        for p in follow(lambda: A.frame(f, args_of(f), 0, None, {}, ()), ALLOFF):
            restore(p); r = outcome(p)
            if r is None or r[0] != T["ltBytecodeArr"] or not isinstance(r[1], Ptr) or r[1].b[0] != "new": continue
            q = A.ptr(A.load(Ptr(r[1].b, o["literals"]), 8))
            fl = A.norm(A.load(Ptr(q.b, q.o + A.flagoff["lArray"]), 1))
            code += 1
            R.obligation(isinstance(fl, int) and bool(fl & 1), "%s makes the literals immutable" % n.name, "%s returns code whose literals can be changed" % n.name, "%s:%d" % (f.file, f.line), f.name)
    R.floor("ways to assemble code", code, 1)
    R.assumptions += ["list cells are changed by nreverse, which is documented to", "the empty tree literal has no node to carry the flag: it is not covered", "the collector does not change objects it does not free (C01, C02)",
                      "functions called through pointers are the built-in functions, which are all followed"]
    return R.finish()
