"""C19: frames and stacks of the virtual machine."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..checks.c14 import CallVM, onthrow
from ..vma import *

RULE = ("Every instruction handler, the exception path and the entry of the virtual machine are followed with the sizes of the two stacks left open. Highest slot written, slots counted as filled, and heights saved and "
        "restored are compared with the length of the instruction; wherever execution enters other code, the capacity must be at least the height reached plus the length of that code plus what single "
        "instructions need beyond their length. Since the height at an instruction depends on the instruction alone (C25) and none raises it by more than its own length, no stack access leaves the stacks.")

EXC = "an exception"; VSZ = S(("value stack size",), 32); CSZ = S(("closure stack size",), 32)


class Stacks(CallVM):
    limit = 60000

    def __init__(s, vm):
        super().__init__(vm)
        s.growers = {n for n, f in s.m.defs.items() if any("lThread" in t for t in f.dtypes) and any(i.cname() in ("realloc", "malloc") for i in f.calls())}
        s.log = None

    def into(s, n): return super().into(n) or n in s.growers

    def snap(s): return dict(super().snap(), acc=s.acc, grown=s.grown, gen=s.gen)

    def setup(s):
        super().setup(); s.acc = {"VS": [], "CS": []}; s.grown = []; s.freed = set()
        o = s.fo["lThread"]; c = s.ctx
        for k, v in (("valueStackSize", VSZ), ("closureStackSize", CSZ)): s.store(Ptr(c.b, c.o + o[k]), v, 4); s.setiv("s", v, 0, 1 << 26)
        s.on = True

    on = False; extra = None       # extra: the length of the current code, at least 0

    def region(s, p):
        b = s.ptr(p).b
        while isinstance(b, S) and b.k[0] == "idx": b = b.k[1] if not isinstance(b.k[1], Ptr) else b.k[1].b
        return b if isinstance(b, tuple) and b and b[0] in ("VS", "CS") else None

    def note(s, p, what, n):
        b = s.region(p) if s.on else None
        if b is None: return
        q = s.ptr(p); el = 16 if b[0] == "VS" else 8
        if isinstance(q.b, tuple):
            for k in range(q.o // el, (q.o + max(n, 1) - 1) // el + 1): s.acc[b[0]].append((what, k, b in s.freed))
        else: s.acc[b[0]].append((what, s.sub_(s.lin(q), b), b in s.freed))

    def sub_(s, d, b): return {k: x for k, x in d.items() if not (isinstance(k, tuple) and k == b) and x}

    def load(s, p, n):
        s.note(p, "load", n)
        return super().load(p, n)

    def store(s, p, v, n):
        s.note(p, "store", n)
        return super().store(p, v, n)

    def copy(s, d, r, n):
        on = s.on
        if on and d is not None and r is not None: s.note(r, "load", n); s.note(d, "store", n)
        s.on = False
        try: return super().copy(d, r, n)
        finally: s.on = on

    def init(s, b, o, n):
        if isinstance(b, tuple) and b and b[0] in ("VS", "CS") and len(b) > 1: return super().init((b[0],), o, n)
        return super().init(b, o, n)

    def model(s, F, i, n, args):
        if n in ("realloc", "malloc"):
            a = [s.norm(x) for x in args]
            r = s.region(a[0]) if n == "realloc" else None
            if s.choose(2): return (0,)
            if n == "malloc": p = Ptr(("new", s.fresh(), "stack")); s.mem[p.b] = {}
            else:
                p = Ptr((r[0] if r else "new", s.fresh())); old = s.ptr(a[0]).b
                s.mem[p.b] = dict(s.mem.get(old, {})); s.freed.add(old)
            s.grown.append((n, a[0], a[-1], p, i)); return (p,)
        if n == "free":
            s.freed.add(s.ptr(args[0]).b); return (None,)
        if n == "exit": raise Done("exit", n)
        return super().model(F, i, n, args)

    def start(s):
        """the entry of the virtual machine, up to the first instruction"""
        vm = s.vm; s.on = False; s.mem.pop(s.ctx.b, None); s.fr = -1
        return s.finish(lambda: s.frame(s.f, [S(("arg", k)) for k in range(len(s.f.argtys))], 0, None, {k: Ptr(("al", 0, k)) for k in s.allocs}, {vm.db, vm.throw}))


def facts(A):
    """linear forms that are at least 0 on this path"""
    out = [A.minus(A.lin(VSZ), SP0 + 1), A.minus(A.lin(CSZ), CSP0 + 1)] + [A.extra] * bool(A.extra)
    for (q, x, y), r in A.cmp.items():
        if q != "slt": continue
        d = A.diff(x, y)
        if r: out.append(A.minus({k: -v for k, v in d.items()}, 1))
        else: out.append(d)
    return out


def least(A, e):
    """a lower bound of a linear form, or None"""
    best = None; fs = facts(A)
    def const(d): return d.get(1, 0) if set(d) <= {1} else None
    for d in [e] + [sub(e, f) for f in fs] + [sub(sub(e, f), g) for k, f in enumerate(fs) for g in fs[k + 1:]]:
        c = const({k: x for k, x in d.items() if x})
        if c is None:
            lo = A.rng_lin({k: x for k, x in d.items() if x})[0]
            c = lo if lo > -(1 << 24) else None
        if c is not None and (best is None or c > best): best = c
    return best


def sub(a, b):
    d = dict(a)
    for k, x in b.items(): d[k] = d.get(k, 0) - x
    return {k: x for k, x in d.items() if x}


def run():
    R = Report("C19", RULE)
    P, _, _ = setup(prog()); m = P.m
    vm = VM(P); A = Stacks(vm); f = vm.f; W = "%s" % f.file
    o = A.fo["lThread"]; oc = A.fo["lClosure"]; ob = A.fo["lBytecodeArray"]
    R.functions |= {f.name} | A.growers
    fld = lambda n, w: A.norm(A.load(Ptr(A.ctx.b, A.ctx.o + o[n]), w))

    def width_of(st, name):
        fs = sorted(x["o"] for x in m.struct(st)["fields"]); k = {x["n"]: x["o"] for x in m.struct(st)["fields"]}[name]
        ws = {i.sz if hasattr(i, "sz") else None for i in ()}
        ws = set()
        for i in f.instrs():
            if i.op in ("load", "store"):
                a = vm.fa.access(i)
                if a.st == st and a.so == k:
                    ty = i.ty if i.op == "load" else (f.define(i.ops[0]).ty if f.define(i.ops[0]) is not None else None)
                    if ty: ws.add(width(ty) // 8)
        return ws
    wsp = width_of("lThread", "sp"); wcs = width_of("lClosure", "sp")
    if not wsp or not wcs: raise AnalysisBroken("C19: the fields for the stack height are not found")
    R.obligation(min(wcs) >= max(wsp), "saved height: width", "the height of the stack is saved in %d bytes, although it has %d: deep recursion returns to another height" % (min(wcs), max(wsp)), W, f.name)
    HW = min(wcs)

    over = {"VS": (None, None), "CS": (None, None)}; ent = []; lens = {}
    base = {"VS": SP0, "CS": CSP0}; el = {"VS": 16, "CS": 8}; word = {"VS": "operand", "CS": "closure"}
    field = {"VS": "valueStack", "CS": "closureStack"}; size = {"VS": "valueStackSize", "CS": "closureStackSize"}; full = {"VS": VSZ, "CS": CSZ}
    tot = dict(paths=0, acc=0, ent=0, ret=0, sym=0, **{"try": 0}); target = []

    def saved(c): return A.load(Ptr(c.b, oc["sp"]), HW)

    def accesses(name, L, sp, csp, judged):
        for r, h in (("VS", sp), ("CS", csp)):
            written = set(); w = word[r]
            for what, i, dead in A.acc[r]:
                tot["acc"] += 1
                R.obligation(not dead, "%s: old %s stack" % (name, w), "%s uses the %s stack that was replaced by a bigger one" % (name, w), W, f.name)
                if not isinstance(i, int):
                    # a height restored from a frame
                    tot["sym"] += 1; ok = False
                    for k in range(0, 12):
                        d = sub(i, {x: y * el[r] for x, y in A.lin(saved(Ptr(("clo", -k)))).items()})
                        ok |= set(d) <= {1} and 0 <= d.get(1, 0) < 2 * el[r]
                    R.obligation(ok, "%s: accesses the %s stack anywhere" % (name, w), "%s accesses the %s stack at a place that is neither below its top nor a height a frame saved" % (name, w), W, f.name)
                    continue
                if what == "store":
                    written.add(i)
                    if over[r][0] is None or i - base[r] - L > over[r][0]: over[r] = (i - base[r] - L, name)
                else:
                    R.obligation(i <= base[r] or i in written, "%s: reads above the top of the %s stack" % (name, w), "%s reads a slot of the %s stack above its top that it did not write" % (name, w), W, f.name)
            if judged and isinstance(h, int):
                miss = [i for i in range(base[r] + 1, h + 1) if i not in written]
                R.obligation(not miss, "%s: fills the %s stack" % (name, w), "%s raises the %s stack over a slot it did not write" % (name, w), W, f.name)
                R.obligation(h - base[r] <= L, "%s: raises the %s stack" % (name, w), "%s, %d bytes long, raises the %s stack by %d" % (name, L, w, h - base[r]), W, f.name)

    def sizes(name, entry=False):
        for r in ("VS", "CS"):
            v = fld(size[r], 4); p = fld(field[r], 8)
            if not entry:
                lo = least(A, A.diff(v, full[r]))
                R.obligation(lo is not None and lo >= 0, "%s: %s shrinks" % (name, size[r]), "%s sets %s to less than it was" % (name, size[r]), W, f.name)
            mine = [g for g in A.grown if g[3] == p]
            if mine:
                R.obligation(not sub(A.lin(mine[0][2]), {k: x * el[r] for k, x in A.lin(v).items()}), "%s: %s allocated" % (name, size[r]), "the %s stack is given another size than %s says" % (word[r], size[r]), mine[0][4].where(), f.name)
                for g in A.grown:
                    if g[0] == "realloc" and g[3] == p and not entry: R.obligation(A.ptr(g[1]).b == (r,), "%s: %s moved" % (name, field[r]), "the %s stack is replaced by one grown from something else" % word[r], g[4].where(), f.name)
            else: R.obligation(not entry and p == Ptr((r,)) and not A.diff(v, full[r]), "%s: %s without memory" % (name, size[r]), "%s changes without the stack being allocated anew" % size[r], W, f.name)

    def length(text):
        t = A.ptr(text)
        return A.diff(A.load(Ptr(t.b, t.o + ob["dataEnd"]), 8), A.load(Ptr(t.b, t.o + ob["data"]), 8))

    def entered(name, text, sp, csp):
        """how much more than the length of the code entered there is certainly room for"""
        ln = length(text); tot["ent"] += 1
        for r, h in (("VS", sp), ("CS", csp)):
            ent.append((r, least(A, sub(A.minus(A.lin(fld(size[r], 4)), h), ln)), name))

    def own_frame(name, out, csp):
        top = A.norm(A.load(Ptr(fld("closureStack", 8).b, csp * 8), 8))
        R.obligation(isinstance(top, Ptr) and isinstance(top.b, tuple) and top.b[0] == "new" and out.get(vm.cur) == top, name + ": own frame",
                     "%s runs code in a scope that may already be running: where that one continues is lost" % name, W, f.name)

    def judge(name, runner, nops=None):
        A.name = name
        def go():
            A.expect_clo = 0; A.on = False
            text0 = fld("text", 8); A.on = True
            kind, out, _ = runner()
            A.on = False
            return kind, out, fld("sp", 4), fld("csp", 4), text0, fld("text", 8)
        k = 0; A.on = False
        for p in A.paths(go):
            if p.kind != "ret": continue
            A.mem, A.sub, A.ne, A.cmp, A.iv, A.acc, A.grown, A.gen = (p.st[x] for x in ("mem", "sub", "ne", "cmp", "iv", "acc", "grown", "gen"))
            kind, out, sp, csp, text0, text = p.ret; A.on = False
            k += 1; A.extra = None if text is None else length(text)
            if kind == "exit": accesses(name, lens.get(name, 1), sp, csp, False); continue
            ip = A.norm(out.get(vm.ip)) if kind == "next" else None
            off = -1 if vm.disp.op == "indirectbr" else 0
            L = ip.o + off - 999 if isinstance(ip, Ptr) and ip.b == ("code",) and 1000 <= ip.o < 1100 else None
            if nops is not None: L = nops + 1
            if L is not None: lens[name] = max(lens.get(name, 1), L)
            fresh = lambda: isinstance(csp, int) and any(isinstance(i, int) and what == "store" and i == csp for what, i, _ in A.acc["CS"])
            back = kind == "next" and isinstance(out.get(vm.cur), Ptr) and out[vm.cur].b[0] == "clo"
            mine = ip is not None and ("code",) in A.lin(ip)
            call = kind == "next" and not mine and fresh()
            accesses(name, lens.get(name, 1), sp, csp, kind == "next")
            sizes(name)
            if kind != "next": continue
            top = A.norm(A.load(Ptr(fld("closureStack", 8).b, csp * 8), 8)) if isinstance(csp, int) else None
            R.obligation(top is not None and top == A.norm(out.get(vm.cur)), name + ": current scope", "after %s the current scope is not the one on top of the stack" % name, W, f.name)
            if not call and fresh() and A.un("trunc", A.load(Ptr(top.b, top.o + oc["type"]), 1), 8, 8) == A.closureTry:
                tot["try"] += 1; clo = Ptr(("clo", 0)); at = A.lin(A.load(Ptr(clo.b, oc["ip"]), 8))
                R.obligation(at in target, name + ": place after an exception", "execution does not continue where a jump of the same distance goes once an exception was handled", W, f.name)
                R.obligation(A.norm(saved(clo)) == sp, name + ": height after an exception", "handling an exception does not restore the height of the stack at the try", W, f.name)
            if name == "lopJmp":
                t = A.lin(ip); t[1] = t.get(1, 0) + off; target.append({x: y for x, y in t.items() if y})
            if call:
                entered(name, text, sp, csp)
                own_frame(name, out, csp)
                if name == EXC: continue
                R.obligation(csp == CSP0 + 1, name + ": one frame", "a call enters %d frames" % (csp - CSP0), W, f.name)
                clo = Ptr(("clo", 0)); h = A.norm(saved(clo))
                R.obligation(h == sp, name + ": height saved", "a call saves another height of the stack for the caller than the one after taking its operands", W, f.name)
                at = A.norm(A.load(Ptr(clo.b, oc["ip"]), 8))
                R.obligation(isinstance(at, Ptr) and at.b == ("code",) and at.o == 999 + lens.get(name, 1), name + ": place saved", "the caller does not continue after the call", W, f.name)
                t = A.norm(A.load(Ptr(clo.b, oc["text"]), 8))
                R.obligation(t in [A.norm(S(("loop", x))) for x in vm.bases], name + ": code saved", "the caller does not continue in its own code", W, f.name)
            elif not mine:
                tot["ret"] += 1
                c = out.get(vm.cur); ok = back and isinstance(csp, int) and c == Ptr(("clo", csp - CSP0))
                if not R.obligation(ok, name + ": caller's scope", "%s does not continue in the scope on top of the stack" % name, W, f.name): continue
                R.obligation(A.lin(sp) == A.lin(S(("add", saved(c), 1), 32)), name + ": height restored", "%s does not restore the caller's height and push one value" % name, W, f.name)
                R.obligation(A.norm(text) == A.norm(A.load(Ptr(c.b, oc["text"]), 8)), name + ": caller's code", "%s does not continue in the caller's code" % name, W, f.name)
                at = A.lin(A.load(Ptr(c.b, oc["ip"]), 8)); at[1] = at.get(1, 0) - off
                R.obligation(A.lin(ip) == {x: y for x, y in at.items() if y}, name + ": caller's place", "%s does not continue where the caller left off" % name, W, f.name)
                top = [i for what, i, _ in A.acc["VS"] if what == "store" and not isinstance(i, int) and not sub(i, {x: y * 16 for x, y in A.lin(sp).items()})]
                R.obligation(top, name + ": value returned", "%s puts no value on the caller's stack" % name, W, f.name)
        tot["paths"] += k
        if not R.obligation(k, name + ": completes", "%s never completes" % name, W, f.name): return

    todo = []
    for code, name in sorted(vm.codes.items(), key=lambda x: (x[1] != "lopJmp", x[0])):
        if name in ("lopApply", "lopList"):
            for n in (0, 1, 2, 3, 7, 8) if name == "lopApply" else (0, 1, 2, 5): todo.append((name, code, [n], 1))
        else: todo.append((name, code, [], None))
    for name, code, ops, n in todo: judge(name, lambda: A.run(code, ops), n)
    old = A.into_names, A.visits
    for depth in (0, 1, 2):
        def thrown():
            A.trydepth = depth
            A.into_names, A.visits = A.into_names | onthrow(vm), 3
            try: return A.run_throw()
            finally: A.into_names, A.visits = old; A.trydepth = None
        judge(EXC, thrown)
    # the entry
    def go():
        r = A.start()
        return r[0], r[1], fld("sp", 4), fld("csp", 4), fld("text", 8)
    k = 0; A.on = False; A.name = "the entry of the virtual machine"
    for p in A.paths(go):
        if p.kind != "ret" or p.ret[0] != "next": continue
        A.mem, A.sub, A.ne, A.cmp, A.iv, A.acc, A.grown, A.gen = (p.st[x] for x in ("mem", "sub", "ne", "cmp", "iv", "acc", "grown", "gen"))
        kind, out, sp, csp, text = p.ret; k += 1
        sizes("entry", True); entered("entry", text, sp, csp)
        R.obligation(csp == 0 and A.norm(A.load(Ptr(A.ptr(fld("closureStack", 8)).b, 0), 8)) == A.norm(out.get(vm.cur)), "entry: frame", "the scope the virtual machine is started in is not on the closure stack", W, f.name)
    R.obligation(k, "entry: completes", "the virtual machine never starts", W, f.name)
    for r in ("VS", "CS"):
        need, who = over[r]
        R.count("%s stack: slots an instruction may write beyond its length" % word[r], need)
        for n in sorted({n for x, l, n in ent if x == r}):
            lo = [l for x, l, m_ in ent if x == r and m_ == n]
            ok = None not in lo and min(lo) > need
            R.obligation(ok, "%s: room on the %s stack" % (n, word[r]), "%s: the code entered is only certain to have room for %s more slots of the %s stack than its length, %s may need %d"
                         % (n, "no" if None in lo else min(lo), word[r], who, need + 1), W, f.name)
    R.floor("ways to enter code", tot["ent"], 6); R.floor("ways to return", tot["ret"], 2); R.floor("try blocks entered", tot["try"], 1)
    R.floor("handler paths", tot["paths"], 200); R.floor("stack accesses", tot["acc"], 500)
    return R.finish()
