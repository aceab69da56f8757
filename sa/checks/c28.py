"""C28: variables are found, set and defined in the innermost scope; methods along the type chain."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..vma import *
from ..trees import TreeAbs, LOOKS as SHAPES, items_of
from ..vmval import VM

RULE = ("The functions and instructions that read, assign and define variables and the method lookup are followed through the compiled code on chains of two scopes (types, prototypes) whose trees have a known top "
        "node and opaque subtrees, for every position the symbol can have relative to the keys of both: the outermost result is compared with the specification - the first scope of the chain that binds the symbol, "
        "descending only into subtrees that can hold it, an exception when there is none; only the addressed binding changes.")


class Scopes(TreeAbs, VMA):
    limit = 60000; visits = 14

    def __init__(s, vm):
        VMA.__init__(s, vm); s.shape(vm.P)
        s.sym = None; s.litat = None

    def setup(s): VMA.setup(s); s.owner = {}; s.ins = []

    def init(s, b, o, n):
        if isinstance(b, tuple) and b and b[0] == "scope":
            raise AnalysisBroken("C28: field %d of a scope is read" % o)
        if isinstance(b, tuple) and len(b) > 1 and b[1] == "sub" and o != s.o["height"]: s.last = b; raise Done("into", b)
        if s.litat is not None and isinstance(b, S) and b.k[0] == "loop" and o == s.litat * 16 + 8: return s.sym
        return VMA.init(s, b, o, n)

    def into(s, n): return n in s.m.defs and n not in s.exc and n not in ("lBytecodeEval", "lApply")

    def model(s, F, i, n, args):
        if n == "lTreeInsert":
            r = Ptr(("grown", s.fresh())); s.ins.append((s.norm(args[0]), s.norm(args[1]), (s.norm(args[2]), s.norm(args[3])), r)); return (r,)
        if n == "lBytecodeEnsureSufficientStack" or n == "lGarbageCollect": return (None,)
        return TreeAbs.model(s, F, i, n, args)

    def tree(s, tag, base, tpl):
        s.tag = tag; s.base = base
        r, _ = s.build(tpl)
        s.tag = "t"; s.base = 0
        return r

    def chain(s, tpls, make):
        """regions of a chain of scopes; make(k, tree, next) stores the fields"""
        ts = [s.tree("T%d" % k, base, tpl) for k, (base, tpl) in enumerate(tpls)]
        for k in range(len(tpls)): make(k, ts[k], k + 1 if k + 1 < len(tpls) else None)
        s.ts = ts

    def snapshot(s):
        return {b: {o: c for o, c in d.items()} for b, d in s.mem.items() if isinstance(b, tuple) and b and (str(b[0]).startswith("T") or b[0] in ("scope", "clo"))}


def expect(tpls, s):
    """("node", k, j) / ("into", k, j) / None for the symbol at offset s"""
    for k, (base, tpl) in enumerate(tpls):
        it = items_of(tpl)
        for j, (kind, t) in enumerate(it):
            lo = base + j
            if kind == "node":
                if s == lo: return ("node", k, j)
            else:
                left = base + j - 1 if j else -10 ** 6; right = base + j + 1 if j + 1 < len(it) else 10 ** 6
                if left < s < right and t: return ("into", k, j)
    return None


def cases():
    """(trees, symbol): two trees with the same, smaller, larger and interleaved keys"""
    for ta in SHAPES:
        for base in (0, 20, -20):
            for tb in ((0, 0), (1, 2), (0, (0, 0))):
                na = len(items_of(ta)); nb = len(items_of(tb))
                ks = sorted({*range(-1, na + 1), *range(base - 1, base + nb + 1)})
                for k in ks: yield [(100, ta), (100 + base, tb)], 100 + k


def run():
    R = Report("C28", RULE)
    P, nats, par = setup(prog())
    vm = VM(P); A = Scopes(vm)
    o = A.fo["lClosure"]
    code = {n: c for n, c in P.m.enum("lOpcode").items()}
    V = (S(("v", "t"), 16), S(("v", "v")))
    bad = lambda what, m: R.obligation(False, "%s: %s" % (what, m), "%s: %s" % (what, m), "lib")
    npaths = {}

    def closures(tpls):
        def make(k, t, nx):
            b = ("clo", -k)
            A.mem[b] = {}
            A.store(Ptr(b, o["parent"]), Ptr(("clo", -(k + 1))) if nx is not None else 0, 8)
            A.store(Ptr(b, o["data"]), t, 8)
        A.chain(tpls, make)
        for k, (b, t) in enumerate(tpls):
            for j in range(len(items_of(t))): A.ne.setdefault(S(("vt", "T%d" % k, j), 16), set()).add(A.T["ltException"])

    def value(k, j): return (S(("vt", "T%d" % k, j), 16), S(("vv", "T%d" % k, j)))

    def nodeval(k, j):
        b = ("T%d" % k, "node", j)
        return A.norm(A.load(Ptr(b, A.o["value"]), 2)), A.norm(A.load(Ptr(b, A.o["value"] + 8), 8))

    def changed(before, but=None):
        """something of the scopes other than the given node's value was changed"""
        for b, d in before.items():
            for off, (n, v) in d.items():
                if but and b == ("T%d" % but[0], "node", but[1]) and A.o["value"] <= off < A.o["value"] + 16: continue
                if b[0] == "clo" and off == o.get("ip"): continue
                c = A.mem.get(b, {}).get(off)
                if c is None or A.norm(c[1]) != A.norm(v): return True
        return False

    def seq(what, go, tpls, sym, judge, where):
        """every path of go judged against the expectation"""
        e = expect(tpls, sym)
        def full():
            closures(tpls); A.before = A.snapshot()
            return judge(go(), e)
        ps = [p for p in A.paths(full)]
        R.obligation(bool(ps), "%s: the search does not end" % what, "%s: the search does not end" % what, where)
        for p in ps:
            m = None
            if p.kind == "into":
                if e is None or e[0] != "into" or p.ret[0] != "T%d" % e[1] or p.ret[2] != e[2]:
                    m = "the search enters a part of a scope that cannot hold the symbol" if e is None or e[0] == "into" else "a bound symbol is not found"
            elif p.kind == "ret":
                m = p.ret
                if e and e[0] == "into": m = "the search does not enter the part of the scope that can hold the symbol"
            elif p.kind == "exit": m = "the process ends"
            else: m = "the code takes an unforeseen way (%s)" % p.kind
            npaths[what] = npaths.get(what, 0) + 1
            R.obligation(m is None, "%s: %s" % (what, m), "%s: %s" % (what, m), where)

    def jget(r, e):
        if changed(A.before): return "a lookup changes a scope"
        if e is None: return None if r is None else "an unbound symbol has a value"
        if r is None: return "a bound symbol is not found"
        return None if r == value(e[1], e[2]) else "the value of another binding is returned"

    def jset(r, e):
        if e is None: return ("an unbound symbol is assigned" if r else None) or ("a failed assignment changes a scope" if changed(A.before) or A.ins else None)
        if not r: return "a bound symbol is not assigned"
        if nodeval(e[1], e[2]) != V: return "the binding does not get the value"
        return "another binding changes" if changed(A.before, (e[1], e[2])) or A.ins else None

    def jdef(r, e):
        if not r: return "the definition fails"
        if len(A.ins) != 1: return "the symbol is not inserted exactly once"
        t, k, v, g = A.ins[0]
        if t != A.ts[0] : return "the definition grows another tree than the current scope's"
        if k != A.sym or v != V: return "another symbol or value is defined"
        if A.load(Ptr(("clo", 0), o["data"]), 8) != g: return "the scope does not get the grown tree"
        if A.load(Ptr(("clo", -1), o["data"]), 8) != A.ts[1]: return "the enclosing scope changes"
        return None

    def cget():
        r = A.pair(A.call("lGetClosureSym", [Ptr(("clo", 0)), A.sym]))
        return None if r[0] == A.T["ltException"] else r

    def cset(): return A.truth_of(A.call("lSetClosureSym", [Ptr(("clo", 0)), A.sym, V[0], V[1]]))
    def cdef(): A.call("lDefineClosureSym", [Ptr(("clo", 0)), A.sym, V[0], V[1]]); return True

    def opget(name):
        def go():
            ops = opnd(name)
            kind, out, _ = A.run(code[name], ops)
            if kind == "throw": return None
            if kind == "into": raise Done("into", A.last)
            if kind != "next": raise Done("bad " + kind)
            if A.sp() != SP0 + 1: raise Done("unbalanced")
            return A.slotval(1)
        return go

    def opset(name):
        def go():
            A.slot(0, V[0], V[1]); ops = opnd(name)
            kind, out, _ = A.run(code[name], ops)
            if kind == "throw": return False
            if kind == "into": raise Done("into", A.last)
            if kind != "next": raise Done("bad " + kind)
            if A.sp() != SP0 or A.slotval(0) != V: raise Done("unbalanced")
            return True
        return go

    def opnd(name):
        if name.endswith("Ext"): A.litat = 0x123; return [1, 0x23]
        A.litat = 0xF3; return [0xF3]

    all_ = list(cases())
    for tpls, sym in all_:
        A.sym = A.key(sym); A.litat = None
        seq("lookup", cget, tpls, sym, jget, "lib/closure.c")
        seq("assignment", cset, tpls, sym, jset, "lib/closure.c")
        for n in ("lopGetVal", "lopGetValExt"): seq("instruction %s" % n[3:], opget(n), tpls, sym, jget, "lib/vm.c")
        for n in ("lopSetVal", "lopSetValExt"): seq("instruction %s" % n[3:], opset(n), tpls, sym, jset, "lib/vm.c")
        A.litat = None
    tpls = [(100, (1, 1)), (100, (1, 1))]
    for what, go, where in (("definition", cdef, "lib/closure.c"), ("instruction DefVal", opset("lopDefVal"), "lib/vm.c"), ("instruction DefValExt", opset("lopDefValExt"), "lib/vm.c")):
        A.sym = A.key(101)
        def full():
            closures(tpls); A.before = A.snapshot()
            return jdef(go(), None)
        for p in A.paths(full):
            m = p.ret if p.kind == "ret" else "the code takes an unforeseen way (%s)" % p.kind
            npaths[what] = npaths.get(what, 0) + 1
            R.obligation(m is None, "%s: %s" % (what, m), "%s: %s" % (what, m), where)
        A.litat = None

    # scopes opened by the machine lie below the current one; a call's below the one the function was created in (C14)
    for n in ("lopLet", "lopTry"):
        def full():
            closures(tpls)
            kind, out, _ = A.run(code[n], [0, 9] if n == "lopTry" else [])
            if kind != "next" or A.csp() != CSP0 + 1: return "no scope is opened"
            c = A.norm(A.load(Ptr(("CS",), (CSP0 + 1) * 8), 8))
            if not isinstance(c, Ptr) or c.b[0] != "new": return "the scope is not new"
            if A.load(Ptr(c.b, o["parent"]), 8) != Ptr(("clo", 0)): return "the scope does not lie below the current one"
            if A.load(Ptr(c.b, o["data"]), 8) != 0: return "the scope is not empty"
            return None
        for p in A.paths(full):
            m = p.ret if p.kind == "ret" else "the code takes an unforeseen way (%s)" % p.kind
            npaths[n] = npaths.get(n, 0) + 1
            R.obligation(m is None, "instruction %s: %s" % (n[3:], m), "instruction %s: %s" % (n[3:], m), "lib/vm.c")

    methods(A, R, P, npaths, all_)
    for w in ("lookup", "assignment", "instruction GetVal", "instruction GetValExt", "instruction SetVal", "instruction SetValExt"): R.floor("paths of %s" % w, npaths.get(w, 0), 200)
    for w in ("definition", "instruction DefVal", "instruction DefValExt", "lopLet", "lopTry"): R.floor("paths of %s" % w, npaths.get(w, 0), 1)
    for w in ("method of a type", "static method", "method of a tree"): R.floor("paths of %s" % w, npaths.get(w, 0), 100)
    R.functions |= {"lGetClosureSym", "lSetClosureSym", "lDefineClosureSym", "lMethodLookup", "lBytecodeEval"}
    R.assumptions += ["scope chains longer than two behave like chains of two: the loops carry only the current scope", "trees are ordered (C17)"]
    return R.finish()


def methods(A, R, P, npaths, all_):
    m = P.m; T = A.T
    f = {x["n"]: x["o"] for x in m.struct("lClass")["fields"]}; size = m.struct("lClass")["size"]
    ltInt = T["ltInt"]; k1 = T["ltFloat"]

    def types(tpls, field, first):
        """class ltInt -> class ltFloat -> nothing, searched trees in the given field, others empty"""
        A.mem[("g", "lClassList")] = {}
        def at(t): return Ptr(("g", "lClassList"), t * size)
        def make(k, t, nx):
            b = at(first if k == 0 else k1)
            for fl in ("methods", "staticMethods"): A.store(Ptr(b.b, b.o + f[fl]), t if fl == field else 0, 8)
            A.store(Ptr(b.b, b.o + f["parent"]), at(k1) if nx is not None else 0, 8)
        A.chain(tpls, make)
        return at

    def judge(r, e):
        if e is None: return None if r[0] == T["ltException"] else "a method that does not exist is found"
        if r[0] == T["ltException"]: return "a method is not found"
        return None if r == (S(("vt", "T%d" % e[1], e[2]), 16), S(("vv", "T%d" % e[1], e[2]))) else "another method is found"

    def noexc(tpls):
        for k, (b, t) in enumerate(tpls):
            for j in range(len(items_of(t))): A.ne.setdefault(S(("vt", "T%d" % k, j), 16), set()).add(T["ltException"])

    def case(what, tpls, sym, go):
        e = expect(tpls, sym)
        def full():
            noexc(tpls)
            return judge(A.pair(go()), e)
        ps = [p for p in A.paths(full)]
        R.obligation(bool(ps), "%s: the search does not end" % what, "lMethodLookup, %s: the search does not end" % what, "lib/type-system.c")
        for p in ps:
            x = p.ret if p.kind == "ret" else None
            if p.kind == "into":
                if e is None or e[0] != "into" or p.ret[0] != "T%d" % e[1] or p.ret[2] != e[2]: x = "the search enters a part that cannot hold the method"
            elif p.kind == "ret":
                if e and e[0] == "into": x = "the search does not enter the part that can hold the method"
            else: x = "the code takes an unforeseen way (%s)" % p.kind
            npaths[what] = npaths.get(what, 0) + 1
            R.obligation(x is None, "%s: %s" % (what, x), "lMethodLookup, %s: %s" % (what, x), "lib/type-system.c", "lMethodLookup")

    for tpls, sym in all_:
        A.sym = A.key(sym)
        def inst():
            types(tpls, "methods", ltInt)
            return A.call("lMethodLookup", [A.sym, ltInt, S(("self",))])
        case("method of a type", tpls, sym, inst)
        def static():
            # the type ltInt as a value: its static methods, then its parents'; types have no methods of their own here
            at = types(tpls, "staticMethods", ltInt)
            t = at(T["ltType"])
            for fl in ("methods", "staticMethods", "parent"): A.store(Ptr(t.b, t.o + f[fl]), 0, 8)
            return A.call("lMethodLookup", [A.sym, T["ltType"], at(ltInt)])
        case("static method", tpls, sym, static)
        def tree():
            # an object (tree) without prototype; then the methods of trees
            ts = [A.tree("T0", tpls[0][0], tpls[0][1]), A.tree("T1", tpls[1][0], tpls[1][1])]
            root = ("root", 0); A.mem[root] = {0: (8, ts[0])}
            A.mem[("g", "lClassList")] = {}
            b = Ptr(("g", "lClassList"), T["ltTree"] * size)
            A.store(Ptr(b.b, b.o + f["methods"]), ts[1], 8); A.store(Ptr(b.b, b.o + f["staticMethods"]), 0, 8); A.store(Ptr(b.b, b.o + f["parent"]), 0, 8)
            A.mem[("g", "lSymPrototype")] = {0: (8, A.key(100000))}
            return A.call("lMethodLookup", [A.sym, T["ltTree"], Ptr(root)])
        # the prototype key lies in no opaque subtree
        if not any(isinstance(t, int) and t for t in (tpls[0][1][1],)) and not opaque_right(tpls[0][1]): case("method of a tree", tpls, sym, tree)
    # through the prototype
    for sym in (99, 101, 301, 302, 303):
        A.sym = A.key(sym)
        tp = [(100, (0, 0)), (300, (0, 0))]
        def proto():
            A.mem[("g", "lClassList")] = {}
            b = Ptr(("g", "lClassList"), T["ltTree"] * size)
            for fl in ("methods", "staticMethods", "parent"): A.store(Ptr(b.b, b.o + f[fl]), 0, 8)
            A.mem[("g", "lSymPrototype")] = {0: (8, A.key(200))}
            b1 = A.tree("T1", 300, (0, 0)); r1 = ("root", 1); A.mem[r1] = {0: (8, b1)}
            t0 = A.tree("T0", 100, (0, 0))
            pn = ("T0", "node", 77)
            A.node(pn, A.key(200), (T["ltTree"], Ptr(r1)), 0, 0, 1)
            A.store(Ptr(t0.b, A.o["right"]), Ptr(pn), 8)
            r0 = ("root", 0); A.mem[r0] = {0: (8, t0)}
            return A.call("lMethodLookup", [A.sym, T["ltTree"], Ptr(r0)])
        case("method through a prototype", tp, sym, proto)
    R.floor("paths through a prototype", npaths.get("method through a prototype", 0), 5)


def opaque_right(t):
    while not isinstance(t, int): t = t[1]
    return t > 0
