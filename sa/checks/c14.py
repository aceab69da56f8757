"""C14: calls pass every argument to the parameter it belongs to."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..natives import natives
from ..vma import *

RULE = ("Every way the virtual machine calls something - a direct call, apply with a list, an exception handler, for native functions of every arity, lambdas and macros - is followed through "
        "the compiled code with symbolic stacks and lists: each parameter must receive exactly the argument of its position, missing ones nil, rest parameters the remaining arguments in order, "
        "and the callee must run its own code with its own literals in a new scope below the one it was created in. Every registered native must take as many C arguments as its registration says.")


class CallVM(VMA):
    """native functions have a chosen arity; bindings are recorded instead of inserted"""
    def __init__(s, vm):
        super().__init__(vm)
        e = s.m.enum("closureType"); s.closureCall = e["closureCall"]; s.closureTry = e["closureTry"]; s.closureLet = e["closureLet"]
        s.noted = exceptions(vm.P)

    def setup(s):
        super().setup(); s.binds = []; s.arity = {}; s.ncall = []

    def init(s, b, o, n):
        if n == 1 and o == s.fo["lNFunc"]["argCount"] and isinstance(b, S) and s.native(b):
            k = s.choose(18); s.arity[b] = k
            return k
        if o == s.fo["lClosure"]["type"] and s.trydepth is not None and isinstance(b, tuple) and b[0] == "clo":
            return s.closureTry if -b[1] >= s.trydepth else s.closureLet
        return super().init(b, o, n)

    def native(s, b): return True
    trydepth = None

    def model(s, F, i, n, args):
        if n == "lTreeInsert":
            r = Ptr(("tree", s.fresh())); s.binds.append((args[0], args[1], (args[2], args[3]), r)); return (r,)
        if n == "lMethodLookup":
            r = s.fresh(); s.ev.append(("lookup", args, r))
            return (Agg(((0, S(("method", r, 0), 16)), (1, S(("method", r, 1), 64)))),)
        if n in s.noted:
            return (Agg(((0, s.T["ltException"]), (1, S(("exception", s.fresh()))))),)
        return super().model(F, i, n, args)

    def indirect(s, F, i, c, args):
        vals = []; k = 0; clo = None
        ops = i.ops
        while k < len(args):
            t = s.ty(F, ops[k])
            if t == "ptr":
                p = s.ptr(args[k])
                if k == 0 and isinstance(p.b, tuple) and p.b[0] in ("clo", "CS") : clo = args[k]
                else: vals.append(s.lval(p))
                k += 1
            else:
                vals.append((args[k], args[k + 1])); k += 2
        s.ncall.append((c, clo, vals))
        r = s.fresh()
        return Agg(((0, S(("result", r, 0), 16)), (1, S(("result", r, 1), 64))))


def exceptions(P):
    """functions that only ever return an exception value"""
    ex = P.m.enum("lType")["ltException"]
    return {n for n in ("lValException", "lValExceptionSimple", "lValExceptionNonNumeric", "lValExceptionType") if n in P.m.defs}


def plist(s, v, f):
    """(tag, payload) of a pair -> car, cdr"""
    o = s.fo["lPair"]
    return s.lval(addto(s, v[1], o["car"])), s.lval(addto(s, v[1], o["cdr"]))


def addto(s, p, k):
    p = s.ptr(p)
    return Ptr(p.b, p.o + k)


def eqv(s, a, b):
    """both values are the same on this path"""
    ta, tb = s.norm(a[0]), s.norm(b[0])
    if ta != tb: return False
    return s.norm(a[1]) == s.norm(b[1]) or ta == s.T["ltNil"]


def show(v):
    return "nil" if v[0] == 0 else "%r" % (v[1],)


def is_nil(s, v): return s.norm(v[0]) == s.T["ltNil"]


def is_list_of(s, v, want):
    """v is a list of exactly the values"""
    for w in want:
        if s.norm(v[0]) != s.T["ltPair"]: return False
        car, v = plist(s, v, None)
        if not eqv(s, car, w): return False
    return is_nil(s, v)


def elements(s, v, most):
    """the elements of a list argument, as far as the path knows; (elements, what is left)"""
    out = []
    while len(out) < most:
        if not s.same(s.norm(v[0]), s.T["ltPair"], 16): break
        car, v = plist(s, v, None); out.append(car)
    return out, v


def check_native(s, R, where, args, rest, result):
    """args: the supplied arguments; rest: the value holding all of them as a list, or None"""
    T = s.T
    if len(s.ncall) != 1: return "calls %d native functions" % len(s.ncall)
    c, clo, vals = s.ncall[0]
    fn = s.norm(c)
    k = list(s.arity.values())
    if len(set(k)) != 1: return "the arity of the native is read from more than one function"
    k = k[0]
    if k & 1 and clo != Ptr(("clo", s.expect_clo)): return "does not pass the calling scope to a native that takes it"
    if not k & 1 and clo is not None: return "passes the calling scope to a native that does not take it"
    if k >= 16:
        if len(vals) != 1: return "passes %d arguments to a native taking a list" % len(vals)
        if rest is not None: ok = eqv(s, vals[0], rest)
        else: ok = is_list_of(s, vals[0], args)
        return None if ok else "a native taking any number of arguments does not get the list of the %s arguments in order" % (len(args) if rest is None else "given")
    n = k >> 1
    if len(vals) != n: return "a native of %d parameters is passed %d" % (n, len(vals))
    for j in range(n):
        if rest is not None:
            els, left = elements(s, rest, j + 1)
            want = els[j] if j < len(els) else None
        else: want = args[j] if j < len(args) else None
        if want is None:
            if not is_nil(s, vals[j]): return "parameter %d of a native of %d parameters, given %d arguments, gets %s instead of nil" % (j + 1, n, len(args) if rest is None else len(els), show(vals[j]))
        elif not eqv(s, vals[j], want): return "parameter %d of a native of %d parameters gets %s instead of argument %d" % (j + 1, n, show(vals[j]), j + 1)
    return None


def check_lambda(s, lam, args, rest, out, vm, kind):
    """the callee's scope and bindings"""
    T = s.T; oc = s.fo["lClosure"]
    lam = s.ptr(lam)
    new = out.get(vm.cur)
    if not isinstance(new, Ptr) or not isinstance(new.b, tuple) or new.b[0] != "new": return "the callee does not run in a new scope"
    F = lambda n: s.load(Ptr(new.b, new.o + oc[n]), 8)
    if s.norm(F("parent")) != s.norm(lam if lam.o else lam.b): return "the callee's scope is not below the scope it was created in"
    text = s.load(Ptr(lam.b, lam.o + oc["text"]), 8)
    if s.norm(F("text")) != s.norm(text): return "the callee's scope does not refer to the callee's code"
    t = s.un("trunc", s.load(Ptr(new.b, new.o + oc["type"]), 1), 8, 8)
    if t != s.closureCall: return "the callee's scope is not marked as a call"
    dat = s.load(Ptr(s.ptr(text).b, s.ptr(text).o + s.fo["lBytecodeArray"]["data"]), 8)
    ip = out.get(vm.ip)
    if vm.disp.op == "indirectbr": ip = s.bin("add", ip, -1, 64)
    if s.norm(ip) != s.norm(dat if isinstance(dat, int) or dat is None else s.ptr(dat)): return "execution does not continue at the start of the callee's code but at %r" % (ip,)
    lits = s.load(Ptr(s.ptr(text).b, s.ptr(text).o + s.fo["lBytecodeArray"]["literals"]), 8)
    ld = s.load(Ptr(s.ptr(lits).b, s.ptr(lits).o + s.fo["lArray"]["data"]), 8)
    have = [s.norm(v) for k, v in out.items() if k in vm.bases]
    if s.norm(ld) not in have: return "the callee does not run with its own literals"
    if s.norm(text) not in have: return "the callee's code is not made current"
    if s.load(Ptr(("CS",), s.csp() * 8), 8) != new: return "the callee's scope is not on the closure stack"
    # bindings
    p = s.lval(Ptr(lam.b, lam.o + oc["args"])); want = []; j = 0; left = rest
    for _ in range(12):
        if s.same(s.norm(p[0]), T["ltPair"], 16):
            nm, nxt = plist(s, p, None)
            if left is not None:
                if s.same(s.norm(left[0]), T["ltPair"], 16): v, left = plist(s, left, None)
                else: v = None
            else: v = args[j] if j < len(args) else None
            want.append((nm[1], v, None)); j += 1; p = nxt; continue
        if s.same(s.norm(p[0]), T["ltSymbol"], 16): want.append((p[1], "rest", args[j:] if left is None else left))
        break
    if len(want) != len(s.binds): return "%d parameters are bound where the lambda has %d, given %s arguments" % (len(s.binds), len(want), len(args) if rest is None else "a list of")
    prev = None
    for n, ((nm, v, r), (tree, sym, val, res)) in enumerate(zip(want, s.binds)):
        if s.norm(sym) != s.norm(nm): return "parameter %d is bound under another name" % (n + 1)
        if prev is not None and s.norm(tree) != prev or prev is None and s.norm(tree) != 0: return "a binding is lost before parameter %d is bound" % (n + 1)
        prev = res
        if v == "rest":
            ok = is_list_of(s, val, r) if isinstance(r, list) else eqv(s, val, r)
            if not ok: return "the rest parameter does not get the list of the remaining arguments in order"
        elif v is None:
            if not is_nil(s, val): return "parameter %d, for which no argument was given, is not nil" % (n + 1)
        elif not eqv(s, val, v): return "parameter %d gets %s instead of argument %d (%s)" % (n + 1, show(val), n + 1, show(v))
    d = s.norm(F("data"))
    if d != (prev if prev is not None else 0): return "the bindings are not stored in the callee's scope"
    return None


def outcome(s, R, tag, args, rest, fun, kind, out, sp0):
    """judge one path of a call"""
    vm = s.vm; T = s.T
    look = [e for e in s.ev if e[0] == "lookup"]
    ft = s.norm(fun[0])
    if look or s.same(ft, T["ltKeyword"], 16):
        if not look: return "a keyword is called without looking up the method" if kind == "next" else None
        a = look[0][1]
        slf = args[0] if rest is None and args else elements(s, rest, 1)[0] if rest is not None else []
        if rest is not None: slf = slf[0] if slf else None
        elif not args: slf = None
        sym, st, sv = a[0], a[1], a[2]
        if s.norm(sym) != s.norm(fun[1]): return "the method looked up is not the keyword called"
        if slf is None:
            if not is_nil(s, (st, sv)): return "a method call without arguments looks the method up on %s instead of nil" % show((st, sv))
        elif not eqv(s, (st, sv), slf): return "the method is looked up on %s instead of the first argument" % show((st, sv))
        r = look[0][2]
        fun = (s.norm(S(("method", r, 0), 16)), S(("method", r, 1), 64))
        ft = s.norm(fun[0])
    if s.ncall:
        if s.arity and list(s.arity)[0] != s.ptr(fun[1]).b: return "another function than the one called is run"
        m = check_native(s, R, tag, args, rest, None)
        if m: return m
        if kind == "next":
            r = s.lval(Ptr(("VS",), s.sp() * 16))
            if not (isinstance(r[1], S) and r[1].k[0] == "result"): return "the native's result is not pushed"
        return None
    if kind == "next":
        if not any(s.same(ft, T[x], 16) for x in ("ltLambda", "ltMacro")): return None if kind != "next" else "a value that is neither function nor macro is called"
        return check_lambda(s, fun[1], args, rest, out, vm, kind)
    return None


def thrown(A):
    """the value thrown on this path and what the handler must get"""
    vm = A.vm; ph = [i for i in A.f.blocks[vm.throw] if i.op == "phi"]
    t = [i for i in ph if width(i.ty) == 16]; v = [i for i in ph if width(i.ty) == 64 and i.id != vm.cur and i.ty != "ptr"]
    if len(t) != 1 or len(v) != 1: raise AnalysisBroken("the thrown value is not found (%d, %d candidates)" % (len(t), len(v)))
    return S(("thrown", t[0].id), 16), S(("thrown", v[0].id), 64)


def onthrow(vm):
    """functions only throwing uses, on values"""
    if not hasattr(vm, "_onthrow"):
        f = vm.f; m = vm.P.m; seen = set(); work = [vm.throw]
        while work:
            b = work.pop()
            if b in seen or b == vm.db: continue
            seen.add(b); work += f.succ[b]
        names = {i.cname() for b in seen for i in f.blocks[b] if i.op == "call"} & set(m.defs)
        others = {i.cname() for g in m.defs.values() for i in g.calls() if g is not f} | {i.cname() for b in f.rpo if b not in seen for i in f.blocks[b] if i.op == "call"}
        vm._onthrow = {n for n in names - others if not any("lThread" in d for d in m.defs[n].dtypes) and "lVal" in m.defs[n].dtypes[0]}
    return vm._onthrow


def handler(A, R, depth):
    """an exception reaches a try block `depth` scopes further out"""
    vm = A.vm; T = A.T; oc = A.fo["lClosure"]
    A.trydepth = depth; A.expect_clo = -depth - 1
    old = A.into_names, A.visits; A.into_names = A.into_names | onthrow(vm); A.visits = 3
    try: kind, out, _ = A.run_throw()
    finally: A.into_names, A.visits = old
    A.trydepth = None
    tv = thrown(A); tag = A.norm(tv[0])
    ft, fv = A.lval(Ptr(("clo", -depth), oc["exceptionHandler"])); ft = A.norm(ft)
    if kind == "exit": return None
    if kind == "throw":
        if ft in (T["ltLambda"],): return "a handler that is a function is not called"
        return None
    listed = tag in (T["ltPair"], T["ltException"])
    def copied(v, w):
        """v has the elements of w, and perhaps more"""
        k = 0
        while k < 40:
            if A.norm(v[0]) != T["ltPair"]: return False
            a, d = plist(A, v, None); b, e = plist(A, w, None); k += 1
            if a is None or not eqv(A, a, b): return False
            if A.norm(d[0]) == A.norm(e[0]) and A.norm(d[1]) == A.norm(e[1]): return True
            if A.norm(e[0]) != T["ltPair"]: return not A.same(e[0], T["ltPair"], 16)
            v, w = d, e
        return False
    def arg(v):
        if tag == T["ltException"] and A.norm(v[0]) == T["ltPair"] and A.norm(v[1]) != A.norm(tv[1]): return copied(v, (T["ltPair"], tv[1]))
        if listed: return A.norm(v[0]) == T["ltPair"] and A.norm(v[1]) == A.norm(tv[1])
        return is_list_of(A, v, [tv])
    # the one argument, as it was handed over: in a list with nothing else in it
    val = None
    if A.ncall:
        c, clo, vals = A.ncall[0]; k = list(A.arity.values())[0]
        if list(A.arity)[0] != A.ptr(fv).b: return "another function than the handler is run"
        if k >= 16: val = plist(A, vals[0], None)[0] if vals and A.norm(vals[0][0]) == T["ltPair"] else None
        elif k >> 1: val = vals[0] if vals else None
        else: val = "none"
    elif A.binds: val = A.binds[0][2]
    else: val = "none"
    if val is None: return "the handler gets no argument"
    if val != "none" and not arg(val):
        # a parameter list that is a single name collects the arguments
        p = A.lval(Ptr(A.ptr(fv).b, oc["args"]))
        if not A.ncall and A.norm(p[0]) == T["ltSymbol"] and A.norm(val[0]) == T["ltPair"]: val = plist(A, val, None)[0]
        if not arg(val): return "the handler gets %s instead of what was thrown" % show(val)
    args = [val] if val != "none" else [tv]
    if A.ncall:
        m = check_native(A, R, "handler", args, None, None)
        if m: return m
        top = Ptr(("clo", -depth - 1)); sp = A.load(Ptr(top.b, oc["sp"]), 2)
        if kind == "next" and out.get(vm.cur) != top: return "after a native handler execution does not continue in the scope around the try"
        return None
    if ft != T["ltLambda"]: return "a handler that is no function is called"
    return check_lambda(A, fv, args, None, out, vm, kind)


def registrations(R, P):
    """the C function behind every native takes what its registration says: parameter counts from the wrapper's own code"""
    m = P.m if hasattr(P, "m") else P
    kinds = {}
    class Reg(Abs):
        def into(s, n): return n in ("lAddNativeFuncRaw", "lAddNativeMethod", "lAddNativeStaticMethod")
        def model(s, F, i, n, args):
            if n == "lNFuncAlloc":
                b = ("new", s.fresh(), n); s.mem[b] = {}; s.recs.append(Ptr(b)); return (Ptr(b),)
            if n == "lValAlloc": return (Agg(((0, args[0]), (1, args[1]))),)
    fo = {x["n"]: x["o"] for x in m.struct("lNFunc")["fields"]}
    ns = natives(m)
    for n in ns:
        w = n.call.cname()
        if w not in kinds:
            A = Reg(P); A.name = w; f = m.defs.get(w); got = set()
            def go():
                A.recs = []
                A.call(w, [S(("arg", k), 64) for k in range(len(f.argtys))])
                if len(A.recs) != 1: return None
                r = A.recs[0]
                fp = A.norm(A.load(r, 8)); c = A.norm(A.load(Ptr(r.b, fo["argCount"]), 1))
                return fp, c
            if f is None: raise AnalysisBroken("%s has no definition" % w)
            for p in A.paths(go):
                if p.kind == "ret": got.add(p.ret)
            kinds[w] = got
        got = kinds[w]; f = m.fns.get(n.fn)
        where = "%s (%s)" % (n.name, n.fn)
        if not R.obligation(len(got) == 1 and None not in got, "reg %s" % w, "%s does not make exactly one function record" % w, "lib", w): continue
        fp, c = list(got)[0]
        k = [j for j in range(len(n.call.ops)) if n.call.ops[j] == ("fn", n.fn) or n.call.ops[j][:2] == ("fn", n.fn)]
        R.obligation(isinstance(fp, S) and fp.k == ("arg", k[0]) if k else False, "reg fp %s" % w, "%s does not store the function it is given" % w, "lib", w)
        ty = [t for t in f.dtypes[1:]]
        clo = bool(ty) and ty[0].replace("const ", "").startswith("lClosure"); nv = sum(1 for t in ty if t == "lVal")
        c = c & 255 if isinstance(c, int) else None
        if n.nv < 0: want = 16 | clo; ok = nv == 1
        else: want = nv << 1 | clo; ok = nv == n.nv
        R.obligation(ok and c == want and nv + clo == len(ty), "reg arity %s" % where, "%s is registered to be called with arity code %r but takes (%s)" % (where, c, ", ".join(ty)), f.file, n.fn)
        a = n.args.strip()
        if n.nv > 0:
            ps = a[1:-1].replace("[", " ").replace("]", " ").split() if a[:1] in "([" else None
            R.obligation(ps is not None and len([x for x in ps if x not in (".", "&opt", "&optional")]) == n.nv, "reg list %s" % where, "%s documents the parameters %s but takes %d" % (where, a, n.nv), f.file, n.fn)
    R.floor("native registrations", len(ns), 150)


def run():
    R = Report("C14", RULE)
    P, _, _ = setup(prog())
    vm = VM(P); A = CallVM(vm)
    R.functions |= {vm.f.name} | (A.into_names & set(P.m.defs))
    codes = {v: k for k, v in vm.codes.items()}
    n = 0; nk = 0; nh = 0
    # direct calls
    for ln in range(0, 5):
        def go():
            A.expect_clo = 0
            args = [A.slot(-ln + 1 + j) for j in range(ln)]
            fun = A.slot(-ln)
            kind, out, _ = A.run(codes["lopApply"], [ln])
            return outcome(A, R, "direct", args, None, fun, kind, out, 0), sum(A.arity.values()) if A.arity else -1, kind
        for p in A.paths(go):
            if p.kind != "ret": R.obligation(p.kind == "exit", "direct %d path" % ln, "a direct call does not complete", "lib/vm.c", vm.f.name); continue
            m, k, kind = p.ret; n += 1; nk += k >= 0
            R.obligation(m is None, "direct %d: %s" % (ln, m), "direct call with %d arguments: %s" % (ln, m), "lib/vm.c", vm.f.name)
    for ln in range(5, 10):
        def go():
            A.expect_clo = 0
            args = [A.slot(-ln + 1 + j) for j in range(ln)]
            fun = A.slot(-ln, A.T["ltNativeFunc"], S(("fun",)))
            kind, out, _ = A.run(codes["lopApply"], [ln])
            return outcome(A, R, "direct", args, None, fun, kind, out, 0), sum(A.arity.values()) if A.arity else -1, kind
        for p in A.paths(go):
            if p.kind != "ret": continue
            m, k, kind = p.ret; n += 1; nk += k >= 0
            R.obligation(m is None, "direct %d: %s" % (ln, m), "direct call with %d arguments: %s" % (ln, m), "lib/vm.c", vm.f.name)
    # apply
    def go():
        A.expect_clo = 0
        lst = A.slot(0); fun = A.slot(-1)
        kind, out, _ = A.run(codes["lopApplyCollection"], [])
        return outcome(A, R, "apply", [], lst, fun, kind, out, 0), sum(A.arity.values()) if A.arity else -1, kind
    for p in A.paths(go):
        if p.kind != "ret": continue
        m, k, kind = p.ret; n += 1; nk += k >= 0
        R.obligation(m is None, "apply: %s" % m, "apply: %s" % m, "lib/vm.c", vm.f.name)
    # exception handlers
    for depth in (0, 1):
        def go():
            m = handler(A, R, depth)
            return m, sum(A.arity.values()) if A.arity else -1
        for p in A.paths(go):
            if p.kind != "ret": continue
            m, k = p.ret; nh += 1; nk += k >= 0
            R.obligation(m is None, "handler %d: %s" % (depth, m), "exception handler: %s" % m, "lib/vm.c", vm.f.name)
    registrations(R, P)
    R.floor("handler paths judged", nh, 40)
    R.floor("call paths judged", n, 300); R.floor("native calls judged", nk, 200)
    return R.finish()
