"""C16: what the image writer writes the image reader reads back as the same value."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..absint import *
from ..image import ImageAbs, Bad, NONE, PTR

RULE = ("Every record of an image: each ctxAdd function is followed through the compiled code on an object with opaque contents, references being answered with offsets of every byte pattern, and the reader's function "
        "on the bytes it stored: the object it builds has to equal the original field by field (references by induction). A record stays inside the memory of the image and what it reserved, is written through current "
        "pointers only, is found again through the map before its references are written (sharing, cycles), by the reader alike, and what does not fit the encoding is refused as a whole.")

LENS = (0, 1, 5, 300, 70000)


class Case:
    """one object: region contents, writer arguments, and the comparison with what was read"""
    def __init__(s, kind, name, build, same, wargs=None): s.kind = kind; s.name = name; s.build = build; s.same = same


def run():
    R = Report("C16", RULE)
    P = __import__("sa.r_tags", fromlist=["setup"]).setup(prog())[0]
    A = ImageAbs(P); m = A.m; T = A.T; fo = A.fo; fs = A.fs
    A.imgdata = {x["n"]: x["o"] for x in m.struct("lImage")["fields"]}["data"]
    V = lambda *k: (S(("ty",) + k, 16), S(("pv",) + k, 64))
    nulls = set(); rmo = {x['n']: x['o'] for x in m.struct('readImageMap')['fields']}

    def field(b, st, k): return A.norm(A.load(Ptr(b, fo[st][k]), fs[st][k]))
    def setf(b, st, k, v): A.store(Ptr(b, fo[st][k]), v, fs[st][k])
    def region(*n):
        b = n; A.mem[b] = {}; return b
    def setv(b, o, v): A.store(Ptr(b, o), v[0], 2); A.store(Ptr(b, o + 8), v[1], 8)
    def getv(b, o): return (A.norm(A.load(Ptr(b, o), 2)), A.norm(A.load(Ptr(b, o + 8), 8)))
    def samev(a, b):
        a = (A.norm(a[0]), A.norm(a[1])); b = (A.norm(b[0]), A.norm(b[1]))
        return a[0] == b[0] and (a[0] == T["ltNil"] or a[1] == b[1])
    def isnew(p, n): return isinstance(p, Ptr) and p.o == 0 and isinstance(p.b, tuple) and p.b[0] == "new" and p.b[2] == n

    cases = []

    # --- pairs
    def pair():
        b = region("obj", "pair")
        for k in ("car", "cdr"): setv(b, fo["lPair"][k], V(k))
        def same(p):
            if not isnew(p, "lPairAllocRaw"): return "no pair is built"
            for k in ("car", "cdr"):
                if not samev(getv(p.b, fo["lPair"][k]), V(k)): return "the %s of the pair is another value" % k
        return [Ptr(b)], same
    cases.append(("Pair", "pair", pair))

    # --- arrays
    def array(n, fl):
        def f():
            b = region("obj", "array"); d = region("obj", "elements")
            for k in range(n): setv(d, 16 * k, V("el", k))
            setf(b, "lArray", "data", Ptr(d) if n else 0); setf(b, "lArray", "length", n); setf(b, "lArray", "flags", fl)
            def same(p):
                if not isinstance(p, Ptr) or not isinstance(p.b, tuple): return "no array is built"
                if field(p.b, "lArray", "length") != n: return "the length of the array is %r instead of %d" % (field(p.b, "lArray", "length"), n)
                if field(p.b, "lArray", "flags") != fl: return "the flags of the array are lost"
                q = A.ptr(field(p.b, "lArray", "data"))
                for k in range(n):
                    if not samev(getv(q.b, q.o + 16 * k), V("el", k)): return "element %d of the array is another value" % k
            return [Ptr(b)], same
        return f
    for n in (0, 1, 3, 300):
        for fl in ((0, 1) if n == 1 else (0,)): cases.append(("Array", "array of %d, flags %d" % (n, fl), array(n, fl)))

    def content(p, n, src):
        """the n bytes at p are those of src"""
        p = A.ptr(p)
        return A.bytes_at(p, n) == [("mem", src, k) for k in range(n)]

    # --- buffers and strings
    def buffer(n, fl):
        def f():
            b = region("obj", "buffer"); d = ("bytes", "buffer", n); A.mem[d] = {}
            setf(b, "lBuffer", "buf", Ptr(d)); setf(b, "lBuffer", "length", n); setf(b, "lBuffer", "flags", fl)
            def same(p):
                if not isnew(p, "lBufferAllocRaw"): return "no buffer is built"
                if field(p.b, "lBuffer", "length") != n: return "the length of the buffer is %r instead of %d" % (field(p.b, "lBuffer", "length"), n)
                if (field(p.b, "lBuffer", "flags") ^ fl) & 1: return "the buffer changes from immutable to mutable or back"
                q = A.ptr(field(p.b, "lBuffer", "buf"))
                if n and not content(q, n, d): return "the bytes of the buffer are others"
                if q.b == A.cur and not A.static: return "the buffer refers to an image that is released"
                if q.b == A.cur and not fl & 1: return "changing the buffer changes the image"
                if q.b != A.cur and n and (not isinstance(q.b, tuple) or q.b[0] != "heap" or A.cap[q.b] < n): return "the buffer has too little memory"
            return [Ptr(b)], same
        return f
    for n in LENS:
        for fl in ((0, 1, 3) if n < 100 else (1,)): cases.append(("Buffer", "buffer of %d, flags %d" % (n, fl), buffer(n, fl)))

    # --- buffer views
    def view(off, n, ty, fl):
        def f():
            b = region("obj", "view"); buf = ("obj", "buffer")
            for k, v in (("buf", Ptr(buf)), ("offset", off), ("length", n), ("type", ty), ("flags", fl)): setf(b, "lBufferView", k, v)
            def same(p):
                if not isnew(p, "lBufferViewAllocRaw"): return "no view is built"
                for k, v in (("buf", Ptr(buf)), ("offset", off), ("length", n), ("type", ty), ("flags", fl)):
                    if field(p.b, "lBufferView", k) != v: return "the %s of the view is %r instead of %r" % (k, field(p.b, "lBufferView", k), v)
            return [Ptr(b)], same
        return f
    types = sorted(v for k, v in m.enum("lBufferViewType").items())
    for k, t in enumerate(types): cases.append(("BufferView", "view of type %d" % t, view((0, 3, 70000)[k % 3], (0, 9, 300, 80000)[k % 4], t, k & 1)))

    # --- bytecode arrays
    def bca(n, lits=True):
        def f():
            b = region("obj", "bca"); d = ("bytes", "ops", n); A.mem[d] = {}
            setf(b, "lBytecodeArray", "data", Ptr(d)); setf(b, "lBytecodeArray", "dataEnd", Ptr(d, n)); setf(b, "lBytecodeArray", "literals", Ptr(("obj", "literals")))
            def same(p):
                if not isnew(p, "lBytecodeArrayAllocRaw"): return "no bytecode is built"
                if field(p.b, "lBytecodeArray", "literals") != Ptr(("obj", "literals")): return "the literals of the bytecode are others"
                q = A.ptr(field(p.b, "lBytecodeArray", "data")); e = A.ptr(field(p.b, "lBytecodeArray", "dataEnd"))
                if q.b != e.b or e.o - q.o != n: return "the length of the bytecode is another"
                if n and not content(q, n, d): return "the bytecode is another"
                if q.b == A.cur and not A.static: return "the bytecode refers to an image that is released"
            return [Ptr(b)], same
        return f
    for n in (0, 1, 5, 300, 70000): cases.append(("BytecodeArray", "bytecode of %d" % n, bca(n)))

    # --- closures
    def closure(pres, ip, sp, ty):
        def f():
            b = region("obj", "closure"); val = {}
            for k in ("parent", "data", "meta", "text"): val[k] = Ptr(("obj", k)) if k in pres else 0
            for k, v in val.items(): setf(b, "lClosure", k, v)
            code = ("bytes", "code", 100000); A.mem[code] = {}; A.mem[("obj", "text")] = {}
            A.store(Ptr(("obj", "text"), fo["lBytecodeArray"]["data"]), Ptr(code), 8)
            setf(b, "lClosure", "ip", Ptr(code, ip) if "text" in pres else 0)
            setv(b, fo["lClosure"]["args"], V("args")); setf(b, "lClosure", "sp", sp); setf(b, "lClosure", "type", ty)
            def same(p):
                if not isnew(p, "lClosureAllocRaw"): return "no closure is built"
                for k, v in val.items():
                    g = field(p.b, "lClosure", k)
                    if g != v: return "the %s of the closure is another" % k
                if "text" in pres and field(p.b, "lClosure", "ip") != Ptr(code, ip): return "the closure continues at another place"
                if "text" not in pres and field(p.b, "lClosure", "ip") != 0: return "a closure without code has an instruction pointer"
                if field(p.b, "lClosure", "sp") & 0xFFFF != sp: return "the closure's stack height is lost"
                if field(p.b, "lClosure", "type") != ty: return "the closure is of another type"
                if not samev(getv(p.b, fo["lClosure"]["args"]), V("args")): return "the arguments of the closure are others"
            return [Ptr(b)], same
        return f
    allk = ("parent", "data", "meta", "text")
    ctypes = sorted(v for k, v in m.enum("closureType").items())
    confs = [allk, ()] + [tuple(x for x in allk if x != k) for k in allk]
    for j, c in enumerate(confs):
        cases.append(("Closure", "closure with %s" % (" ".join(c) or "nothing"), closure(c, (0, 1, 300, 70000)[j % 4], (0, 3, 300, 0xFFFE)[j % 4], ctypes[j % len(ctypes)])))
    for t in ctypes: cases.append(("Closure", "closure of type %d" % t, closure(allk, 7, 2, t)))

    # --- trees
    shapes = [(0, 0), ((0, 0), 0), (0, (0, 0)), ((0, 0), (0, 0)), (((0, 0), 0), (0, 0)), ((0, (0, 0)), (0, (0, 0)))]
    def tree(shape, flags=0):
        def f():
            cnt = [0]; ent = []
            def mk(t):
                if t == 0: return 0
                l = mk(t[0]); k = cnt[0]; cnt[0] += 1; b = region("obj", "node", k); r = mk(t[1])
                setf(b, "lTree", "left", l); setf(b, "lTree", "right", r)
                A.store(Ptr(b, keyo), Ptr(("obj", "sym", k)), 8); setv(b, fo["lTree"]["value"], V("tv", k)); setf(b, "lTree", "height", 1); setf(b, "lTree", "flags", 0)
                ent.append((k, b))
                return Ptr(b)
            root = mk(shape)
            n = cnt[0]
            if isinstance(root, Ptr): setf(root.b, "lTree", "flags", flags)
            def same(p):
                got = {}
                if isinstance(p, Ptr) and p.b in A.tree and (field(p.b, "lTree", "flags") ^ flags) & imm: return "the tree changes from immutable to mutable or back"
                while isinstance(p, Ptr) and p.b in A.tree:
                    t, sy, v = A.tree[p.b]
                    got.setdefault(sy, v); p = t
                if p != 0: return "the tree is built on something else"
                if set(got) != {Ptr(("obj", "sym", k)) for k in range(n)}: return "%d of %d symbols are associated" % (len(got), n)
                for k in range(n):
                    if not samev(got[Ptr(("obj", "sym", k))], V("tv", k)): return "a symbol is associated with another value"
            return [root], same
        return f
    f = m.struct("lTree")["fields"]
    keyo = fo["lTree"].get("key", [x["o"] for x in f if x["n"] in ("", None)][0] if "key" not in fo["lTree"] else None)
    imm = 1                                                 # TREE_IMMUTABLE
    for s_ in shapes:
        for fl in (0, 1): cases.append(("Tree", "tree of shape %r, flags %d" % (s_, fl), tree(s_, fl)))
    full = lambda h: 0 if h == 0 else (full(h - 1), full(h - 1))
    for h in (9, 11): cases.append(("Tree", "tree of %d nodes" % (2 ** h - 1), tree(full(h))))

    # --- symbols
    def symbol(n):
        def f():
            b = region("obj", "symbol"); A.strs[b] = n
            def same(p):
                if p != Ptr(b): return "it is another symbol"
            return [Ptr(b)], same
        return f
    def symlen(): return [x for x in m.struct("lSymbol")["fields"] if x["o"] == 0]
    for n in (1, 5, 30, 90): cases.append(("Symbol", "symbol of %d" % n, symbol(n)))

    # --- values
    tagof = {"Pair": ("ltPair",), "Array": ("ltArray",), "BufferView": ("ltBufferView",), "BytecodeArray": ("ltBytecodeArr",), "Symbol": ("ltSymbol", "ltKeyword"), "Buffer": ("ltBuffer", "ltString"),
             "Closure": ("ltLambda", "ltMacro", "ltEnvironment")}
    def simple(t, pv, same=None):
        def f():
            pl = pv() if callable(pv) else pv
            def cmp(r):
                r = dict(r) if isinstance(r, Agg) else None
                if not r: return "nothing is read"
                if A.norm(r.get(0)) != T[t]: return "a value of another type is read"
                if same: return same(A.norm(r.get(1)), A.norm(pl))
                if A.norm(r.get(1)) != A.norm(pl): return "another value is read"
            return [T[t], pl], cmp
        return f
    covered = set()
    for k, ts in tagof.items():
        for t in ts: cases.append(("Val", t, simple(t, lambda k=k: Ptr(("obj", k))))); covered.add(t)
    def boolsame(a, b):
        a = A.norm(A.un("trunc", a, 8, 64))
        if not isinstance(a, int) or a & 255 != b: return "true is read for false or the other way around"
    cases.append(("Val", "ltInt", simple("ltInt", S(("pv", "int"), 64))))
    cases.append(("Val", "ltFloat", simple("ltFloat", S(("pv", "float"), 64))))
    for b in (0, 1): cases.append(("Val", "ltBool", simple("ltBool", b, boolsame)))
    cases.append(("Val", "ltNil", simple("ltNil", 0, lambda a, b: None)))
    def std(name):
        return lambda: A.norm(A.load(Ptr(("g", name)), 8))
    for n in ("stdin", "stdout", "stderr"): cases.append(("Val", "ltFileHandle", simple("ltFileHandle", std(n))))
    def named(kind, st):
        def f():
            b = region("obj", kind); sy = Ptr(("obj", "name")); setf(b, st, "name", sy)
            A.named[(kind, sy)] = Ptr(b)
            return Ptr(b)
        return f
    cases.append(("Val", "ltNativeFunc", simple("ltNativeFunc", named("NFunc", "lNFunc"))))
    cases.append(("Val", "ltType", simple("ltType", named("Type", "lClass"))))
    def treeroot(empty):
        def f():
            b = region("obj", "root"); setf(b, "lTreeRoot", "root", 0 if empty else Ptr(("obj", "Tree")))
            return Ptr(b)
        def same(a, b):
            if not isnew(a, "lTreeRootAllocRaw"): return "no tree is built"
            if field(a.b, "lTreeRoot", "root") != (0 if empty else Ptr(("obj", "Tree"))): return "it is another tree"
        return simple("ltTree", f, same)
    cases.append(("Val", "ltTree", treeroot(False))); cases.append(("Val", "ltTree", treeroot(True)))
    covered |= {c[1] for c in cases if c[0] == "Val"}
    refused = {"ltAny", "ltComment", "ltException"}

    # --- the round trip of one record
    C0S = (0x0A0B0C, 0x800000, 0x123)
    for j, (kind, name, build) in enumerate(cases):
        label = name if kind != "Val" else "%s value" % name[2:]
        finished = [0]; errs = {}
        huge = name.endswith(" nodes")
        for static in (False, True)[:1 if huge else 2]:
            for slack in (0, 9, 100000)[:1 if huge else 3]:
                for rot in (j % 8,) if huge else ((0, 3, 5) if slack == 0 else (j % 8,)):
                    def go():
                        A.tree = {}; A.named = {}; A.again = None; A.nested = None; A.rot = rot; A.static = static
                        args, same = build()
                        A.context(C0S[(rot + j) % 3], slack)
                        if kind != "Val":
                            def again():
                                A.again = None
                                before = A.wget("curOff"); A.nested = True
                                try: r = A.write(kind, args)
                                finally: A.nested = None; A.writing = True; A.stop = {"ctxAdd" + k for k in PTR + ("Val",)}
                                if r != A.c0 or A.wget("curOff") != before: raise Bad("a reference back to the object does not lead to its record")
                            A.again = again
                        try:
                            r = A.write(kind, args)
                            if r != A.c0: raise Bad("the offset returned is not that of the record")
                            A.check_record()
                            if kind != "Val":
                                A.again = None; before = A.wget("curOff"); A.nested = True
                                r2 = A.write(kind, args); A.nested = None
                                if r2 != r or A.wget("curOff") != before: raise Bad("a second reference to the object writes it a second time")
                            rm = A.rmap(); inner = []
                            def reagain():
                                A.again = None; A.nested = True; st = A.stop
                                try: inner.append(A.read(kind, r, static, rm))
                                finally: A.nested = None; A.stop = st
                            if kind not in ("Val", "Symbol", "Tree", "Buffer", "BufferView"): A.again = reagain
                            v = A.read(kind, r, static, rm)
                            A.again = None
                            if inner and inner[0] != v: raise Bad("a reference back to the object is read as another object")
                            e = same(v)
                            if kind == "Val" and isinstance(v, Agg) and dict(v).get(0) == T["ltNil"]:
                                er = A.norm(A.load(Ptr(rm.b, rmo["error"]), 2))
                                if er == T["ltException"]: e = "refused" if name == "ltFloat" and any(k[0] == "f" and (x == "u" or "inf" in repr(k).lower()) for k, x in A.cmp.items()) else e or "reading it fails"
                            if e == "refused": return None
                            if e: raise Bad(e)
                            if kind not in ("Val", "Symbol", "Tree") or name == "ltTree" and dict(v).get(1) is not None and A.norm(args[1]).b == ("obj", "root") and not field(("obj", "root"), "lTreeRoot", "root") == 0:
                                v2 = A.read(kind, r, static, rm)
                                if v2 != v: raise Bad("two references to the object are read as two objects")
                            nulls.update(A.nulls)
                            finished[0] += 1
                            return None
                        except Bad as e: return str(e)
                    for p in A.paths(go):
                        if p.kind == "ret" and p.ret: errs[p.ret] = 1
                        elif p.kind == "exit": pass
        big = any(x in name for x in ("70000",))
        R.obligation(not errs, "%s: %s" % (label, sorted(errs)[0] if errs else "same"), "%s written to an image: %s" % (label, "; ".join(sorted(errs))), "lib/imageWriter.c", "ctxAdd" + kind)
        if not finished[0] and not errs and not big: R.obligation(False, "%s: never written" % label, "no way through the writer and the reader yields a %s" % label, "lib/imageWriter.c")
        R.count("round trips followed", finished[0])

    # --- every type is either written or refused
    for t in sorted(T):
        if t in covered: continue
        ends = set()
        def go():
            A.tree = {}; A.named = {}; A.again = None; A.nested = None; A.static = False; A.rot = 0
            A.context(C0S[0], 1000)
            try: return A.write("Val", [T[t], S(("pv", t), 64)])
            except Bad as e: return "bad"
        for p in A.paths(go): ends.add(p.kind)
        if t in refused or not t.startswith("lt"): R.obligation(ends == {"exit"}, "%s: refused" % t, "a value of the internal type %s is written to an image" % t, "lib/imageWriter.c", "ctxAddVal")
        else: R.obligation(False, "%s: not covered" % t, "values of type %s are not known to the check" % t, "lib/imageWriter.c")
    # a file handle that is none of the standard ones is refused when it is read
    res = set()
    def go():
        A.tree = {}; A.named = {}; A.again = None; A.nested = None; A.static = False; A.rot = 0
        A.context(C0S[0], 1000)
        fh = Ptr(("obj", "file"))
        try:
            r = A.write("Val", [T["ltFileHandle"], fh])
            rm = A.rmap(); v = A.read("Val", r, False, rm)
            if any(A.norm(A.load(Ptr(("g", n)), 8)) == fh for n in ("stdin", "stdout", "stderr")): return "error"
            return "error" if A.norm(A.load(Ptr(rm.b, rmo["error"]), 2)) == T["ltException"] else "value"
        except Bad as e: return str(e)
    for p in A.paths(go): res.add(p.ret if p.kind == "ret" else p.kind)
    R.obligation(res <= {"error", "exit"} and bool(res), "file handles", "a file handle that is neither stdin, stdout nor stderr is read back as a value (%s)" % ", ".join(map(str, sorted(res, key=str))), "lib/imageReader.c", "readVal")

    # --- nothing is read as nothing
    for kind, off in sorted(nulls):
        res = set()
        def go():
            A.tree = {}; A.named = {}; A.again = None; A.nested = None; A.static = False
            A.context(16, 16)
            try:
                v = A.read(kind, off, False)
                return "nil" if (v == 0 or isinstance(v, Agg) and A.norm(dict(v).get(0)) == T["ltNil"]) else "something"
            except Bad as e: return str(e)
        for p in A.paths(go): res.add(p.ret if p.kind == "ret" else p.kind)
        R.obligation(res == {"nil"}, "%s: none" % kind, "a missing %s is read as something" % kind, "lib/imageReader.c", "read" + kind)

    names(R, A, m)
    refusal(R, A, m, cases, C0S)
    whole(R, A, m)
    R.floor("round trips followed", R.counts.get("round trips followed", 0), 250)
    R.assumptions += ["lTreeInsert associates its key with its value (C17); symbols are interned (lSymS)", "built-in methods, which have no name, never become values",
                      "recursion deep enough to exhaust the C stack is not covered", "images come from the writer: malformed ones are not covered"]
    return R.finish()





def names(R, A, m):
    """readNFunc and readType find what has the name"""
    for kind, lst, st in (("NFunc", "lNFuncList", "lNFunc"), ("Type", "lClassList", "lClass")):
        size = m.struct(st)["size"]; no = A.fo[st]["name"]; sy = Ptr(("obj", "wanted"))
        for at in (0, 1, 5):
            res = set()
            def go():
                A.tree = {}; A.named = {}; A.again = None; A.nested = None; A.static = False
                A.context(16, 16)
                A.mem[("g", lst)] = {}
                for k in range(0, 40): A.store(Ptr(("g", lst), k * size + no), sy if k == at else Ptr(("obj", "other", k)), 8)
                A.mem[("g", "lNFuncMax")] = {}; A.store(Ptr(("g", "lNFuncMax")), 9, 4)
                A.back[("Symbol", 77)] = sy
                try:
                    stop = {"readSymbol"}; A.stop = stop
                    return A.norm(A.call("read" + kind, [A.rmap(), Ptr(A.cur, -A.imgdata), 77, 0]))
                except Bad as e: return str(e)
            for p in A.paths(go): res.add(p.ret if p.kind == "ret" else p.kind)
            R.obligation(res == {Ptr(("g", lst), at * size)}, "%s by name %d" % (kind, at), "the %s found by its name is not the one with that name (%s)" % (kind, res), "lib/imageReader.c", "read" + kind)


def refusal(R, A, m, cases, C0S):
    """what is too big for the offsets is refused: from then on the context says so"""
    marks = set()
    book = {o for k, o in A.wctx.items() if k in ("start", "curOff", "size")}
    mo = A.wctx.get("map")
    first = {}
    for c in cases: first.setdefault(c[0] if c[0] != "Val" else "Val " + c[1], c)
    for label, (kind, name, build) in sorted(first.items()):
        for c0 in (NONE - 1, NONE, NONE + 1, 0x7FFFFFF0):
            res = {}
            def go():
                A.tree = {}; A.named = {}; A.again = None; A.nested = None; A.static = False; A.rot = 0
                args, same = build()
                A.context(c0, 0)
                zero = {o: c for o, c in A.mem[A.W].items()}
                try: r = A.write(kind, args)
                except Bad as e: return ("bad", str(e))
                d = tuple((o, c) for o, c in sorted(A.mem[A.W].items()) if o not in book and zero.get(o) != c and not (mo is not None and mo <= o < mo + 24))
                return ("r", r, d)
            for p in A.paths(go): res[p.ret if p.kind == "ret" else (p.kind,)] = 1
            for x in res:
                if x[0] == "exit": ok = True
                elif x[0] == "bad": ok = False
                else:
                    ok = isinstance(x[1], int) and (0 <= x[1] < NONE or bool(x[2]))
                    if x[2] and not 0 <= x[1] < NONE: marks.add(x[2])
                R.obligation(ok, "%s: beyond the offsets" % label, "%s at offset %#x: its offset does not fit 3 bytes, and this is not noticed %s" % (label, c0, x[1] if x[0] == "bad" else ""), "lib/imageWriter.c", "ctxAdd" + kind)
    # objects of extreme size
    for kind, st in (("Buffer", "lBuffer"), ("Array", "lArray")):
        for n in (NONE, 1 << 24, 1 << 28, 0x1FFFFFFF, 0x20000000, 0x3FFFFFFF, 0x7FFFFFFC, 0x7FFFFFFF):
            res = {}
            def go():
                A.tree = {}; A.named = {}; A.again = None; A.nested = None; A.static = False; A.rot = 0
                b = ("obj", "huge"); A.mem[b] = {}
                d = ("bytes", "huge", n); A.mem[d] = {}
                A.store(Ptr(b, A.fo[st]["buf" if st == "lBuffer" else "data"]), Ptr(d), 8); A.store(Ptr(b, A.fo[st]["length"]), n, 4); A.store(Ptr(b, A.fo[st]["flags"]), 0, 1)
                A.context(0x1234, 0)
                zero = {o: c for o, c in A.mem[A.W].items()}
                try: r = A.write(kind, [Ptr(b)])
                except Bad as e: return ("bad", str(e))
                x = tuple((o, c) for o, c in sorted(A.mem[A.W].items()) if o not in book and zero.get(o) != c and not (mo is not None and mo <= o < mo + 24))
                return ("r", r, x)
            try:
                for p in A.paths(go): res[p.ret if p.kind == "ret" else (p.kind,)] = 1
            except AnalysisBroken as e: res[("bad", "its %d elements are written" % n)] = 1
            for x in res:
                ok = x[0] == "exit" or x[0] == "r" and bool(x[2])
                if x[0] == "r" and x[2]: marks.add(x[2])
                R.obligation(ok, "%s of %d: too big" % (kind, n), "a%s of %d elements is not refused, though it does not fit an image: %s" % ("n array" if kind == "Array" else " buffer", n, x[1] if x[0] == "bad" else "its offsets are cut off"), "lib/imageWriter.c", "ctxAdd" + kind)
    A.marks = marks


def whole(R, A, m):
    """image/serialize and image/deserialize as a whole"""
    V = (S(("ty", "root"), 16), S(("pv", "root"), 64))
    for mark in [None] + sorted(A.marks, key=repr):
        res = set()
        def go():
            A.tree = {}; A.named = {}; A.again = None; A.nested = None; A.static = False; A.rot = 0
            A.mem[A.W] = {}
            st = {}
            def wr(kind, args):
                c = s_ptr(args[0]); o = A.wctx
                if A.norm(A.load(Ptr(c.b, c.o + o["curOff"]), 4)) != 0: raise Bad("the root is not at the start of the image")
                if (A.norm(args[1]), A.norm(args[2])) != V: raise Bad("another value is written")
                A.cur = None; p = A.grow(5000)
                A.mem[p.b] = {0: (4321, S(("blob", ("image",), 0, 4321)))}
                A.store(Ptr(c.b, c.o + o["start"]), p, 8); A.store(Ptr(c.b, c.o + o["curOff"]), 4321, 4); A.store(Ptr(c.b, c.o + o["size"]), 5000, 4)
                for off, (n, v) in mark or (): A.store(Ptr(c.b, c.o + off), v, n)
                return -1 if mark else 0
            def s_ptr(x): return A.ptr(x)
            def rd(kind, args):
                p = A.ptr(args[1])
                if A.norm(args[2]) != 0: raise Bad("reading does not start with the root")
                d = Ptr(p.b, p.o + A.imgdata)
                if A.bytes_at(d, 4321) != [("mem", ("image",), k) for k in range(4321)]: raise Bad("the image read is not the one that was written")
                return Agg(((0, V[0]), (1, V[1])))
            A.stop = {"ctxAddVal", "readVal"}; A.owrite = wr; A.oread = rd
            try:
                r = A.call("lnfSerialize", [V[0], V[1]])
                t = A.norm(dict(r).get(0)); b = A.norm(dict(r).get(1))
                if t == A.T["ltException"]: return "exception"
                if t != A.T["ltBuffer"]: return "no buffer"
                n = A.norm(A.load(Ptr(b.b, A.fo["lBuffer"]["length"]), 4))
                q = A.ptr(A.norm(A.load(Ptr(b.b, A.fo["lBuffer"]["buf"]), 8)))
                if not isinstance(q.b, tuple) or q.b[0] != "heap" or not isinstance(A.cap[q.b], int) or A.cap[q.b] < n: return "the buffer is longer than its memory"
                if n != 4321 + A.imgdata: return "the buffer is not as long as the image"
                r = A.call("lnfDeserialize", [t, b])
                t, v = A.norm(dict(r).get(0)), A.norm(dict(r).get(1))
                if (t, v) == V: return "same"
                return "exception" if t == A.T["ltException"] else "other value"
            except Bad as e: return str(e)
            finally:
                del A.owrite; del A.oread
        for p in A.paths(go): res.add(p.ret if p.kind == "ret" else p.kind)
        want = {"exception"} if mark else {"same"}
        R.obligation(res - {"exit"} == want, "image as a whole%s" % (", refused" if mark else ""), "image/serialize followed by image/deserialize %s: %s" % ("after something was refused" if mark else "", ", ".join(sorted(map(str, res)))), "lib/imageWriter.c", "lnfSerialize")
