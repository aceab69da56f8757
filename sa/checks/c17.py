"""C17: a tree keeps exactly one value per symbol, ordered and balanced, and owns its nodes."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..trees import *
from ..treeown import roots

RULE = ("Shape analysis of the tree functions: each is followed through its compiled code on trees whose top nodes are known and whose remaining subtrees are opaque (only their height and key interval are "
        "given), for every position the symbol can take; recursion into an opaque subtree is answered by the specification of the same function. The result must hold exactly the old "
        "nodes plus at most one new one, in key order, every height one more than the higher side, no two sides more than one apart, untouched values unchanged. Lookup must descend into the one "
        "subtree that can hold the symbol; size, keys, values and copies must account for every subtree once, in order. Wherever a tree is attached to an object, its provenance must show it is not attached to another.")


class T(TreeAbs):
    def setup(s): s.owner = {}; s.grown = None


def insert(A, R):
    n = 0; undecided = 0
    small = [t for h in (1, 2, 3) for t in concrete(h)]
    for tpl in shapes() + small:
        gaps = [0]
        items = []
        def cnt(t):
            if isinstance(t, int): items.append("gap"); return
            cnt(t[0]); items.append("node"); cnt(t[1])
        cnt(tpl)
        for pos in range(len(items)):
            res, und = insert_at(A, tpl, items, pos)
            n += len(res); undecided += und
            for m in res:
                R.obligation(m is None, "insert: %s" % m, "lTreeInsert: %s (tree %r, symbol at position %d)" % (m, tpl, pos), "lib/tree.c", "lTreeInsert")
    R.counts["insertions not decided because the code looks inside an opaque subtree"] = undecided
    R.floor("insertion paths", n, 300)
    # the empty tree
    V = (S(("v", "t"), 16), S(("v", "v")))
    def go(): return A.call("lTreeInsert", [0, A.key(0), V[0], V[1]])
    ps = [p for p in A.paths(go) if p.kind == "ret"]
    for p in ps:
        A.mem = p.st["mem"]; A.sub = p.st["sub"]
        o = []; ok = A.inorder(p.ret, o, set()) and len(o) == 1 and A.f(o[0], "key") == A.key(0) and (A.f(o[0], "value", 2), A.norm(A.load(Ptr(o[0], A.o["value"] + 8), 8))) == V and A.height(p.ret) == (1, None)
        R.obligation(ok, "insert: an insertion into nothing is not a tree of one node", "lTreeInsert into an empty tree does not give a single node", "lib/tree.c", "lTreeInsert")
    R.floor("insertions into nothing", len(ps), 1)


def insert_at(A, tpl, items, pos):
    V = (S(("v", "t"), 16), S(("v", "v")))
    st = {}
    def ih(n, k, args, i):
        if n != "lTreeInsert" or k != 0: return None
        b = A.norm(args[0]).b; j = b[2]
        if A.norm(args[1]) != A.key(pos): raise Done("bad", "another symbol is inserted")
        if (A.norm(args[2]), A.norm(args[3])) != V: raise Done("bad", "another value is inserted")
        if j != pos: raise Done("bad", "the symbol is inserted on the wrong side")
        if st.get("did"): raise Done("bad", "the symbol is inserted twice")
        st["did"] = True
        h = A.f(b, "height", A.hs)
        if A.choose(2) == 0:                                   # height as before
            nb = ("r", "sub", j, "same"); A.mem[nb] = {A.o["height"]: (A.hs, h)}
            st["repl"] = [nb]
            return (Ptr(nb),)
        # grown by one: materialised two levels deep on the side the symbol is on
        side = A.choose(2)
        def sub(tag, h, lo):
            if h == 0: return 0, []
            x = ("r", "sub", j, tag); A.mem[x] = {A.o["height"]: (A.hs, h)}
            return Ptr(x), [x]
        def node(tag, key, l, r, h, val):
            x = ("r", "node", j, tag); A.node(x, key, val, l[0], r[0], h)
            return Ptr(x), l[1] + [x] + r[1]
        val = lambda tag: (S(("vt", "r", tag), 16), S(("vv", "r", tag)))
        st["vals"] = {}
        def keyed(d): return Ptr(("g", "lSymbolList"), A.key(pos).o + d)
        if h == 0: raise AnalysisBroken("opaque subtree of height 0")
        # the higher side holds the symbol; it is itself a single node or grew the same way
        lowh = h - 1
        def higher():
            """subtree of height h holding the symbol, keys around it"""
            if h == 1: return node("s", A.key(pos), (0, []), (0, []), 1, V)
            q = A.choose(2)
            big = sub("big", h - 1, 0); small = sub("small", h - 2, 0)
            if q == 0: return node("m", keyed(5), big, small, h, val("m"))       # the symbol below on the left
            return node("m", keyed(-5), small, big, h, val("m"))
        if side == 0:
            a = higher(); b2 = sub("rest", lowh, 0)
            r = node("top", keyed(50), a, b2, h + 1, val("top"))
        else:
            a = higher(); b2 = sub("rest", lowh, 0)
            r = node("top", keyed(-50), b2, a, h + 1, val("top"))
        for x in r[1]:
            if x[1] == "node": st["vals"][x] = V if x[3] == "s" else val(x[3])
        st["repl"] = r[1]
        st["grew"] = True
        return (r[0],)
    def go():
        st.clear()
        A.ih = ih
        p, _ = A.build(tpl)
        return A.call("lTreeInsert", [p, A.key(pos), V[0], V[1]])
    out = []; und = 0
    h0 = height(tpl)
    def judge(r):
        seq = []
        if not A.inorder(r, seq, set()): return "the result is not a tree"
        want = []
        k = -1
        def walk(t):
            nonlocal k
            if isinstance(t, int):
                k += 1; j = k
                if j == pos: want.append(["repl", st["repl"]] if t else ["new"])
                elif t: want.append(("t", "sub", j))
                return
            walk(t[0]); k += 1; want.append(("t", "node", k)); walk(t[1])
        if items[pos] == "gap" and not st.get("did") and gapheight(tpl, pos): return "the symbol is not inserted"
        walk(tpl)
        flat = []
        for w in want:
            if isinstance(w, list) and w[0] == "repl": flat += w[1]
            elif isinstance(w, list): flat.append("new")
            else: flat.append(w)
        if len(flat) != len(seq): return "the number of nodes is wrong" if len(seq) > len(flat) else "associations are lost"
        for w, x in zip(flat, seq):
            if w == "new":
                if x[0] != "new": return "the order of the nodes is wrong"
                if A.f(x, "key") != A.key(pos): return "the new node has another symbol"
                if val(x) != V: return "the new node has another value"
            elif w != x: return "the order of the nodes is wrong"
        for x in seq:
            if x[0] == "t" and x[1] == "node":
                if A.f(x, "key") != A.key(x[2]): return "the symbol of a node is changed"
                wv = V if x[2] == pos else (S(("vt", "t", x[2]), 16), S(("vv", "t", x[2])))
                if val(x) != wv: return "the value of the symbol is not replaced" if x[2] == pos else "the value of another symbol is changed"
            if x in st.get("vals", {}) and val(x) != st["vals"][x]: return "the value of another symbol is changed"
        h, e = A.height(r)
        if e: return e
        if h not in (h0, h0 + 1): return "the height changes by more than one"
        if h == h0 + 1 and h0:                                 # what the induction assumes of a tree that grew
            top = A.norm(r); l, _ = A.height(A.f(top.b, "left")); g, _ = A.height(A.f(top.b, "right"))
            at = [k for k, x in enumerate(seq) if x[0] == "new" or x[-1] in ("s", "big")]
            if at and (l > g) != (at[0] < seq.index(top.b)) or l == g: return "a tree that grew is not higher on the side of the new symbol"
        return None
    def val(x): return A.norm(A.load(Ptr(x, A.o["value"]), 2)), A.norm(A.load(Ptr(x, A.o["value"] + 8), 8))
    def full():
        r = go()
        return judge(r)
    for p in A.paths(full):
        if p.kind == "into": und += 1; continue
        if p.kind == "bad": out.append(p.ret); continue
        if p.kind != "ret": continue
        out.append(p.ret)
    A.ih = None
    return out, und


def gapheight(t, pos):
    k = -1
    def walk(t):
        nonlocal k
        if isinstance(t, int):
            k += 1
            return t if k == pos else None
        r = walk(t[0])
        if r is not None: return r
        k += 1
        if k == pos: return None
        return walk(t[1])
    return walk(t)


LOOK = LOOKS


def lookup(A, R):
    n = 0
    for tpl in LOOK:
        it = items_of(tpl)
        for pos in range(len(it)):
            def ref():
                A.ih = None
                p, _ = A.build(tpl)
                A.ih = lambda n, k, args, i: None
                return A.pair(A.call("lTreeRef", [p, A.key(pos)]))
            ps = A.paths(ref)
            R.obligation(bool(ps), "lookup: the search does not end", "lTreeRef: the search does not end", "lib/tree.c", "lTreeRef")
            for p in ps:
                n += 1
                m = None
                if it[pos][0] == "node":
                    if p.kind != "ret" or p.ret != (S(("vt", "t", pos), 16), S(("vv", "t", pos))): m = "a symbol that is in the tree is not found"
                elif it[pos][1]:
                    if p.kind != "into" or p.ret[2] != pos: m = "the search takes the wrong side"
                elif p.kind != "ret" or p.ret[0] != A.T["ltException"]: m = "a symbol that is not in the tree is found" if p.kind == "ret" else "the search takes the wrong side"
                R.obligation(m is None, "lookup: %s" % m, "lTreeRef: %s" % m, "lib/tree.c", "lTreeRef")
            A.ih = None
    R.floor("lookup paths", n, 30)
    # absent tree
    for p in A.paths(lambda: A.pair(A.call("lTreeRef", [0, A.key(0)]))):
        R.obligation(p.kind == "ret" and p.ret[0] == A.T["ltException"], "lookup: nothing is found in nothing", "lTreeRef finds something in an absent tree", "lib/tree.c", "lTreeRef")


def fold(A, R):
    """size, keys and values account for every subtree"""
    n = 0
    for tpl in [0] + LOOK:
        it = items_of(tpl) if tpl else []
        def size():
            A.ih = None; p, _ = A.build(tpl)
            A.ih = lambda nm, k, args, i: (1000 ** A.norm(args[k]).b[2],) if nm == "lTreeSize" else None
            return A.call("lTreeSize", [p])
        want = sum(1 if k == "node" else 1000 ** j if t else 0 for j, (k, t) in enumerate(it))
        for p in A.paths(size):
            A.ih = None
            if p.kind == "into": continue
            n += 1
            R.obligation(p.kind == "ret" and p.ret == sgn(want, 32), "size: nodes are not counted once", "lTreeSize of %r counts %r instead of %r" % (tpl, p.ret, want), "lib/tree.c", "lTreeSize")
        A.ih = None
        for fn, what in (("lnmTreeKeys", "keys"), ("lnmTreeValues", "values")):
            def lst():
                A.ih = None; t, _ = A.build(tpl)
                root = ("root", 0); A.mem[root] = {0: (8, t)}
                def ih(nm, k, args, i):
                    if not (i.ty or "").startswith("{"): return None
                    if len(args) != 3 or k != 0: return None
                    return (Agg(((0, A.T["ltPair"]), (1, S(("prepend", A.norm(args[0]).b[2], A.norm(args[1]), A.norm(args[2])))))),)
                A.ih = ih
                r = A.pair(A.call(fn, [A.T["ltTree"], Ptr(root)]))
                seq = []
                while True:
                    t, v = r
                    if t == A.T["ltNil"]: return seq
                    if t != A.T["ltPair"]: return None
                    if isinstance(v, S) and v.k[0] == "prepend": seq.append(("sub", v.k[1])); r = (v.k[2], v.k[3]); continue
                    if not isinstance(v, Ptr): return None
                    f = {x["n"]: x["o"] for x in A.m.struct("lPair")["fields"]}
                    car = (A.load(Ptr(v.b, f["car"]), 2), A.load(Ptr(v.b, f["car"] + 8), 8))
                    r = (A.load(Ptr(v.b, f["cdr"]), 2), A.load(Ptr(v.b, f["cdr"] + 8), 8))
                    seq.append(("node",) + car)
            want = []
            for j, (k, t) in enumerate(it):
                if k == "node": want.append(("node", A.T["ltKeyword"], A.key(j)) if what == "keys" else ("node", S(("vt", "t", j), 16), S(("vv", "t", j))))
                elif t: want.append(("sub", j))
            for p in A.paths(lst):
                if p.kind == "into": continue
                n += 1
                R.obligation(p.kind == "ret" and p.ret == want, "%s: the list is not that of all nodes in order" % what, "%s of %r: %r" % (fn, tpl, p.ret), "lib/tree.c", fn)
            A.ih = None
    R.floor("counting and listing paths", n, 20)


def copies(A, R):
    n = 0
    for fn in ("lTreeDup", "lnmTreeClone"):
        for tpl in [0] + LOOK:
            def go():
                A.ih = None; t, _ = A.build(tpl); A.t0 = t
                def ih(nm, k, args, i):
                    if nm != "lTreeDup": return None
                    b = A.norm(args[k]).b; nb = ("d", "sub", b[2]); A.mem[nb] = {A.o["height"]: A.mem[b][A.o["height"]]}
                    return (Ptr(nb),)
                A.ih = ih
                if fn == "lTreeDup": r = A.call(fn, [t])
                else:
                    root = ("root", 0); A.mem[root] = {0: (8, t)}
                    tag, v = A.pair(A.call(fn, [A.T["ltTree"], Ptr(root)]))
                    if tag != A.T["ltTree"] or not isinstance(v, Ptr) or v.b == root: return "the copy is not a tree of its own"
                    r = A.load(v, 8)
                return same(t, A.norm(r))
            def same(a, b):
                if isinstance(a, int) or isinstance(b, int): return None if a == b else "the copy lacks a subtree"
                if A.issub(a): return None if A.issub(b) and b.b[0] == "d" and b.b[2] == a.b[2] else "the copy shares a subtree with the original" if a == b else "a subtree is copied to another place"
                if not isinstance(b, Ptr) or b.b[0] != "new": return "the copy shares nodes with the original"
                for k, w in (("key", 8), ("value", 2), ("height", A.hs)):
                    if A.f(a.b, k, w) != A.f(b.b, k, w): return "the copy of a node has another %s" % k
                if A.load(Ptr(a.b, A.o["value"] + 8), 8) != A.load(Ptr(b.b, A.o["value"] + 8), 8): return "the copy of a node has another value"
                return same(A.f(a.b, "left"), A.f(b.b, "left")) or same(A.f(a.b, "right"), A.f(b.b, "right"))
            for p in A.paths(go):
                if p.kind == "into": continue
                n += 1
                m = p.ret if p.kind == "ret" else "the copy is not made"
                R.obligation(m is None, "copy: %s" % m, "%s of %r: %s" % (fn, tpl, m), "lib/tree.c", fn)
            A.ih = None
    R.floor("copying paths", n, 10)


def methods(A, R):
    """has? and literals built from arguments"""
    n = 0
    for tpl in LOOK[:1] + LOOK[6:7]:
        it = items_of(tpl)
        for pos in range(len(it)):
            def has():
                A.ih = None; t, _ = A.build(tpl); root = ("root", 0); A.mem[root] = {0: (8, t)}
                A.ih = lambda nm, k, args, i: None
                for j in range(len(it)): A.ne.setdefault(S(("vt", "t", j), 16), set()).add(A.T["ltException"])
                return A.pair(A.call("lnmTreeHas", [A.T["ltTree"], Ptr(root), A.T["ltKeyword"], A.key(pos)]))
            for p in A.paths(has):
                if p.kind == "into" and it[pos][1]: continue
                n += 1
                ok = p.kind == "ret" and p.ret[0] == A.T["ltBool"] and isinstance(A.un("trunc", p.ret[1], 8, 64), int) and bool(A.un("trunc", p.ret[1], 8, 64) & 255) == (it[pos][0] == "node")
                R.obligation(ok, "has?: the answer is wrong", "lnmTreeHas on %r answers %r" % (tpl, p.ret), "lib/tree.c", "lnmTreeHas")
            A.ih = None
    R.floor("membership paths", n, 3)


def run():
    R = Report("C17", RULE)
    P, nats, par = setup(prog())
    A = T(P)
    R.functions |= {"lTreeInsert", "lTreeRef", "lTreeSize", "lTreeDup"}
    insert(A, R); lookup(A, R); fold(A, R); copies(A, R); methods(A, R)
    roots(P, R)
    R.assumptions += ["symbols are compared by address; all of them lie in the symbol table, so the order is total",
                      "an insertion that makes an opaque subtree higher leaves its higher side on the side of the new symbol (checked for every tree the rule builds)",
                      "heights of opaque subtrees are taken from a few representative numbers: the code only compares and increments them"]
    return R.finish()
