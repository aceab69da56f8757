"""Shapes of symbol trees for the abstract interpreter.  A tree is a few nodes with known (symbolic-valued) contents whose
remaining subtrees are opaque: nothing is known of them but their height and the interval their keys lie in.  Looking
inside one ends the path; calling the function under analysis on one is answered by its specification (induction)."""
from .absint import *

STEP = 1 << 16


class Into(Exception): pass


class TreeAbs(Abs):
    visits = 14; limit = 60000; name = "the tree operations"

    def __init__(s, P):
        super().__init__(P); s.shape(P)

    def shape(s, P):
        f = {x["n"]: x for x in s.m.struct("lTree")["fields"]}
        try: s.o = {k: f[k]["o"] for k in ("left", "right", "value", "height", "flags")}
        except KeyError as e: raise AnalysisBroken("lTree has no field %s" % e)
        s.o["key"] = f["key"]["o"] if "key" in f else [x["o"] for x in s.m.struct("lTree")["fields"] if x["n"] in ("", None)][0]
        s.hs = f["height"]["s"]; s.size_ = s.m.struct("lTree")["size"]
        s.T = s.m.enum("lType")
        s.raw = {n: s.m.struct(n[:-8])["size"] for n in s.m.defs if n.endswith("AllocRaw")}
        s.exc = {n for n in s.m.defs if n.startswith("lValException")}
        s.follow = None; s.ih = None

    # --- building
    def key(s, n): return Ptr(("g", "lSymbolList"), (n + 1) * STEP)

    def build(s, tpl, ids=None):
        """materialise a template; template: 0 nothing, int h opaque of that height, (l, r) node.  Returns (pointer, items)"""
        items = []
        def count(t):
            if isinstance(t, int): items.append(["gap", t]); return
            count(t[0]); items.append(["node", t]); count(t[1])
        count(tpl)
        k = [0]
        def mk(t):
            if isinstance(t, int):
                j = k[0]; k[0] += 1
                if t == 0: return 0
                b = (s.tag, "sub", j); s.mem[b] = {s.o["height"]: (s.hs, t)}
                s.owner[b] = j
                return Ptr(b)
            l = mk(t[0]); j = k[0]; k[0] += 1; r = mk(t[1])
            b = (s.tag, "node", j)
            s.node(b, s.key(j + s.base), (S(("vt", s.tag, j), 16), S(("vv", s.tag, j))), l, r, height(t))
            return Ptr(b)
        s.owner = getattr(s, "owner", None) or {}
        return mk(tpl), items

    def node(s, b, key, val, l, r, h):
        s.mem[b] = {}; p = Ptr(b)
        s.store(Ptr(b, s.o["left"]), l, 8); s.store(Ptr(b, s.o["right"]), r, 8)
        s.store(Ptr(b, s.o["key"]), key, 8); s.store(Ptr(b, s.o["value"]), val[0], 2); s.store(Ptr(b, s.o["value"] + 8), val[1], 8)
        s.store(Ptr(b, s.o["height"]), h, s.hs); s.store(Ptr(b, s.o["flags"]), 0, 1)
        return p

    tag = "t"; base = 0

    def issub(s, v):
        v = s.norm(v)
        return isinstance(v, Ptr) and isinstance(v.b, tuple) and len(v.b) > 1 and v.b[1] == "sub" and v.o == 0

    # --- reading
    def f(s, b, k, n=8): return s.norm(s.load(Ptr(b, s.o[k]), n))

    def inorder(s, p, out, seen):
        """items of the tree at p in order; False if it is no tree.  Appends (kind, region)"""
        p = s.norm(p)
        if isinstance(p, int) and p == 0: return True
        if not isinstance(p, Ptr) or p.o: return False
        if p.b in seen: return False
        seen.add(p.b)
        if s.issub(p): out.append(p.b); return True
        if not (isinstance(p.b, tuple) and len(p.b) > 1 and p.b[1] in ("node", "fresh") or p.b[0] == "new"): return False
        if not s.inorder(s.f(p.b, "left"), out, seen): return False
        out.append(p.b)
        return s.inorder(s.f(p.b, "right"), out, seen)

    def height(s, p):
        """(true height, first node whose recorded height is wrong or that is out of balance)"""
        p = s.norm(p)
        if isinstance(p, int): return 0, None
        if s.issub(p): return s.f(p.b, "height", s.hs), None
        l, e = s.height(s.f(p.b, "left"))
        r, g = s.height(s.f(p.b, "right"))
        e = e or g; h = 1 + max(l, r)
        if e is None and s.f(p.b, "height", s.hs) != h: e = "the height of a node is not one more than that of its higher side"
        if e is None and abs(l - r) > 1: e = "the sides of a node differ in height by more than one"
        return h, e

    def init(s, b, o, n):
        if isinstance(b, tuple) and len(b) > 1 and b[1] == "sub" and o != s.o["height"]: raise Done("into", b)
        return super().init(b, o, n)

    def truth_of(s, v): return s.truth(s.cmpv("ne", s.un("trunc", v, 8, 64) if not isinstance(v, S) or v.w > 8 else v, 0, 8))

    def slotval(s, k):
        t, v = s.slot(k); return s.norm(t), s.norm(v)

    # --- calls
    def into(s, n): return s.follow is None and n in s.m.defs and n not in s.exc or s.follow is not None and n in s.follow

    def model(s, F, i, n, args):
        if n in s.raw:
            b = ("new", s.fresh(), n); s.mem[b] = {}
            s.zero(Ptr(b), s.raw[n])
            return (Ptr(b),)
        if n in s.exc:
            s.ev.append(("exc", n))
            return (Agg(((0, s.T["ltException"]), (1, S(("exception", n))))),)
        if s.ih:
            for k, a in enumerate(args):
                if s.issub(a):
                    r = s.ih(n, k, args, i)
                    if r is not None: return r
                    raise Done("into", s.norm(a).b)
        return None

    def pair(s, r):
        d = dict(r); return s.norm(d.get(0)), s.norm(d.get(1))


def height(t): return t if isinstance(t, int) else 1 + max(height(t[0]), height(t[1]))


def concrete(h):
    """all balanced shapes of height h without opaque parts"""
    if h == 0: return [0]
    if h == 1: return [(0, 0)]
    a, b = concrete(h - 1), concrete(h - 2)
    return [(x, y) for x in a for y in a] + [(x, y) for x in a for y in b] + [(y, x) for x in a for y in b]


def shapes(bases=(0, 1, 2, 3, 30), deep=True):
    out = []
    for h in bases:
        tops = [(h, h), (h, h + 1), (h + 1, h)]
        out += tops
        if not deep: continue
        def exp(x): return [x] if x == 0 else [x, (x - 1, x - 1)] + ([(x - 1, x - 2), (x - 2, x - 1)] if x >= 2 else [])
        for l, r in tops:
            for a in exp(l):
                for b in exp(r):
                    if (a, b) != (l, r): out.append((a, b))
    return out


LOOKS = [(0, 0), (2, 0), (0, 2), (2, 2), ((1, 0), 2), (2, (0, 1)), ((1, 1), (1, 1)), ((0, 1), (1, 0))]


def items_of(tpl):
    out = []
    def cnt(t):
        if isinstance(t, int): out.append(("gap", t)); return
        cnt(t[0]); out.append(("node", t)); cnt(t[1])
    cnt(tpl)
    return out
