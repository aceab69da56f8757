"""The image writer and reader under the abstract interpreter.  One record is written and read at a time: what it refers to is
written and read by calls that are answered with the offset (the object) the induction hypothesis promises.  The image is memory
addressed byte by byte; growing it moves it, so that a pointer from before a call is recognised as stale."""
from .absint import *
from .build import AnalysisBroken

PTR = ("Symbol", "Tree", "Array", "BytecodeArray", "Closure", "Buffer", "BufferView", "Pair")
NONE = 0xFFFFFF


class Bad(Exception): pass


class ImageAbs(Abs):
    limit = 3000; visits = 2100; steps = 3000000; frames = 200000; name = "the image writer and reader"

    def __init__(s, P):
        super().__init__(P)
        m = s.m
        s.T = m.enum("lType")
        s.fo = {}; s.fs = {}
        for st in ("lPair", "lArray", "lBuffer", "lBufferView", "lBytecodeArray", "lClosure", "lTree", "lTreeRoot", "lNFunc", "lClass"):
            s.fo[st] = {x["n"]: x["o"] for x in m.struct(st)["fields"]}
            s.fs[st] = {x["n"]: x["s"] for x in m.struct(st)["fields"]}
        s.raw = {n: m.structs[n[:-8]]["size"] for n in m.defs if n.endswith("AllocRaw") and n[:-8] in m.structs}
        s.exc = {n for n in m.defs if n.startswith("lValException")}
        s.wctx = {x["n"]: x["o"] for x in m.struct("writeImageContext")["fields"]}
        for n in ["ctxAdd" + k for k in PTR + ("Val",)] + ["read" + k for k in PTR + ("Val", "NFunc", "Type")] + ["lnfSerialize", "lnfDeserialize"]:
            if n not in m.defs: raise AnalysisBroken("%s not found" % n)

    # --- state
    def setup(s):
        s.cap = {}; s.cur = None; s.gen_ = 0; s.own = []; s.reserved = None; s.c0 = None
        s.out = {}        # (kind, object) -> offset, given out by opaque writer calls
        s.back = {}       # (kind, offset) -> object
        s.opaque = True; s.nested = None; s.nulls = set(); s.slack = 0; s.strs = {}

    def grow(s, cap):
        """the image in a new place"""
        s.gen_ += 1; b = ("img", s.gen_)
        s.mem[b] = dict(s.mem.get(s.cur, {})) if s.cur else {}
        s.cur = b; s.cap[b] = cap
        return Ptr(b)

    W = ("ctx",)

    def wget(s, k, n=4): return s.norm(s.load(Ptr(s.W, s.wctx[k]), n))
    def wset(s, k, v, n=4): s.store(Ptr(s.W, s.wctx[k]), v, n)

    def context(s, c0, slack):
        sz = s.m.struct("writeImageContext")["size"]
        s.mem[s.W] = {}; s.zero(Ptr(s.W), sz)
        s.c0 = c0; s.slack = slack
        s.cur = None; p = s.grow(c0 + slack)
        s.wset("start", p, 8); s.wset("curOff", c0); s.wset("size", c0 + slack)
        return Ptr(s.W)

    def rmap(s):
        b = ("rmap", s.fresh()); s.mem[b] = {}
        s.zero(Ptr(b), s.m.struct("readImageMap")["size"])
        return Ptr(b)

    # --- memory of the image
    def check(s, p, n, what):
        if isinstance(p, Ptr) and isinstance(p.b, tuple) and p.b and p.b[0] == "img" and s.writing:
            if p.b != s.cur: raise Bad("writes through a pointer to where the image was before it grew")
            if p.o < s.c0: raise Bad("writes over what was written before")
            if p.o + n > s.cap[p.b]: raise Bad("writes %d byte(s) past the end of the memory of the image" % (p.o + n - s.cap[p.b]))
            s.own.append((p.o, p.o + n))

    writing = False

    def store(s, p, v, n):
        s.check(p, n, "store")
        if isinstance(p, Ptr) and isinstance(p.b, tuple) and p.b and p.b[0] == "img" and not s.writing: raise Bad("the reader changes the image")
        super().store(p, v, n)

    def init(s, b, o, n):
        if isinstance(b, tuple) and b and b[0] == "img": return S(("unwritten", o, s.fresh()), 8 * n)
        return super().init(b, o, n)

    def copy(s, d, r, n):
        if n == 0: return
        big = lambda b: isinstance(b, tuple) and b and b[0] in ("img", "bytes", "heap", "lit", "out")
        if not (big(d.b) or big(r.b)): return super().copy(d, r, n)
        s.check(d, n, "copy")
        src = s.mem.setdefault(r.b, {}); dd = s.mem.setdefault(d.b, {})
        if r.b[0] == "bytes" and r.o + n > r.b[2]: raise Bad("copies more bytes than there are")
        have = [(o, c) for o, c in src.items() if r.o <= o and o + c[0] <= r.o + n]
        if r.b[0] == "bytes" or r.b in s.strs:
            if r.b in s.strs and r.o + n > s.strs[r.b] + 1: raise Bad("copies more than the name of the symbol")
            e = min(n, s.strs[r.b] - r.o) if r.b in s.strs else n
            have = [(r.o, (e, S(("blob", r.b, r.o, e))))] + ([(r.o + e, (1, 0))] if n > e else [])
        for o in [o for o, (m, _) in dd.items() if o < d.o + n and d.o < o + m]: del dd[o]
        for o, c in have: dd[d.o + o - r.o] = c

    def bytes_at(s, p, n):
        """normalised content of n bytes: list of (what, ...)"""
        d = s.mem.get(p.b, {}); out = [None] * n
        if isinstance(p.b, tuple) and p.b and p.b[0] == "bytes": return [("mem", p.b, p.o + k) for k in range(n)]
        for o, (m, v) in d.items():
            v = s.norm(v)
            for k in range(m):
                j = o + k - p.o
                if not 0 <= j < n: continue
                if isinstance(v, int): out[j] = (v >> 8 * k) & 255
                elif isinstance(v, S) and v.k[0] == "blob": out[j] = ("mem", v.k[1], v.k[2] + k)
                elif isinstance(v, S) and v.k[0] == "mem" and v.w == 8: out[j] = ("mem", v.k[1], v.k[2])
                else: out[j] = ("part", v, k)
        return out

    # --- calls
    def into(s, n): return n in s.m.defs and n not in s.exc and n not in s.stop

    stop = set()

    def model(s, F, i, n, args):
        if n in s.raw:
            b = ("new", s.fresh(), n); s.mem[b] = {}; s.zero(Ptr(b), s.raw[n]); return (Ptr(b),)
        if n in s.exc: return (Agg(((0, s.T["ltException"]), (1, S(("exception", n))))),)
        if n in ("malloc", "calloc", "realloc"):
            c = s.norm(args[-1]) if n != "calloc" else s.bin("mul", s.norm(args[0]), s.norm(args[1]), 64)
            if n == "realloc":
                p = s.norm(args[0])
                if isinstance(p, Ptr) and p.b == s.cur and s.writing:
                    if not isinstance(c, int): raise AnalysisBroken("size of the image unknown")
                    return (s.grow(c),)
                if s.writing and s.cur and p == 0 and s.wget("start", 8) == 0: return (s.grow(c),)
            b = ("heap", s.fresh()); s.mem[b] = {}; s.cap[b] = c
            if n == "realloc" and isinstance(args[0], Ptr): s.mem[b] = dict(s.mem.get(args[0].b, {}))
            if n == "calloc": s.zero(Ptr(b), c)
            return (Ptr(b),)
        if n == "free": return (None,)
        if n in ("strnlen", "strlen"):
            p = s.ptr(args[0])
            if p.b in s.strs and p.o == 0: return (s.strs[p.b],)
            raise AnalysisBroken("length of an unknown string")
        if n == "memcpy" or n == "memmove":
            s.copy(s.ptr(args[0]), s.ptr(args[1]), s.norm(args[2])); return (args[0],)
        if n == "lSymS":
            return (s.symbol_at(s.ptr(args[0])),)
        if n == "lTreeSize": return s.treesize(s.norm(args[0]))
        if n == "lTreeInsert":
            t = s.norm(args[0]); b = ("ins", s.fresh())
            s.tree[b] = (t, s.norm(args[1]), (s.norm(args[2]), s.norm(args[3])))
            s.mem[b] = {}; s.zero(Ptr(b), s.m.struct("lTree")["size"])
            return (Ptr(b),)
        if n in s.stop and n.startswith("ctxAdd"): return (s.owrite(n[6:], args),)
        if n in s.stop and n.startswith("read"): return (s.oread(n[4:], args),)
        return None

    def treesize(s, t): return None

    def symbol_at(s, p):
        """the symbol whose name is at p"""
        for b, ln in s.strs.items():
            c = s.bytes_at(p, ln + 1)
            if c[:ln] == [("mem", b, k) for k in range(ln)] and c[ln] == 0: return Ptr(b)
        return S(("othersymbol", s.fresh()))

    def objkey(s, kind, args):
        if kind == "Val":
            t, v = s.norm(args[1]), s.norm(args[2])
            return ("val", t, 0 if t == s.T["ltNil"] else v)
        return s.norm(args[1])

    REPS = [0x010203, 0x7FFF80, 0x80FF01, 0xFFFFFE, 0xFE0180, 0x00FF00, 0x0000FE, 0xABCDEF] + [0x020304 + 0x01010F * k for k in range(240)] + [0x30 + 0x101 * k for k in range(100)] + [0x400001 + 0x137 * k for k in range(5000)]

    def owrite(s, kind, args):
        """a recursive call of the writer"""
        if s.norm(args[0]) != Ptr(s.W): raise Bad("ctxAdd%s is called with another context" % kind)
        cur = s.wget("curOff")
        if s.reserved is None: s.reserved = cur
        if s.nested: raise Bad("an object that refers to itself is written without end")
        k = s.objkey(kind, args)
        if kind != "Val" and k == 0:
            if kind in ("Array", "Pair", "Buffer", "BufferView"): raise Bad("ctxAdd%s is called without an object" % kind)
            return -1
        if s.again: s.again()
        key = (kind, k)
        if key not in s.out:
            off = s.REPS[(len(s.out) + s.rot) % len(s.REPS)]
            s.out[key] = off; s.back[(kind, off)] = k
        # the image has grown
        new = cur + 1000
        s.wset("start", s.grow(new + s.slack), 8); s.wset("size", new + s.slack); s.wset("curOff", new)
        return s.out[key]

    again = None; rot = 0

    def oread(s, kind, args):
        if s.nested: raise Bad("an object that refers to itself is read without end")
        if s.again: s.again()
        off = s.norm(args[2])
        if not isinstance(off, int): raise Bad("the reader looks for a %s at an offset that is not what was written" % kind)
        none = off < 0 or off == NONE
        if kind in ("NFunc", "Type"):
            if none: raise Bad("a %s without a name is read" % kind)
            sy = s.back.get(("Symbol", off))
            if sy is None: raise Bad("read%s: nothing was written at that offset" % kind)
            return s.named.get((kind, sy), S(("nothing", s.fresh())))
        if none:
            s.nulls.add((kind, off))
            return Agg(((0, 0), (1, 0))) if kind == "Val" else 0
        k = s.back.get((kind, off))
        if k is None: raise Bad("the reader looks for a %s where none was written" % kind)
        if kind == "Val": return Agg(((0, k[1]), (1, k[2])))
        return k if not isinstance(k, int) else k

    # --- running
    def write(s, kind, args):
        s.stop = {"ctxAdd" + k for k in PTR + ("Val",)}
        s.writing = True
        try: r = s.call("ctxAdd" + kind, [Ptr(s.W)] + args)
        finally: s.writing = False
        return s.norm(r)

    def check_record(s):
        end = s.wget("curOff")
        hi = max([e for a, e in s.own], default=s.c0)
        lim = s.reserved if s.reserved is not None else end
        if not isinstance(lim, int) or hi > lim: raise Bad("writes %d byte(s) more than it reserved" % (hi - lim))
        if end < hi: raise Bad("the next record is written over this one")

    def read(s, kind, off, static, rm=None):
        s.stop = {"read" + k for k in PTR + ("Val", "NFunc", "Type")}
        base = s.imgdata
        return s.norm(s.call("read" + kind, [rm or s.rmap(), Ptr(s.cur, -base), off, int(static)]))

    tree = {}
