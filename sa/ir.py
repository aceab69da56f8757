"""The resolved program: functions, blocks, instructions, CFG, dominators."""
from .build import dump, AnalysisBroken, REPO
import os

def op(o):
    k = o["k"]
    if k == "int": return ("int", o["v"], o["w"])
    if k == "fp": return ("fp", o["v"])
    if k == "ins": return ("ins", o["v"])
    if k == "arg": return ("arg", o["v"])
    if k == "glob": return ("glob", o["v"], o["o"])
    if k == "fn": return ("fn", o["v"])
    if k == "null": return ("int", 0, 64)
    if k == "undef": return ("undef",)
    if k == "blk": return ("blk", o["f"], o["v"])
    if k == "bb": return ("bb", o["v"])
    if k == "agg": return ("agg", tuple(op(x) for x in o["v"]))
    if k == "str": return ("str", o["v"])
    if k == "zero": return ("zero",)
    return (k, o.get("v"))


def _nj(x):
    if not x: return None
    a, b = x.rsplit("@", 1)
    return a, int(b)


class Ins:
    __slots__ = ("op", "id", "ty", "ops", "blk", "pos", "loc", "pred", "callee", "inc", "cases", "default",
                 "sty", "base", "off", "var", "tb", "ix", "asz", "aty", "nsw", "idx", "fn", "nj", "njs")

    def __init__(s, d):
        s.op = d["op"]; s.id = d["id"]; s.ty = d.get("ty")
        s.ops = [op(x) for x in d.get("ops", [])]
        s.loc = d.get("loc")
        s.pred = d.get("pred")
        s.callee = op(d["callee"]) if "callee" in d else None
        s.inc = [(op(v), b) for v, b in d["inc"]] if "inc" in d else None
        s.cases = d.get("cases"); s.default = d.get("def")
        s.sty = d.get("sty")
        s.base = op(d["base"]) if "base" in d else None
        s.off = d.get("off"); s.var = [(op(v), c) for v, c in d.get("var", [])]
        s.idx = [op(v) for v in d.get("idx", [])]
        s.tb = d.get("tb"); s.ix = d.get("ix"); s.asz = d.get("asz"); s.aty = d.get("aty"); s.nsw = d.get("nsw")
        s.nj = _nj(d.get("nj")); s.njs = _nj(d.get("njs"))

    def cname(s):
        """direct callee name or None"""
        return s.callee[1] if s.callee and s.callee[0] == "fn" else None

    def where(s):
        if not s.loc: return "?"
        f, l, fn, _c = s.loc[0]
        return "%s:%d" % (rel(f), l)

    def where_full(s):
        if not s.loc: return "?"
        return " <- ".join("%s:%d(%s)" % (rel(f), l, fn) for f, l, fn, _c in s.loc)

    def __repr__(s):
        return "<%s %%%d %s %s>" % (s.op, s.id, s.where(), s.cname() or "")


def rel(f):
    r = REPO.rstrip("/") + "/"
    return f[len(r):] if f.startswith(r) else f


class Fn:
    def __init__(s, name, d, mod):
        s.name = name; s.mod = mod
        s.decl = d["decl"]; s.ret = d["ret"]; s.noreturn = d["noreturn"]; s.taken = d["taken"]; s.rec = d["rec"]
        s.ai = d["ai"]; s.internal = d.get("internal", False); s.vararg = d["vararg"]
        s.argtys = [a["ty"] for a in d["args"]]
        s.sname = d.get("sname", name); s.file = rel(d.get("file", "")); s.line = d.get("line", 0)
        s.dtypes = d.get("dtypes", [])
        s.blocks = []
        s.ins = {}
        s.names = {}
        if s.decl: return
        for bi, b in enumerate(d["blocks"]):
            L = []
            for x in b:
                if x["op"] == "dbg":
                    s.names.setdefault(op(x["ops"][0]), x["name"])
                    continue
                i = Ins(x); i.blk = bi; i.pos = len(L); i.fn = s
                L.append(i); s.ins[i.id] = i
            s.blocks.append(L)
        s._cfg()

    def _cfg(s):
        n = len(s.blocks)
        s.succ = [[] for _ in range(n)]; s.pred = [[] for _ in range(n)]
        for bi, b in enumerate(s.blocks):
            t = b[-1] if b else None
            out = []
            if t is None: pass
            elif t.op == "br":
                # operands: [cond, false, true] or [dest]
                if len(t.ops) == 1: out = [t.ops[0][1]]
                else: out = [t.ops[2][1], t.ops[1][1]]
            elif t.op == "switch":
                out = [t.default] + [c[1] for c in t.cases]
            elif t.op == "indirectbr":
                out = [o[1] for o in t.ops[1:] if o[0] == "bb"]
            seen = []
            for o in out:
                if o not in seen: seen.append(o)
            s.succ[bi] = seen
            for o in seen: s.pred[o].append(bi)
        # reachable blocks in RPO
        order = []; state = {}
        stack = [(0, iter(s.succ[0]))]; state[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in state:
                    state[x] = 1; stack.append((x, iter(s.succ[x]))); break
            else:
                order.append(b); stack.pop()
        s.rpo = order[::-1]
        s.rpon = {b: i for i, b in enumerate(s.rpo)}
        for b in range(n):
            s.pred[b] = [p for p in s.pred[b] if p in s.rpon]
        # idom
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                new = None
                for p in s.pred[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while s.rpon[x] > s.rpon[y]: x = idom[x]
                                while s.rpon[y] > s.rpon[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        s.idom = idom
        s._domd = {}

    def dominates(s, a, b):
        """block a dominates block b"""
        while True:
            if a == b: return True
            if b == 0 or b not in s.idom: return False
            if s.rpon[b] < s.rpon[a]: return False
            b = s.idom[b]

    def ins_dominates(s, a, b):
        if a.blk == b.blk: return a.pos < b.pos
        return s.dominates(a.blk, b.blk)

    def instrs(s):
        for b in s.rpo:
            for i in s.blocks[b]:
                yield i

    def calls(s, name=None):
        for i in s.instrs():
            if i.op in ("call", "invoke") and (name is None or i.cname() == name):
                yield i

    def define(s, o):
        return s.ins.get(o[1]) if o[0] == "ins" else None

    def reaches(s, a):
        """blocks reachable from the successors of block a"""
        seen = set(); st = list(s.succ[a])
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st.extend(s.succ[x])
        return seen

    def loops(s):
        """natural loops: {header: set(blocks)}"""
        if hasattr(s, "_loops"): return s._loops
        L = {}
        for b in s.rpo:
            for t in s.succ[b]:
                if s.dominates(t, b):
                    body = L.setdefault(t, {t})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(s.pred[x])
        s._loops = L
        return L

    def var(s, o):
        return s.names.get(o)


class Module:
    def __init__(s, d):
        s.structs = d["structs"]; s.typedefs = d["typedefs"]; s.enums = d["enums"]
        s.globals = d["globals"]
        for g in s.globals.values():
            g["init"] = op(g["init"]) if g["init"] else None
        s.fns = {n: Fn(n, f, s) for n, f in d["functions"].items()}
        s.defs = {n: f for n, f in s.fns.items() if not f.decl}

    def enum(s, name):
        if name not in s.enums: raise AnalysisBroken("enum %s not found" % name)
        return s.enums[name]

    def struct(s, name):
        if name in s.structs: return s.structs[name]
        if name in s.typedefs and s.typedefs[name]["fields"]: return s.typedefs[name]
        raise AnalysisBroken("struct %s not found" % name)

    def cstr(s, o):
        """C string constant behind an operand"""
        if o[0] == "glob":
            g = s.globals.get(o[1])
            if g and g["init"] and g["init"][0] == "str":
                return g["init"][1][o[2]:].split("\0")[0]
            if g and g["init"] and g["init"][0] == "zero": return ""
        return None


_cache = {}
def load(keep=("*",), extra=()):
    k = (tuple(sorted(keep)), tuple(extra))
    if k not in _cache:
        _cache[k] = Module(dump(keep, extra))
    return _cache[k]
