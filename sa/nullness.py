"""Which pointers may be missing (null) where: fields of heap objects, results, parameters and globals as a least
fixpoint over the whole program; local facts from the branches on the way, value numbers from the fact base."""
import re
from .build import AnalysisBroken

OPTIONAL = {"strchr", "strrchr", "strstr", "memchr", "strpbrk", "getenv", "setlocale", "strtok"}
NEEDS = {"strlen": (0,), "strnlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1), "memchr": (0,),
         "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "memcmp": (0, 1), "fputs": (0, 1), "puts": (0,), "fwrite": (0, 3), "fread": (0, 3), "fclose": (0,),
         "fflush": (), "fopen": (0, 1), "popen": (0, 1), "opendir": (0,), "unlink": (0,), "atoi": (0,), "strtod": (0,), "strtol": (0,), "strdup": (0,)}
RAW = re.compile(r"^(\w+?)AllocRaw$")


class Null:
    def __init__(s, P, ptrtags):
        s.P = P; s.m = P.m
        s.PT = frozenset(ptrtags)
        s.fields = {}          # (struct, off) -> reason
        s.globals = {}
        s.rets = {}; s.params = {}
        s.cond = {}            # function -> parameters without which it returns nothing
        s.LAMBDA = frozenset([P.T["ltLambda"], P.T["ltMacro"]])
        s.TEXT = {("lClosure", x["o"]) for x in s.m.struct("lClosure")["fields"] if x["n"] in ("text", "ip")}
        s.SIDES = {("lTree", x["o"]) for x in s.m.struct("lTree")["fields"] if x["n"] in ("left", "right")}
        s.height = [x["o"] for x in s.m.struct("lTree")["fields"] if x["n"] == "height"][0]; s._bal = {}
        K = P.m.enum("closureType")
        s.KINDS = set(K.values()); s.CODED = {K["closureCall"], K["closureDefault"]}
        s.ctype = [x["o"] for x in s.m.struct("lClosure")["fields"] if x["n"] == "type"][0]
        if len(s.TEXT) != 2: raise AnalysisBroken("lClosure: the code of a scope has moved")
        s.ptrfields = {(n, x["o"]) for n, d in list(s.m.structs.items()) for x in d["fields"] if x["u"].strip().endswith("*") or "(" in x["u"]}
        s.conds = {}; s.doms = {}; s.tests = {}
        s.ftype = {}; s.nev = {}; s.brs = {}; s.lives = {}
        s.raws()
        s.fulls()
        s.solve()

    # ------------------------------------------------------------ local facts
    def atoms(s, fa, b):
        k = (fa.f.name, b)
        if k not in s.conds: s.conds[k] = fa.block_conds(b)
        return s.conds[k]

    def told(s, fa, o, atoms, depth=0):
        """the conditions say that o is there"""
        for c in atoms:
            if c[0] == "in" or c[0] == "notin" or c[0].startswith("f"): continue
            x, y = fa.canon(fa.strip(c[1])), fa.canon(fa.strip(c[2]))
            if y == o: x, y = y, x
            if x != o: continue
            if y == ("int", 0, 64) or (y[0] == "int" and y[1] == 0):
                if c[0] in ("ne", "ugt"): return True
            elif c[0] == "eq" and depth < 3 and (y[0] in ("glob", "fn") or (y[0] == "ins" and s.told(fa, y, atoms, depth + 1))): return True
        return False

    def sized(s, fa, o, atoms):
        """a buffer that is only missing while its size, which changes with it, is zero: the conditions say that it is not"""
        if o[0] != "ins" or fa.f.ins[o[1]].op != "phi": return False
        p = fa.f.ins[o[1]]
        zero = {b for v, b in p.inc if v[0] == "int" and v[1] == 0}
        if not zero: return False
        for q in fa.f.blocks[p.blk]:
            if q.op != "phi" or q.ty == "ptr" or not q.ty.startswith("i"): continue
            qv = dict((b, v) for v, b in q.inc)
            if any(qv[b][:2] != ("int", 0) for b in zero): continue
            ok = True
            for v, b in p.inc:
                if b in zero: continue
                ok = ok and s.together(fa, v, qv[b], o, ("ins", q.id), b)
            if not ok: continue
            for c in atoms:
                if c[0][:3] not in ("ult", "ugt") or len(c) != 3: continue
                big = c[2] if c[0] == "ult" else c[1]
                if s.thin(fa, big) == ("ins", q.id): return True
        return False

    def thin(s, fa, o):
        while o[0] == "ins" and fa.f.ins[o[1]].op in ("zext", "sext", "freeze"): o = fa.f.ins[o[1]].ops[0]
        return o

    def together(s, fa, v, w, p, q, b, depth=0):
        """(v, w) is the pair (p, q) or v is there"""
        if v == p and w == q: return True
        if v[0] == "ins" and w[0] == "ins" and fa.f.ins[v[1]].op == "phi" and fa.f.ins[w[1]].op == "phi" and fa.f.ins[v[1]].blk == fa.f.ins[w[1]].blk and depth < 4:
            ws = dict((bb, x) for x, bb in fa.f.ins[w[1]].inc)
            return all(s.together(fa, x, ws[bb], p, q, bb, depth + 1) for x, bb in fa.f.ins[v[1]].inc)
        if v[0] == "ins" and fa.f.ins[v[1]].op == "phi": return False
        return v != p and not s.nul(fa, v, b)

    def never(s, fa, b, pb, seen):
        """the edge pb -> b needs an object that is always there to be missing"""
        k = (fa.f.name, pb, b, len(s.fields), len(s.rets), len(s.params), len(s.globals), len(s.cond))
        if k in s.nev: return s.nev[k]
        s.nev[k] = False
        for c in fa.edge(pb, b):
            if c[0] == "eq" and c[2][0] == "int" and c[2][1] == 0:
                x = c[1]
                if x[0] == "ins" and fa.f.ins[x[1]].ty == "ptr" and fa.f.ins[x[1]].op != "phi" or x[0] == "arg" and fa.f.argtys[x[1]] == "ptr":
                    if s.nul(fa, x, pb) is None: s.nev[k] = True
            if c[0] == "ne" and c[2][0] == "int" and c[2][1] == 0:
                x = s.flag(fa, c[1])
                if x is not None and s.zero(fa, x.root, x.off): s.nev[k] = True
        return s.nev[k]

    def canon(s, fa, o): return fa.canon(fa.strip(o))

    def nul(s, fa, o, b, extra=(), seen=()):
        """None, or why the pointer o may be missing when block b executes (under the extra conditions)"""
        o = s.canon(fa, o)
        if o[0] == "int": return "no object" if o[1] == 0 else None
        if o[0] in ("zero",): return "no object"
        if o[0] not in ("ins", "arg"): return None
        if s.sized(fa, o, list(s.atoms(fa, b)) + list(extra)): return None
        if s.told(fa, o, s.atoms(fa, b)) or (extra and s.told(fa, o, extra)): return None
        if o[0] == "arg":
            if fa.f.argtys[o[1]] != "ptr": return None
            return s.params.get((fa.f.name, o[1]))
        i = fa.f.ins[o[1]]
        if o in seen: return None
        if i.op == "phi":
            for v, pb in i.inc:
                if s.never(fa, i.blk, pb, seen): continue
                w = s.nul(fa, v, pb, fa.edge(pb, i.blk), seen + (o,))
                if w: return w
            return None
        if i.op == "select":
            c, t, e = i.ops
            return s.nul(fa, t, b, list(extra) + fa.cond(c, True), seen + (o,)) or s.nul(fa, e, b, list(extra) + fa.cond(c, False), seen + (o,))
        if i.op == "getelementptr": return s.nul(fa, i.base, b, extra, seen + (o,)) if i.off is not None and i.off < 4096 and not i.var else None
        if i.op == "load":
            k = fa.klass(i)
            if k[0] == "fld" and i.ty in ("ptr", "i64"):
                if (k[1], k[2]) in s.SIDES and s.balances(fa.f.name): return None
                w = s.fields.get((k[1], k[2]))
                return None if w is None or s.known(fa, i, (k[1], k[2]), w) else w
            if k[0] == "glob" and i.ty == "ptr": return s.globals.get(k[1])
            return None
        if i.op == "call":
            n = i.cname()
            if n is None: return None
            if n in s.m.defs:
                if n in s.rets and not s.builtin(fa, i): return s.rets[n]
                for x in sorted(s.cond.get(n, ()), key=repr):
                    if isinstance(x, tuple):
                        if not s.zero(fa, i.ops[x[0]], x[1]): return "%s, which depends on a flag of its argument" % n
                        continue
                    w = s.nul(fa, i.ops[x], i.blk, (), seen + (o,))
                    if w: return "%s without an argument: %s" % (n, w)
                return None
            if n in OPTIONAL: return "%s finds nothing" % n
        return None

    def known(s, fa, i, k, why):
        """a field that is only missing until it is set: set for this object?"""
        if not why.endswith("leaves it unset"): return False
        r = fa.access(i).root
        if k in s.TEXT:
            if s.payload(fa, r):
                if fa.pair_tags(r, i) <= s.LAMBDA: return True
            elif s.running(fa, r): return True
        if r[0] == "ins":
            d = fa.f.ins[r[1]]
            if d.op == "call" and k in s.full.get(d.cname(), ()): return True
        for j in fa.f.instrs():
            if j.op == "store" and fa.klass(j)[:3] == ("fld",) + k and fa.addr(j.ops[1]).root == r and fa.f.ins_dominates(j, i): return True
        return False

    def payload(s, fa, r):
        """object of a value"""
        if r[0] == "arg": return fa.f.argtys[r[1]] == "i64"
        if r[0] != "ins": return r[0] in ("aggphi", "ev")
        d = fa.f.ins[r[1]]
        if d.op == "extractvalue": return d.ix == 1
        return d.op == "load" and fa.klass(d)[0] == "lVal"

    def running(s, fa, r, seen=()):
        """scope taken from the stack of scopes: its code was noted when it was left (C25)"""
        if r in seen: return True
        if r[0] != "ins": return False
        d = fa.f.ins[r[1]]
        if d.op == "phi": return all(s.running(fa, s.canon(fa, v), seen + (r,)) or s.canon(fa, v)[0] == "arg" or s.filled(fa, s.canon(fa, v)) for v, _ in d.inc)
        if d.op != "load": return False
        b = fa.access(d).root
        if b[0] != "ins": return False
        e = fa.f.ins[b[1]]
        return e.op == "load" and fa.klass(e)[:2] == ("fld", "lThread")

    def filled(s, fa, r):
        return r[0] == "ins" and fa.f.ins[r[1]].op == "call" and s.TEXT <= s.full.get(fa.f.ins[r[1]].cname(), frozenset())

    def builtin(s, fa, i):
        """applied to what was read from the image that is part of the program"""
        for o in i.ops:
            if o[0] == "ins" and fa.f.ins[o[1]].op == "extractvalue": o = fa.f.ins[o[1]].ops[0]
            if o[0] == "ins" and fa.f.ins[o[1]].op == "call" and any(x[0] == "glob" for x in fa.f.ins[o[1]].ops): return True
        return False

    def balances(s, n):
        """the function goes by the heights of trees: that a side is there follows from them (C17)"""
        if n not in s._bal:
            fa = s.P.f(n)
            s._bal[n] = any(i.op in ("load", "store") and fa.klass(i)[:3] == ("fld", "lTree", s.height) for i in fa.f.instrs()) or \
                any(c.cname() in s.m.defs and c.cname() != n and any(i.op == "load" and s.P.f(c.cname()).klass(i)[:3] == ("fld", "lTree", s.height) for i in s.m.fns[c.cname()].instrs()) for c in fa.f.calls())
        return s._bal[n]

    def reader(s, f): return any("lImage" in (d or "") for d in f.dtypes[1:])

    def pair(s, fa, t, p, b, extra=(), seen=()):
        """None, or why a value (t, p) may carry a pointer tag and no object"""
        p = s.canon(fa, p) if p[0] == "ins" else p
        if p[0] in ("aggphi", "ev"): return None         # another value handed on
        if p[0] in ("undef", "fp", "poison"): return None
        if p[0] == "arg" and fa.f.argtys[p[1]] != "ptr": return None
        tt = fa.tagkey(t) if t is not None else None
        if tt is not None and tt[0] == "int" and tt[1] not in s.PT: return None
        if p[0] == "ins":
            i = fa.f.ins[p[1]]
            if p in seen: return None
            if i.op == "phi" and tt is None:
                for v, pb in i.inc:
                    if s.never(fa, i.blk, pb, seen): continue
                    w = s.pair(fa, None, v, pb, fa.edge(pb, i.blk), seen + (p,))
                    if w: return w
                return None
            if i.op in ("phi", "select") and tt is not None and tt[0] == "ins":
                j = fa.f.ins[tt[1]]
                if i.op == "phi" and j.op == "phi" and j.blk == i.blk:
                    tv = dict((bb, v) for v, bb in j.inc)
                    for v, pb in i.inc:
                        if s.never(fa, i.blk, pb, seen): continue
                        w = s.pair(fa, tv[pb], v, pb, fa.edge(pb, i.blk), seen + (p,))
                        if w: return w
                    return None
                if i.op == "select" and j.op == "select" and s.canon(fa, j.ops[0]) == s.canon(fa, i.ops[0]):
                    for k, tr in ((1, True), (2, False)):
                        w = s.pair(fa, j.ops[k], i.ops[k], b, list(extra) + fa.cond(i.ops[0], tr), seen + (p,))
                        if w: return w
                    return None
        if tt is not None and tt[0] == "ins" and tt not in seen:
            j = fa.f.ins[tt[1]]
            if j.op == "select":
                for k, tr in ((1, True), (2, False)):
                    w = s.pair(fa, j.ops[k], p, b, list(extra) + fa.cond(j.ops[0], tr), seen + (tt,))
                    if w: return w
                return None
            if j.op == "phi" and not (p[0] == "ins" and fa.f.ins[p[1]].blk == j.blk):
                for v, pb in j.inc:
                    w = s.pair(fa, v, p, pb, fa.edge(pb, j.blk), seen + (tt,))
                    if w: return w
                return None
        if p[0] == "ins":
            if i.ty not in ("ptr",) and i.op not in ("phi", "select", "load", "call"): return None
            if i.op == "load" and fa.klass(i)[0] == "lVal": return None
        w = s.nul(fa, p, b, extra)
        if not w: return None
        if tt is None: return None if p[0] == "int" else w
        ts = fa.tags(t, b)
        return w if ts & s.PT else None

    # --------------------------------------------------------------- heap
    def raws(s):
        """fresh zeroed objects: {function: (struct, fields not yet set)}"""
        s.raw = {}
        for n in s.m.defs:
            m = RAW.match(n)
            if m and m.group(1) in s.m.structs: s.raw[n] = (m.group(1), frozenset(o for t, o in s.ptrfields if t == m.group(1)), n)
        if "lNFuncAlloc" in s.m.defs: s.raw["lNFuncAlloc"] = ("lNFunc", frozenset(o for t, o in s.ptrfields if t == "lNFunc"), "lNFuncAlloc")
        w = list(s.raw); base = set(w)
        s.bare_scopes = []
        s.unset = {}; s.full = {}; s.inner = {}
        while w:
            a = w.pop(); T, fl, src = s.raw[a]
            for c in s.P.callers(a):
                fa = s.P.f(c.fn.name)
                left = s.left_at(a, c, fa, T, fl, base)
                if not left: continue
                back = [t for bb in fa.f.rpo for t in fa.f.blocks[bb][-1:] if t.op == "ret" and t.ops and s.may_be(fa, t.ops[0], ("ins", c.id))]
                if back and fa.f.ret == "ptr" and not fa.f.taken:
                    s.inner.setdefault(fa.f.name, set()).add((c, T, fl))
                    old = s.raw.get(fa.f.name, (T, frozenset(), src))
                    if not left <= old[1]:
                        s.raw[fa.f.name] = (T, old[1] | left, src); w.append(fa.f.name)
                else:
                    for o in left: s.unset.setdefault((T, o), "%s leaves it unset" % fa.f.sname)
                    if T == "lClosure" and any((T, o) in s.TEXT for o in left): s.bare_scopes.append((c, fa))

    def left_at(s, a, c, fa, T, fl, base):
        """fields that may be unset after this call, for either value of a flag that is handed on"""
        env = {x: o[1] for x, o in enumerate(c.ops) if o[0] == "int"}
        var = {}
        for x, o in enumerate(c.ops):
            while o[0] == "ins" and fa.f.ins[o[1]].op in ("zext", "sext", "trunc", "freeze"): o = fa.f.ins[o[1]].ops[0]
            if o[0] == "arg" and fa.f.argtys[o[1]] in ("i1", "i8"): var[x] = o[1]
        out = frozenset()
        for v in (0, 1) if var else (0,):
            e2 = dict(env); e2.update({x: v for x in var})
            f2 = fl if a in base else s.left_of(a, e2)
            out |= frozenset(o for o in f2 if not s.always_set(fa, c, T, o, {y: v for y in var.values()}))
        return out

    def left_of(s, g, env):
        """fields the fresh object returned by this call of g may still lack, given its constant arguments"""
        fg = s.P.f(g); out = frozenset()
        for d, T, fl in s.inner.get(g, ()): out |= frozenset(o for o in fl if not s.always_set(fg, d, T, o, env))
        return out

    def there(s, fa, a, b, r, off):
        """the edge a -> b is only taken when the field is set already"""
        for c in fa.edge(a, b):
            if c[0] == "ne" and c[2][0] == "int" and c[2][1] == 0:
                x = s.canon(fa, c[1])
                if x[0] == "ins" and fa.f.ins[x[1]].op == "load":
                    d = fa.access(fa.f.ins[x[1]])
                    if d.root == r and d.off == off and not d.var: return True
        return False

    def cval(s, fa, o, env, depth=0):
        """constant value of o with these constant arguments, or None"""
        if o[0] == "int": return o[1]
        if o[0] == "arg": return env.get(o[1])
        if o[0] != "ins" or depth > 12: return None
        i = fa.f.ins[o[1]]; c = lambda k: s.cval(fa, i.ops[k], env, depth + 1)
        if i.op in ("zext", "trunc", "freeze", "sext") or (i.op == "call" and "expect" in (i.cname() or "")):
            v = c(0)
            if v is None: return None
            return abs(v) & 1 if i.op == "trunc" and i.ty == "i1" or i.op == "zext" and i.ops[0][0] == "ins" and fa.f.ins[i.ops[0][1]].ty == "i1" else v
        if i.op == "select":
            v = c(0)
            if v is not None: return c(1) if v else c(2)
            a, b = c(1), c(2)
            return a if a == b else None
        if i.op == "phi":
            vs = {s.cval(fa, v, env, depth + 1) for v, pb in i.inc if pb in s.live(fa, env) and not s.dead(fa, pb, i.blk, env)}
            return vs.pop() if len(vs) == 1 else None
        if i.op in ("and", "or", "xor", "icmp") and len(i.ops) == 2:
            a, b = c(0), c(1)
            if i.op == "and" and 0 in (a, b): return 0
            if a is None or b is None: return None
            if i.op == "and": return a & b
            if i.op == "or": return a | b
            if i.op == "xor": return (a ^ b) & 1 if i.ty == "i1" else a ^ b
            if i.pred == "eq": return int(a == b)
            if i.pred == "ne": return int(a != b)
        return None

    def dead(s, fa, a, b, env):
        """the edge a -> b is not taken with these constant arguments"""
        if not env: return False
        t = fa.f.blocks[a][-1]
        if t.op == "br" and len(t.ops) == 3 and t.ops[1] != t.ops[2]:
            k = (fa.f.name, a, tuple(sorted(env.items())))
            if k not in s.brs: s.brs[k] = None; s.brs[k] = s.cval(fa, t.ops[0], env)
            v = s.brs[k]
            if v is not None: return b != (t.ops[2][1] if v else t.ops[1][1])
        return False

    def live(s, fa, env):
        k = (fa.f.name, tuple(sorted(env.items())))
        if k in s.lives: return s.lives[k]
        s.lives[k] = set(range(len(fa.f.blocks)))
        out = {0}; w = [0]
        while w:
            b = w.pop()
            for x in fa.f.succ[b]:
                if x not in out and not s.dead(fa, b, x, env): out.add(x); w.append(x)
        s.lives[k] = out
        return out

    def nothing(s, fa, o, env, seen=()):
        """the value may be the constant null with these constant arguments"""
        o = s.canon(fa, o)
        if o[0] == "int": return o[1] == 0
        if o[0] != "ins" or o in seen: return False
        i = fa.f.ins[o[1]]
        if i.op == "phi": return any(s.nothing(fa, v, env, seen + (o,)) for v, pb in i.inc if pb in s.live(fa, env) and not s.dead(fa, pb, i.blk, env) and not s.told(fa, s.canon(fa, v), s.atoms(fa, pb) + fa.edge(pb, i.blk)))
        if i.op == "select":
            v = s.cval(fa, i.ops[0], env)
            return any(s.nothing(fa, i.ops[k], env, seen + (o,)) for k in ((1, 2) if v is None else (1,) if v else (2,)))
        return False

    def may_be(s, fa, o, r, seen=()):
        o = s.canon(fa, o)
        if o == r: return True
        if o[0] != "ins" or o in seen: return False
        i = fa.f.ins[o[1]]
        if i.op == "phi": return any(s.may_be(fa, v, r, seen + (o,)) for v, _ in i.inc)
        if i.op == "select": return any(s.may_be(fa, v, r, seen + (o,)) for v in i.ops[1:])
        return False

    def always_set(s, fa, c, T, off, env=None):
        """the field is stored on every way from the allocation to the end of the function"""
        r = s.canon(fa, ("ins", c.id)); f = fa.f
        sets = {}
        for i in f.instrs():
            if i.op == "store":
                a = fa.addr(i.ops[1])
                if a.off != off or a.var or fa.klass(i)[:2] != ("fld", T): continue
                if s.nothing(fa, i.ops[0], env or {}): continue
                if a.root == r or a.root[0] == "ins" and f.ins[a.root[1]].op == "phi" and any(s.canon(fa, v) == r for v, _ in f.ins[a.root[1]].inc): sets.setdefault(i.blk, i)
        if c.blk in sets and any(i.pos > c.pos for i in f.blocks[c.blk] if i.op == "store" and fa.addr(i.ops[1]).root == r and fa.addr(i.ops[1]).off == off and not s.nothing(fa, i.ops[0], env or {})): return True
        w = [c.blk]; seen = {c.blk}
        while w:
            b = w.pop()
            if f.blocks[b][-1].op == "ret": return False
            for x in f.succ[b]:
                if x not in seen and x not in sets and not s.dead(fa, b, x, env) and not s.there(fa, b, x, r, off): seen.add(x); w.append(x)
        return True

    def fulls(s):
        """functions returning a fresh object: fields they set on the way"""
        work = [n for n in s.raw if n not in s.inner]; seen = set(work)
        while work:
            a = work.pop(); T = s.raw[a][0] if a in s.raw else s.ftype[a]
            for c in s.P.callers(a):
                fa = s.P.f(c.fn.name); n = fa.f.name
                rets = [t for bb in fa.f.rpo for t in fa.f.blocks[bb][-1:] if t.op == "ret" and t.ops]
                if fa.f.ret != "ptr" or not rets or not all(s.canon(fa, t.ops[0]) == s.canon(fa, ("ins", c.id)) for t in rets): continue
                got = frozenset((T, o) for t, o in s.ptrfields if t == T and s.always_set(fa, c, T, o)) | s.full.get(a, frozenset())
                s.full[n] = got; s.ftype[n] = T
                if n not in seen: seen.add(n); work.append(n)

    def freelist(s, fa, o):
        """value of a list of free objects"""
        o = s.canon(fa, o)
        return o[0] == "ins" and fa.f.ins[o[1]].op == "load" and fa.klass(fa.f.ins[o[1]])[0] == "glob" and fa.klass(fa.f.ins[o[1]])[1].endswith("FFree")

    def solve(s):
        P = s.P; m = s.m
        static = {"lClass"}                      # a table of zero-initialised records
        for k in s.ptrfields:
            if k[0] in static: s.fields[k] = "types without it"
            elif k in s.unset: s.fields[k] = s.unset[k]
        stores = []; calls = []; rets = []; gl = {}
        for n in m.defs:
            fa = P.f(n)
            for i in fa.f.instrs():
                if i.op == "store" and i.ops[0][0] in ("ins", "arg", "int", "zero"):
                    k = fa.klass(i)
                    if k[0] == "fld" and (k[1], k[2]) in s.ptrfields and not fa.local_root(fa.addr(i.ops[1]).root):
                        if not (s.fresh(fa, fa.addr(i.ops[1]).root) and s.nothing(fa, i.ops[0], {})) and not s.freelist(fa, i.ops[0]) and not s.image(fa, i.ops[0]): stores.append((fa, i, ("f", k[1], k[2])))
                    elif k[0] == "glob" and m.globals.get(k[1]) is not None:
                        stores.append((fa, i, ("g", k[1])))
                elif i.op == "call" and i.cname() in m.defs:
                    cf = m.fns[i.cname()]
                    for x, o in enumerate(i.ops):
                        if x < len(cf.argtys) and cf.argtys[x] == "ptr": calls.append((fa, i, (cf.name, x), o))
                elif i.op == "ret" and i.ops and fa.f.ret == "ptr": rets.append((fa, i))
        ch = True
        while ch:
            ch = False
            for fa, i, k in stores:
                d, kk = (s.fields, k[1:]) if k[0] == "f" else (s.globals, k[1])
                if kk in d: continue
                if i.ops[0][0] in ("ins", "arg") and not s.isptr(fa, i.ops[0]): continue
                w = s.nul(fa, i.ops[0], i.blk)
                if w: d[kk] = "%s: %s" % (fa.f.sname, w) if len(w) < 200 else w; ch = True
            for fa, i, k, o in calls:
                if k in s.params: continue
                w = s.nul(fa, o, i.blk)
                if w: s.params[k] = "%s passes it: %s" % (fa.f.sname, w) if len(w) < 200 else w; ch = True
            for fa, i in rets:
                n = fa.f.name
                if n in s.rets or s.reader(fa.f): continue
                cond = set()
                w = s.leaf(fa, i.ops[0], i.blk, (), (), cond)
                if cond - s.cond.get(n, set()): s.cond.setdefault(n, set()).update(cond); ch = True
                if w: s.rets[n] = "%s: %s" % (fa.f.sname, w) if len(w) < 200 else w; ch = True

    def leaf(s, fa, o, b, extra, seen, cond):
        """why a result may be missing for a reason other than a missing argument; the others go to cond"""
        o = s.canon(fa, o)
        if o in seen: return None
        if o[0] == "ins" and fa.f.ins[o[1]].op == "phi" and not s.told(fa, o, s.atoms(fa, b)):
            i = fa.f.ins[o[1]]
            for v, pb in i.inc:
                if s.never(fa, i.blk, pb, seen): continue
                w = s.leaf(fa, v, pb, fa.edge(pb, i.blk), seen + (o,), cond)
                if w: return w
            return None
        if o[0] == "arg" and fa.f.argtys[o[1]] == "ptr":
            if not s.told(fa, o, s.atoms(fa, b) + list(extra)): cond.add(o[1])
            return None
        w = s.nul(fa, o, b, extra)
        if not w: return None
        for c in s.atoms(fa, b) + list(extra):
            if c[0] == "eq" and c[2][0] == "int" and c[2][1] == 0:
                x = s.canon(fa, c[1])
                if x[0] == "arg" and fa.f.argtys[x[1]] == "ptr": cond.add(x[1]); return None
        for c in s.atoms(fa, b) + list(extra):
            if c[0] == "ne" and c[2][0] == "int" and c[2][1] == 0:
                a = s.flag(fa, c[1])
                if a is not None and a.root[0] == "arg" and fa.f.argtys[a.root[1]] == "ptr": cond.add((a.root[1], a.off)); return None
        return w

    def flag(s, fa, x):
        """address of the field some bits of which x is"""
        while x[0] == "ins" and fa.f.ins[x[1]].op in ("zext", "sext", "trunc", "freeze", "and"): x = fa.f.ins[x[1]].ops[0]
        if x[0] == "ins" and fa.f.ins[x[1]].op == "load":
            a = fa.access(fa.f.ins[x[1]])
            if not a.var: return a
        return None

    def zero(s, fa, o, off):
        """the object is fresh, and the field still as it was made: zero"""
        o = s.canon(fa, o)
        if o[0] != "ins" or fa.f.ins[o[1]].op != "call": return False
        c = fa.f.ins[o[1]]
        if any(j.op == "store" and fa.addr(j.ops[1]).root == o and fa.addr(j.ops[1]).off == off for j in fa.f.instrs()): return False
        g = c.cname()
        if RAW.match(g or ""): return True
        if g not in s.full and g not in s.inner: return False
        fg = s.P.f(g); env = {x: v[1] for x, v in enumerate(c.ops) if v[0] == "int"}
        live = s.live(fg, env)
        rets = [t.ops[0] for b in live for t in fg.f.blocks[b][-1:] if t.op == "ret" and t.ops]
        return bool(rets) and all(s.fresh(fg, r) and not s.stored(fg, r, off, live, env) for r in rets)

    def fresh(s, fa, r):
        r = s.canon(fa, r)
        return r[0] == "ins" and fa.f.ins[r[1]].op == "call" and bool(RAW.match(fa.f.ins[r[1]].cname() or ""))

    def stored(s, fa, r, off, live, env):
        r = s.canon(fa, r)
        return any(j.op == "store" and j.blk in live and fa.addr(j.ops[1]).root == r and fa.addr(j.ops[1]).off == off and s.cval(fa, j.ops[0], env) != 0 for j in fa.f.instrs())

    def image(s, fa, o):
        """reference read from an image: there if it was when the image was written (C16)"""
        o = s.canon(fa, o)
        return o[0] == "ins" and fa.f.ins[o[1]].op == "call" and fa.f.ins[o[1]].cname() in s.m.defs and s.reader(s.m.fns[fa.f.ins[o[1]].cname()])

    def isptr(s, fa, o):
        o = s.canon(fa, o)
        if o[0] == "arg": return True
        return fa.f.ins[o[1]].ty == "ptr" or fa.f.ins[o[1]].ty == "i64"

    # ----------------------------------------------------------------- values
    def codeless(s, fa, t, p, b, extra=(), seen=()):
        """None, or how a lambda is made of a scope that may have no code"""
        p = s.canon(fa, p)
        tt = fa.tagkey(t) if t is not None else None
        if tt is None or tt in seen: return None
        if tt[0] == "int" and tt[1] not in s.LAMBDA: return None
        if tt[0] == "ins":
            j = fa.f.ins[tt[1]]
            if j.op == "select":
                for k, tr in ((1, True), (2, False)):
                    w = s.codeless(fa, j.ops[k], p, b, list(extra) + fa.cond(j.ops[0], tr), seen + (tt,))
                    if w: return w
                return None
            if j.op == "phi":
                q = fa.f.ins[p[1]] if p[0] == "ins" else None
                pv = dict((bb, v) for v, bb in q.inc) if q is not None and q.op == "phi" and q.blk == j.blk else {}
                for v, pb in j.inc:
                    if s.never(fa, j.blk, pb, seen): continue
                    w = s.codeless(fa, v, pv.get(pb, p), pb, fa.edge(pb, j.blk), seen + (tt,))
                    if w: return w
                return None
            if not fa.tags(t, b) & s.LAMBDA: return None
        if p[0] == "arg" and fa.f.argtys[p[1]] != "ptr" or p[0] not in ("ins", "arg"): return None
        if s.payload(fa, p): return None
        if p[0] == "ins":
            d = fa.f.ins[p[1]]
            if d.ty not in ("ptr",): return None
            if d.op == "call":
                if s.TEXT <= s.full.get(d.cname(), frozenset()): return None
                if d.cname() in s.m.defs and s.reader(s.m.fns[d.cname()]): return None
                if all(s.always_set(fa, d, "lClosure", o) for _, o in s.TEXT): return None
        text = min(o for _, o in s.TEXT); left = set(s.KINDS)
        for c in list(s.atoms(fa, b)) + list(extra):
            if c[0] not in ("ne", "eq", "in", "notin"): continue
            x = c[1]
            while x[0] == "ins" and fa.f.ins[x[1]].op in ("zext", "sext", "trunc", "freeze"): x = fa.f.ins[x[1]].ops[0]
            x = s.canon(fa, x)
            if x[0] != "ins" or fa.f.ins[x[1]].op != "load": continue
            a = fa.access(fa.f.ins[x[1]])
            if a.root != p or a.var: continue
            if a.off == text and c[0] == "ne" and c[2][:2] == ("int", 0): return None
            if a.off == s.ctype:
                k = {"in": lambda v: v in c[2], "notin": lambda v: v not in c[2], "eq": lambda v: c[2][1] == v, "ne": lambda v: c[2][1] != v}[c[0]]
                left = {v for v in left if k(v)} if c[0] in ("in", "notin") or c[2][0] == "int" else left
                if left <= s.CODED: return None
        return "a scope that may have no code"

    def scopes(s):
        """(function, allocation, problem) of each scope made without code: its kind must be one that has none"""
        kinds = {}
        for (c, fa) in s.bare_scopes:
            g = c.cname(); k = None
            if s.reader(fa.f): continue              # as it was when the image was written
            if g in s.inner:
                fg = s.P.f(g)
                for j in fg.f.instrs():
                    if j.op == "store" and s.fresh(fg, fg.addr(j.ops[1]).root) and fg.addr(j.ops[1]).off == s.ctype:
                        x = j.ops[0]
                        while x[0] == "ins" and fg.f.ins[x[1]].op in ("zext", "sext", "trunc", "freeze"): x = fg.f.ins[x[1]].ops[0]
                        k = c.ops[x[1]] if x[0] == "arg" else x
            else:
                r = s.canon(fa, ("ins", c.id))
                for j in fa.f.instrs():
                    if j.op == "store" and fa.addr(j.ops[1]).root == r and fa.addr(j.ops[1]).off == s.ctype: k = j.ops[0]
            yield fa, c, k is None or k[0] != "int" or k[1] in s.CODED

    def values(s, fa):
        """(instruction, tag, payload, where it goes) of each value that is returned, passed or stored"""
        f = fa.f
        for i in f.instrs():
            if i.op == "ret" and i.ops and f.ret == "{ i16, i64 }":
                yield i, fa.agg_part(i.ops[0], 0), fa.agg_part(i.ops[0], 1), "result"
            elif i.op == "call" and i.cname() in s.m.defs:
                for a, b, _ in s.P.lval_params(s.m.fns[i.cname()]):
                    if b is not None and b < len(i.ops): yield i, i.ops[a], i.ops[b], "argument of " + i.cname()
            elif i.op == "store":
                k = fa.klass(i); ad = fa.addr(i.ops[1]); t = None
                for j in f.blocks[i.blk]:
                    if j.op == "store" and s.width(fa, j.ops[0]) == "i16":
                        b = fa.addr(j.ops[1])
                        if b.root == ad.root and b.var == ad.var and b.off == ad.off - 8: t = j.ops[0]
                if s.width(fa, i.ops[0]) not in ("i64", "ptr"): continue
                if t is None and (k[0] != "lVal" or k[1] != 8): continue
                yield i, t, i.ops[0], "stored value"

    def width(s, fa, o):
        if o[0] == "ins": return fa.f.ins[o[1]].ty
        if o[0] == "arg": return fa.f.argtys[o[1]]
        if o[0] == "int": return "i%d" % o[2]
        return "ptr"

    def bare(s):
        """functions that may return an exception without a description"""
        out = {}; s.bareif = {}
        ch = True
        while ch:
            ch = False
            for n, f in s.m.defs.items():
                if n in out or f.ret != "{ i16, i64 }": continue
                fa = s.P.f(n)
                for bb in f.rpo:
                    t = f.blocks[bb][-1]
                    if t.op != "ret" or not t.ops: continue
                    w = s.bare1(fa, t.ops[0], bb, out, ())
                    if w: out[n] = w; ch = True; break
        return out

    def bare1(s, fa, o, b, out, seen):
        EX = s.P.T["ltException"]
        if o in seen: return None
        return s.bareparts(fa, fa.agg_part(o, 0), fa.agg_part(o, 1), b, out, seen + (o,)) if o[0] != "ins" or fa.f.ins[o[1]].op != "phi" else \
            next((w for w in (s.bare1(fa, v, pb, out, seen + (o,)) for v, pb in fa.f.ins[o[1]].inc if not s.never(fa, b, pb, seen)) if w), None)

    def bareparts(s, fa, t, p, b, out, seen, extra=()):
        EX = s.P.T["ltException"]
        tt = fa.tagkey(t)
        if tt[0] == "int":
            if tt[1] != EX: return None
            q = s.canon(fa, p)
            if q[0] != "int" or q[1] != 0: return None
            for c in list(s.atoms(fa, b)) + list(extra):
                if c[0] == "eq" and c[2][:2] == ("int", 0):
                    x = s.canon(fa, c[1])
                    if x[0] == "arg" and fa.f.argtys[x[1]] == "ptr": s.bareif.setdefault(fa.f.name, set()).add(x[1])
                    if x[0] == "arg" and fa.f.argtys[x[1]] == "ptr": return None
            return "made here"
        key = (tt, p)
        if key in seen or tt[0] not in ("ins", "ev"): return None
        if tt[0] == "ev": c = fa.f.ins[tt[1]]
        else:
            j = fa.f.ins[tt[1]]
            if j.op == "phi":
                pi = fa.f.ins[p[1]] if p[0] == "ins" else None
                while pi is not None and pi.op in ("ptrtoint", "inttoptr", "bitcast"):
                    p = pi.ops[0]; pi = fa.f.ins[p[1]] if p[0] == "ins" else None
                pv = dict((bb, v) for v, bb in pi.inc) if pi is not None and pi.op == "phi" and pi.blk == j.blk else {}
                for v, pb in j.inc:
                    if s.never(fa, j.blk, pb, seen): continue
                    w = s.bareparts(fa, v, pv.get(pb, p), pb, out, seen + (key,), fa.edge(pb, j.blk))
                    if w: return w
                return None
            if j.op == "select":
                pi = fa.f.ins[p[1]] if p[0] == "ins" else None
                for k in (1, 2):
                    w = s.bareparts(fa, j.ops[k], pi.ops[k] if pi is not None and pi.op == "select" else p, b, out, seen + (key,), extra)
                    if w: return w
                return None
            if j.op == "extractvalue":
                o = j.ops[0]
                if o[0] == "ins" and fa.f.ins[o[1]].op == "phi": return s.bare1(fa, o, fa.f.ins[o[1]].blk, out, seen + (key,)) if EX in fa.tags(t, b) else None
                c = fa.f.ins[o[1]] if o[0] == "ins" else None
            else: return None
        if c is None or c.op != "call": return None
        if c.cname() not in out and not any(s.nul(fa, c.ops[x], c.blk) for x in s.bareif.get(c.cname(), ())): return None
        ts = fa.tags(t, b)
        for a in extra:
            x = fa._atom_set(a, tt)
            if x is not None: ts = ts & x
        return "from %s" % c.cname() if EX in ts else None

    # --------------------------------------------------------------- accesses
    def accesses(s, fa):
        """(instruction, pointer operand, description) for each access through a pointer"""
        for i in fa.f.instrs():
            if i.op in ("load", "store"):
                a = fa.access(i)
                yield i, a.root, "%s %s" % ("written" if i.op == "store" else "read", a.st or "memory")
            elif i.op == "call":
                n = i.cname()
                if n is None: continue
                if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    for o in i.ops[:2] if "memset" not in n else i.ops[:1]:
                        yield i, fa.addr(o).root, "memory copied"
                else:
                    for k in NEEDS.get(n, ()):
                        if k < len(i.ops): yield i, i.ops[k], "passed to %s" % n
