"""Strings are followed by a zero byte: where the contents of a string object are set, the byte behind them is set to zero."""
from .build import AnalysisBroken
from .bounds import sub, add, K
from .heapmem import Heap


class Ends:
    def __init__(s, P, ts, tag):
        s.P = P; s.ts = ts; s.tag = tag; s.heaps = {}; s.out = []; s.demand = {}

    def heap(s, n):
        if n not in s.heaps: s.heaps[n] = Heap(s.P, n, s.ts)
        return s.heaps[n]

    def users(s, f):
        if not hasattr(f, "_users"):
            f._users = {}
            for i in f.instrs():
                for o in i.ops + ([v for v, _ in i.inc] if i.inc else []): f._users.setdefault(o, []).append(i)
        return f._users

    def stringlike(s, f, o, seen=None):
        """may the object o become a string: it is returned as such, or gets the tag of strings (or one not known here)"""
        seen = seen if seen is not None else set()
        if o in seen: return False
        seen.add(o)
        for u in s.users(f).get(o, ()):
            k = ("ins", u.id)
            if u.op == "ret" and o in u.ops: return True
            if u.op in ("phi", "select", "ptrtoint", "inttoptr", "bitcast") and s.stringlike(f, k, seen): return True
            if u.op == "insertvalue" and len(u.ops) > 1 and u.ops[1] == o:
                t = s.tagof(f, u.ops[0])
                if t is None or t == s.tag: return True
        return False

    def tagof(s, f, o):
        d = f.define(o)
        while d is not None and d.op == "insertvalue":
            v = d.ops[1]
            e = f.define(v)
            while e is not None and e.op in ("trunc", "zext"): v = e.ops[0]; e = f.define(v)
            if v[0] == "int": return v[1]
            d = f.define(d.ops[0])
        return None

    def eq(s, h, t, H, blk):
        if t[0] == 0 and not any(t[1].values()): return True
        return h.prove_in(t, H, blk) and h.prove_in((-t[0], {k: -v for k, v in t[1].items()}), H, blk)

    def zeros(s, f):
        """[(instruction, address)] that sets bytes to zero"""
        for i in f.instrs():
            if i.op == "store" and i.ops[0][0] == "int" and i.ops[0][1] == 0 and i.ops[0][2] == 8: yield i, i.ops[1]

    def ends(s, f, h, site, p, n, avoid=None):
        """the byte at p + n is set to zero on every way over site (strings are shorter than 2^31)"""
        e = f.define(n)
        ns = [n]
        while e is not None and e.op in ("trunc", "sext", "zext"): ns.append(e.ops[0]); e = f.define(e.ops[0])
        for z, a in s.zeros(f):
            if not (f.ins_dominates(z, site) or s.after(f, site, z)): continue
            H = h.hyps(site.blk) if f.ins_dominates(z, site) else h.hyps(z.blk)
            v = h.val(a, H); d = f.define(a); goals = [sub(v, add(h.val(p, H), h.val(n, H))) for n in ns]
            # through a reload of the field the pointer has just been stored in
            b = h.base(a); e = f.define(b)
            if avoid is not None and e is not None and e.op == "load":
                fl = h.field(e)
                if fl and fl[1] == avoid and fl[2] == 0: goals += [sub(sub(v, (0, {b: 1})), h.val(n, H)) for n in ns]
            if any(s.eq(h, g, H, z.blk) for g in goals): return True
        return s.cleared(f, h, p, ns)

    def cleared(s, f, h, p, ns):
        """p is memory that was all zero and larger than n, of which at most the first n bytes have been written"""
        d = f.define(p)
        if d is None or d.op != "call" or d.cname() != "calloc": return False
        H = h.hyps(d.blk); one = [k for k in (0, 1) if d.ops[k][0] == "int" and d.ops[k][1] == 1]
        if not one: return False
        size = h.val(d.ops[1 - one[0]], H)
        if not any(s.eq(h, sub(size, add(h.val(n, H), K(1))), H, d.blk) for n in ns): return False
        for i in f.instrs():
            if i.op == "store" and h.base(i.ops[1]) == p: return False
            if i.op == "call" and any(o[0] == "ins" and h.base(o) == p for o in i.ops) and i.cname() not in ("free",):
                c = i.cname() or ""
                if not c.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")): return False
                G = h.hyps(i.blk)
                if h.base(i.ops[0]) == p and not (i.ops[0] == p and any(s.eq(h, sub(h.val(i.ops[2], G), h.val(n, G)), G, i.blk) for n in ns)): return False
        return True

    def after(s, f, site, z):
        """z is executed on every way from site to a return"""
        if site.blk == z.blk and site.pos < z.pos: return True
        seen = set(); todo = [site.blk]
        while todo:
            b = todo.pop()
            if f.blocks[b][-1].op == "ret": return False
            for q in f.succ[b]:
                if q != z.blk and q not in seen: seen.add(q); todo.append(q)
        return True

    def run(s):
        m = s.P.m; n = 0
        for name, f in sorted(m.defs.items()):
            al = [i for i in f.instrs() if i.op == "call" and i.cname() == "lBufferAlloc"]
            if not al: continue
            h = s.heap(name)
            for i in al:
                o = ("ins", i.id)
                if not s.stringlike(f, o): continue
                st = [j for j in h.loads().get((o, 0), ()) if j.op == "store"]
                n += 1
                for j in st:
                    p = j.ops[0]; key = "%s: contents of a string" % f.sname
                    if s.ends(f, h, j, p, i.ops[0], o): s.out.append((True, key, j, name)); continue
                    b = h.base(p); d = f.define(b)
                    ln = h.canon(i.ops[0])
                    pa, la = s.param(f, p), s.param(f, i.ops[0])
                    if pa is not None and la is not None: s.demand[name] = (pa, la); s.out.append((True, key, j, name)); continue
                    if b[0] == "arg" and b != h.canon(p): s.out.append((True, key + " in an image", j, name)); s.image = True; continue
                    s.out.append((False, key, j, name))
        for name, f in sorted(m.defs.items()):
            for i in f.instrs():
                c = i.op == "call" and i.cname()
                if c in s.demand:
                    p, l = (i.ops[k] for k in s.demand[c]); h = s.heap(name)
                    if s.param(f, p) is not None and s.param(f, l) is not None and name in s.demand: continue
                    s.out.append((s.ends(f, h, i, p, l), "%s: string made by %s" % (f.sname, c), i, name)); n += 1
            if f.file.endswith("imageWriter.c"):
                for i in f.instrs():
                    if i.op == "call" and (i.cname() or "").startswith(("llvm.memcpy", "memcpy")):
                        h = s.heap(name); d = f.define(i.ops[1])
                        fl = h.field(d) if d is not None and d.op == "load" else None
                        if fl and fl[0] == "lBuffer" and fl[2] == 0:
                            n += 1; s.out.append((s.ends(f, h, i, i.ops[0], i.ops[2]), "%s: contents written to an image" % f.sname, i, name))
        s.n = n
        return s

    def param(s, f, o):
        while True:
            if o[0] == "arg": return o[1]
            d = f.define(o)
            if d is None or d.op not in ("zext", "sext", "trunc", "bitcast"): return None
            o = d.ops[0]

    def texts(s, root, pos, ln):
        """every call of the reader is given a text and at most its length"""
        for name, f in sorted(s.P.m.defs.items()):
            for i in f.instrs():
                if i.op != "call" or i.cname() != root: continue
                h = s.heap(name); p, n = i.ops[pos], i.ops[ln]; H = h.hyps(i.blk); ok = False
                for j in f.instrs():
                    if j.op == "call" and j.cname() == "strlen" and h.canon(j.ops[0]) == h.canon(p) and f.ins_dominates(j, i):
                        t = sub(h.val(("ins", j.id), H), h.val(n, H))
                        ok = ok or t[0] >= 0 and not any(t[1].values()) or h.prove_in(t, H, i.blk)
                d = f.define(p)
                if not ok and d is not None and d.op == "load":
                    fl = h.field(d)
                    if fl and fl[0] == "lBuffer" and fl[2] == 0:
                        ok = s.within(f, h, fl[1], n, i, H)
                yield ok, i, name

    def within(s, f, h, obj, n, i, H, depth=0):
        """n is at most the length of obj"""
        if n[0] == "int" and n[1] == 0: return True
        for (o, off), js in h.loads().items():
            if off != 8 or h.canon(o) != h.canon(obj): continue
            for j in js:
                if j.op == "load" and (f.ins_dominates(j, i) and h.prove_in(sub(h.val(("ins", j.id), H), h.val(n, H)), H, i.blk) or n == ("ins", j.id)): return True
        d = f.define(n)
        if d is None or depth > 8: return False
        if d.op in ("zext", "sext", "trunc"): return s.within(f, h, obj, d.ops[0], i, H, depth + 1)
        if d.op == "phi": return all(s.within(f, h, obj, v, i, H, depth + 1) for v, _ in d.inc)
        if d.op == "select": return all(s.within(f, h, obj, v, i, H, depth + 1) for v in d.ops[1:3])
        return False
