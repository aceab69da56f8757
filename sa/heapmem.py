"""Capacities of the memory behind pointers, for the bounds prover: which heap structure a pointer belongs to, how many bytes lie behind it, what the fields of the
structures promise, and which loads see the same state of a structure."""
from .bounds import Bounds, K, ZERO, add, sub, scale, key
from .r_tags import base_type, PTRTAGS

INTMAX = (1 << 31) - 1
ELEM = {"lArray": 16, "lBuffer": 1, "lBytecodeArray": 1}
ALLOC = {"lArrayAlloc": "lArray", "lBufferAlloc": "lBuffer", "lBytecodeArrayAlloc": "lBytecodeArray", "lBufferViewAlloc": "lBufferView"}
FMTMAX = {"d": 11, "i": 11, "u": 10, "ld": 20, "li": 20, "lld": 20, "lu": 20, "llu": 20, "lx": 16, "x": 8, "c": 1, "f": 317, "%": 1}


class Heap(Bounds):
    FUNCS = ("lBufferViewTypeSize",)

    def __init__(s, P, name, typesize):
        Bounds.__init__(s, P, name, Heap.facts)
        s.typesize = typesize          # {view type: element size}
        s._ot = {}; s._loads = None; s._busy = set()
        s.assume = []                  # parameter facts in use

    # ------------------------------------------------------------- structures
    def otype(s, root, use):
        """name of the heap structure behind the pointer root, or None"""
        k = (root, use.blk)
        if k in s._ot: return s._ot[k]
        s._ot[k] = None
        s._ot[k] = r = s._otype(root, use)
        return r

    def _otype(s, root, use):
        f = s.f; m = s.P.m
        tags = s.fa.pair_tags(root, use)
        if tags is not None:
            names = {s.P.inv[t] for t in tags}
            c = [st for st, ts in PTRTAGS.items() if names and names <= set(ts)]
            return ("lBuffer" if c[0] == "lString" else c[0]) if c else None
        if root[0] == "arg":
            k = 0
            for dt in f.dtypes[1:]:
                b = base_type(dt)
                if dt in ("lVal", "const lVal") and k + 1 < len(f.argtys) and f.argtys[k] == "i16":
                    if root[1] == k + 1: break
                    k += 2
                else:
                    if root[1] == k: return "lBuffer" if b == "lString" else b
                    k += 1
        if root[0] == "ins":
            i = f.ins[root[1]]
            if i.op == "call" and i.cname() in m.fns:
                g = m.fns[i.cname()]
                if g.dtypes:
                    b = base_type(g.dtypes[0])
                    if b: return "lBuffer" if b == "lString" else b
            if i.op == "load":
                a = s.fa.access(i)
                st = a.st or s.otype(a.root, i)
                if st == "lBufferView" and (a.off if a.st is None else a.so) == 0: return "lBuffer"
                if st == "lBytecodeArray" and (a.so if a.st else a.off) == 8: return "lArray"
            if i.op in ("phi", "select"):
                ts = {s.otype(s.fa.addr(v).root, i) for v in ([v for v, _ in i.inc] if i.op == "phi" else i.ops[1:])}
                if len(ts) == 1: return ts.pop()
        for u in f.instrs():
            if u.op == "getelementptr" and u.base is not None and u.idx and u.idx[0][0] == "int" and u.idx[0][1] == 0:
                a = s.fa.addr(u.base)
                if a.root == root and not a.var:
                    n = (u.sty or "").replace("%struct.", "")
                    if n in PTRTAGS: return "lBuffer" if n == "lString" else n
        return None

    def field(s, i):
        """(structure, object root, offset in the structure) a load or store accesses, or None"""
        p = i.ops[1] if i.op == "store" else i.ops[0]
        a = s.fa.access(i)
        if a.var: return None
        if a.st in ELEM or a.st == "lBufferView": return a.st, a.root, a.so, a
        if a.root[0] in ("ins", "arg"):
            t = s.otype(a.root, i)
            if t: return t, a.root, a.off, a
        return None

    def loads(s):
        """{(object, offset): [load instructions]} of the tracked structures"""
        if s._loads is None:
            s._loads = {}
            for i in s.f.instrs():
                if i.op in ("load", "store"):
                    f = s.field(i)
                    if f and (f[0] in ELEM or f[0] == "lBufferView"): s._loads.setdefault((f[1], f[2]), []).append(i)
        return s._loads

    def coherent(s, a, b):
        """loads (or stores) a and b of one object see the same state of both fields"""
        if s.f.ins_dominates(b, a): a, b = b, a
        elif not s.f.ins_dominates(a, b):
            # one comes before the other on some paths only: the value it had there, or would have had
            ra, rb = s.f.reaches(a.blk), s.f.reaches(b.blk)
            if a.blk in rb and b.blk not in ra: a, b = b, a
            elif not (b.blk in ra and a.blk not in rb): return False
        for x in (a, b):
            ad = s.fa.addr(x.ops[1] if x.op == "store" else x.ops[0])
            if not s.fa.unclobbered(a, b, ad, s.fa.klass(x)): return False
        return True

    def isstring(s, i):
        """the data field loaded by i belongs to a string"""
        f = s.field(i)
        if not f or f[0] != "lBuffer" or f[2] != 0: return False
        tags = s.fa.pair_tags(f[1], i)
        return bool(tags) and {s.P.inv[t] for t in tags} == {"ltString"}

    def lengths(s, p):
        """values of the length field that go with the data pointer p of an array or buffer"""
        i = s.f.define(p)
        if i is None or i.op != "load": return []
        f = s.field(i)
        if not f or f[0] not in ("lArray", "lBuffer") or f[2] != 0: return []
        return [j for j in s.loads().get((f[1], 8), ()) if j.op == "load" and s.coherent(i, j)]

    def special(s, i):
        if i.ty != "ptr":
            # an index into a string
            out = []
            for u in s.f.instrs():
                if u.op == "getelementptr" and u.off is not None and len(u.var) == 1 and u.var[0][1] == 1 and u.blk in s.header(i):
                    b = s.base(u.base); t = s.val(u.var[0][0], {})
                    if t[1] == {("ins", i.id): 1}: out += [sub((0, {s.canon(("ins", j.id)): 1}), add(t, K(u.off))) for j in s.lengths(b) if s.f.dominates(j.blk, i.blk)]
            return out
        b = s.base(("ins", i.id))
        return [(0, {s.canon(("ins", j.id)): 1, b: 1, ("ins", i.id): -1}) for j in s.lengths(b) if s.f.dominates(j.blk, i.blk)]

    def rel(s, c, H):
        out = Bounds.rel(s, c, H)
        if c[0] == "ne" and c[2][0] == "int" and c[2][1] == 0:
            # a character that is not the NUL behind a string
            i = s.f.define(c[1])
            while i is not None and i.op in ("sext", "zext"): i = s.f.define(s.fa.canon(i.ops[0]))
            if i is not None and i.op == "load" and i.ty == "i8":
                b = s.base(i.ops[0]); d = s.f.define(b)
                if d is not None and s.isstring(d):
                    off = sub(s.val(i.ops[0], H), (0, {b: 1}))
                    for j in s.lengths(b):
                        room = sub((0, {s.canon(("ins", j.id)): 1}), off)
                        if s.holds(room, H): out = out + [add(room, K(-1))]
        return out

    # ------------------------------------------------------------- facts
    def facts(s, a, H):
        out = []
        if a in s._busy: return out
        if a[0] == "cap":
            s._busy.add(a)
            try: return s.capfacts(a, H)
            finally: s._busy.discard(a)
        if a[0] != "ins": return out
        i = s.f.ins[a[1]]
        if i.op == "load":
            f = s.field(i)
            if f:
                st, obj, off, _ = f
                if st in ("lArray", "lBuffer") and off == 8 and i.ty == "i32": out.append((0, {a: 1}))
                if st == "lBufferView" and off == 16: out += [(0, {a: 1}), (INTMAX, {a: -1})]
                if st == "lBufferView" and off == 8: out += [(0, {a: 1}), (0, {a: -1})]
                if st in ELEM and off == 0 and i.ty == "ptr": out += s.capfacts(("cap", a), H)
        if i.op in ("sext", "zext", "trunc", "mul", "add", "sub", "shl"):
            s._busy.add(a)
            try:
                t = s.val(a, H)
                if a not in t[1]: out += [sub((0, {a: 1}), t), sub(t, (0, {a: 1}))]
                elif i.op == "mul":
                    for k in (0, 1):
                        x = s.val(i.ops[k], H)
                        if s.holds(x, H) and s.holds(scale(x, -1), H): out += [(0, {a: 1}), (0, {a: -1})]; break
                        cs = s.constset(i.ops[k])
                        if not cs or cs[0] < 0: continue
                        x = s.val(i.ops[1 - k], H)
                        if s.holds(x, H) and s.fits(scale(x, cs[1]), s.width(a), H):
                            out += [sub((0, {a: 1}), scale(x, cs[0])), sub(scale(x, cs[1]), (0, {a: 1}))]; break
                elif i.op == "trunc":
                    x = s.val(i.ops[0], H)
                    if s.holds(x, H) and s.width(a) > 1: out.append(add(x, (0, {a: -1})))
            finally: s._busy.discard(a)
        if i.op == "phi" and s.listwalk(i): out += [(0, {a: 1}), (INTMAX, {a: -1})]
        if i.op == "call":
            c = i.cname()
            if i.ty in ("i32", "i64") and s.returns(c): out.append((0, {a: 1}))
            if c in ("fread", "fwrite") and s.canon(i.ops[1])[:2] == ("int", 1):
                out += [(0, {a: 1}), add(s.val(i.ops[2], H), (0, {a: -1}))]
            if c == "strnlen": out += [(0, {a: 1}), sub(s.val(i.ops[1], H), (0, {a: 1}))]
            if c == "snprintf":
                n = s.fmt(i)
                if n is not None: out += [(n[1], {a: -1}), (-n[0], {a: 1})]
            if c == "lBufferViewTypeSize":
                t = s.view_type(i.ops[0], H)
                if t is not None: n = s.typesize[t]; out += [(-n, {a: 1}), (n, {a: -1})]
                else: out += [(-1, {a: 1}), (max(s.typesize.values()), {a: -1})]
        return out

    def fixed(s, o, H):
        n = Bounds.fixed(s, o, H)
        if n is not None: return n
        i = s.f.define(s.canon(o))
        while i is not None and i.op in ("sext", "zext"): i = s.f.define(s.canon(i.ops[0]))
        if i is not None and i.op == "call" and i.cname() == "lBufferViewTypeSize": return s.typesize.get(s.view_type(i.ops[0], H))
        return None

    def listwalk(s, i):
        """i counts the pairs of a list (of which there are fewer than 2^31)"""
        body = s.header(i)
        if not body or s.width(("ins", i.id)) < 32 or s.isptr(("ins", i.id)): return False
        if any(v[0] != "int" or not 0 <= v[1] < 65536 for v, b in i.inc if b not in body) or s.step(i, body) != 1: return False
        for j in s.f.blocks[i.blk]:
            if j.op != "phi": break
            if j is i: continue
            for v, b in j.inc:
                d = s.f.define(v) if b in body else None
                if d is not None and d.op == "load" and d.blk in body:
                    a = s.fa.access(d)
                    if a.st == "lPair" or s.otype(a.root, d) == "lPair":
                        # the walk goes on from the pair it has reached
                        r = a.root; t = s.f.define(r)
                        while t is not None and t.op in ("inttoptr", "ptrtoint", "bitcast"): r = t.ops[0]; t = s.f.define(r)
                        if t is j: return True
        return False

    def returns(s, name):
        """a function of the program never returns a negative number"""
        memo = s.P.__dict__.setdefault("_nonneg", {})
        if name not in memo:
            memo[name] = False
            g = s.P.m.defs.get(name)
            if g is not None and g.blocks:
                h = Heap(s.P, name, s.typesize)
                rs = [i for i in g.instrs() if i.op == "ret"]
                memo[name] = bool(rs) and all(i.ops and h.prove_in(h.val(i.ops[0], h.hyps(i.blk)), h.hyps(i.blk), i.blk) for i in rs)
        return memo[name]

    def product(s, vo, T, me):
        """the buffer of a view holds length * element size bytes: products of that kind"""
        out = []
        Ls = {s.canon(("ins", L.id)) for L in s.loads().get((vo, 16), ()) if L.op == "load"}
        def strip(o):
            o = s.canon(o)
            while o[0] == "ins" and s.f.ins[o[1]].op in ("sext", "zext"): o = s.canon(s.f.ins[o[1]].ops[0])
            return o
        for i in s.f.instrs():
            if i.op != "mul": continue
            for k in (0, 1):
                c = strip(i.ops[k])
                if c[0] != "ins" or s.f.ins[c[1]].op != "call" or s.f.ins[c[1]].cname() != "lBufferViewTypeSize": continue
                if strip(s.f.ins[c[1]].ops[0]) == strip(("ins", T.id)) and strip(i.ops[1 - k]) in Ls:
                    q = (0, {s.canon(("ins", i.id)): 1}); out += [sub(me, q), q]
        return out

    def constset(s, o):
        """(least, greatest) of a value drawn from a set of constants"""
        i = s.f.define(s.canon(o))
        while i is not None and i.op in ("sext", "zext"): i = s.f.define(s.canon(i.ops[0]))
        if i is not None and i.op == "call" and i.cname() == "lBufferViewTypeSize": return min(s.typesize.values()), max(s.typesize.values())
        if i is None or i.op != "phi": return None
        c = [v[1] for v, b in i.inc if v[0] != "undef" and v[0] == "int"]
        return (min(c), max(c)) if c and len(c) == len([1 for v, b in i.inc if v[0] != "undef"]) else None

    def fmt(s, i):
        """most characters snprintf can produce"""
        import re
        t = s.P.m.cstr(i.ops[2])
        if t is None: return None
        n = lo = 0
        for x in re.finditer(r"%(-?\d*)(?:\.\d+)?([a-z]+|%)|[^%]", t):
            lo += 8 if x.group(2) == "f" else 1
            if x.group(2) is None: n += 1
            elif x.group(1) == "" and x.group(2) in FMTMAX: n += FMTMAX[x.group(2)]
            else: return None
        return lo, n

    def capof(s, v, H):
        """linear forms the capacity of a pointer is known to be at least"""
        v = s.canon(v)
        c = ("cap", v)
        return [sub((0, {c: 1}), f) for f in s.capfacts(c, H) if f[1].get(c) == 1]

    def nonnull(s, o, H):
        """an allocation succeeded: the size was not negative"""
        i = s.f.define(s.canon(o))
        if i is not None and i.op == "call" and i.cname() in ("malloc", "realloc"): return [s.val(i.ops[-1], H)]
        return []

    def view_type(s, o, H):
        vs = [s.val(o, H)]
        if not vs[0][1]: return vs[0][0] if vs[0][0] in s.typesize else None
        c = s.canon(o)
        for w in s.wider().get(c, ()): vs.append(s.val(("ins", w), H))
        for t in sorted(s.typesize):
            for v in vs:
                if s.holds(add(v, K(-t)), H) and s.holds(sub(K(t), v), H): return t
        return None

    def wider(s):
        """{value: extensions of it}"""
        if not hasattr(s, "_wider"):
            s._wider = {}
            for i in s.f.instrs():
                if i.op in ("zext", "sext", "trunc"): s._wider.setdefault(s.canon(i.ops[0]), []).append(i.id)
        return s._wider

    def mkcap(s, p, H):
        """capacity of the memory a pointer value points to the start of"""
        p = s.canon(p)
        return (0, {("cap", p): 1})

    def capfacts(s, a, H):
        p = a[1]; me = (0, {a: 1}); out = []
        def exactly(t): return [sub(me, t), sub(t, me)]
        def atleast(t): return [sub(me, t)]
        if p[0] in ("arg", "ins"):
            for u in s.strcalls():
                if s.canon(u.ops[0]) == p:
                    out += atleast((int(u.cname() == "strlen"), {s.canon(("ins", u.id)): 1})); break
        if p[0] == "glob":
            g = s.P.m.globals.get(p[1])
            if g and g.get("size"): out += exactly(K(g["size"]))
            return out
        if p[0] != "ins": return out
        i = s.f.ins[p[1]]
        if i.op == "alloca":
            n = s.allocsize(i)
            if n: out += exactly(K(n))
        if i.op == "call":
            c = i.cname()
            if c == "malloc": out += s.size(i.ops[0], 1, H, exactly)
            if c == "realloc": out += s.size(i.ops[1], 1, H, exactly)
            if c == "calloc":
                x, y = s.canon(i.ops[0]), s.canon(i.ops[1])
                if x[0] == "int": x, y = y, x
                if y[0] == "int" and y[1] > 0: out += s.size(x, y[1], H, exactly)
            if c == "strdup": pass
        if i.op == "load":
            f = s.field(i)
            if f and f[0] in ELEM and f[2] == 0:
                st, obj, _, ad = f; n = ELEM[st]
                for j in s.loads().get((obj, 8), ()):
                    if st != "lBytecodeArray" and s.coherent(i, j):
                        if j.op == "load": out += atleast(add(scale((0, {s.canon(("ins", j.id)): 1}), n), K(s.isstring(i))))
                        else: out += atleast(scale(s.val(j.ops[0], H), n))
                if st == "lBytecodeArray":
                    out.append((INTMAX, {a: -1}))
                    for j in s.loads().get((obj, 16), ()):
                        if j.op == "load" and s.coherent(i, j):
                            e = (0, {s.canon(("ins", j.id)): 1, p: -1})
                            out += exactly(e)
                # the object was just created
                d = s.f.define(obj)
                if d is not None and d.op == "call" and d.cname() in ALLOC and s.f.ins_dominates(d, i) and s.fa.unclobbered(d, i, ad, s.fa.klass(i)):
                    if not (st == "lBuffer" and s.canon(d.ops[1])[:2] != ("int", 0)):
                        x = s.val(d.ops[0], H)
                        if s.holds(x, H): out += atleast(scale(x, n))
                # the buffer of a view
                d = s.f.define(obj)
                if st == "lBuffer" and d is not None and d.op == "load":
                    g = s.field(d)
                    if g and g[0] == "lBufferView" and g[2] == 0:
                        vo = g[1]
                        for T in s.loads().get((vo, 24), ()):
                            if T.op != "load": continue
                            t = s.view_type(("ins", T.id), H)
                            if t is None: out += s.product(vo, T, me); continue
                            for L in s.loads().get((vo, 16), ()):
                                if L.op == "load": out += atleast(scale((0, {s.canon(("ins", L.id)): 1}), s.typesize[t]))
        return out

    def strcalls(s):
        if not hasattr(s, "_strcalls"): s._strcalls = [u for u in s.f.instrs() if u.op == "call" and u.cname() in ("strnlen", "strlen")]
        return s._strcalls

    def size(s, o, n, H, f):
        t = s.val(o, H)
        return f(scale(t, n)) if s.prove_in(t, H, None, 2) else []

    def allocsize(s, i):
        return i.asz or None

    # ------------------------------------------------------------- accesses
    def base(s, o, seen=()):
        """pointer value an address is computed from"""
        o = s.canon(o)
        if o[0] == "glob": return ("glob", o[1])
        if o[0] != "ins" or o in seen: return o
        i = s.f.ins[o[1]]
        if i.op == "getelementptr": return s.base(i.base, seen)
        if i.op in ("bitcast", "freeze"): return s.base(i.ops[0], seen)
        if i.op in ("inttoptr", "ptrtoint"):
            return s.base(i.ops[0], seen) if s.width(i.ops[0]) == 64 else o
        if i.op == "phi" and s.header(i):
            body = s.header(i)
            ini = {s.base(v, seen + (o,)) for v, b in i.inc if b not in body}
            nxt = {s.base(v, seen + (o,)) for v, b in i.inc if b in body}
            if len(ini) == 1 and nxt <= {o} | ini and o in nxt: return ini.pop()
        return o

    def inbounds(s, p, n, blk, H=None):
        """the n bytes (linear form or number) at p lie within the object p points into; returns None or what fails"""
        H = s.hyps(blk) if H is None else H
        n = K(n) if isinstance(n, int) else n
        b = s.base(p)
        v = s.val(p, H)
        off = sub(v, (0, {b: 1}))
        if not s.prove_in(off, H, blk): return "starts before the beginning of"
        end = add(off, n)
        if not s.prove_in(sub((0, {("cap", b): 1}), end), H, blk): return "reaches beyond the end of"
        return None
