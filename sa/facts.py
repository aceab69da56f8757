"""Per-function dataflow facts over the resolved program:
   - address normal forms and load value numbering (with clobber analysis)
   - branch-edge conditions
   - tag sets: which type tags an lVal may have at a program point
   - callee return-tag and parameter-tag summaries."""
from heapq import heappush, heappop
from .build import AnalysisBroken

HEADER = {"lArray", "lBuffer", "lBufferView", "lBytecodeArray", "lPair", "lTree", "lTreeRoot", "lClosure", "lNFunc",
          "lSymbol", "lClass", "lThread", "lVal"}
NOCLOBBER_LIBC = {"strlen", "strnlen", "strcmp", "strncmp", "memcmp", "strchr", "printf", "fprintf", "puts", "putchar", "fputs", "fputc",
                  "access", "unlink", "free", "malloc", "calloc", "realloc", "fopen", "fclose", "exit", "abort", "feof", "ferror", "fflush",
                  "fseek", "ftell", "fileno", "popen", "pclose", "opendir", "readdir", "closedir", "time", "pow", "fmod", "sin", "cos", "tan",
                  "atan2", "sqrt", "cbrt", "ceil", "floor", "round", "strerror", "__errno_location", "chdir", "rmdir", "mkdir", "socket",
                  "connect", "htons", "freeaddrinfo", "fdopen", "isspace", "isdigit", "tolower", "__ctype_b_loc", "__ctype_tolower_loc",
                  "llabs", "labs", "abs", "getenv", "atexit", "tcsetattr", "close"}


PURE = {"sext", "zext", "trunc", "add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr", "icmp", "select", "sitofp", "fptosi"}


def sname(sty):
    if sty and sty.startswith("%struct."):
        n = sty[8:]
        return n.split(".")[0] if not n.startswith("anon") else "anon"
    if sty and sty.startswith("%union."): return "anon"
    return None


def fold_cast(i, k):
    w = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
    v = k[1]
    if i.op == "zext" and v < 0: v &= (1 << (k[2] if len(k) > 2 else 64)) - 1
    v &= (1 << w) - 1
    if v >> (w - 1) and w > 1: v -= 1 << w
    return ("int", v, w)


class Addr:
    """root (canonical operand), constant byte offset, variable terms, enclosing struct name and offset in it"""
    __slots__ = ("root", "off", "var", "st", "so")

    def __init__(s, root, off, var, st, so):
        s.root, s.off, s.var, s.st, s.so = root, off, var, st, so

    def key(s):
        return (s.root, s.off, s.var)

    def __repr__(s):
        return "Addr(%r+%d%s %s@%s)" % (s.root, s.off, "".join("+%r*%d" % v for v in s.var), s.st, s.so)


class Prog:
    """whole-program context: summaries shared by the function analyses"""
    def __init__(s, mod):
        s.m = mod
        s.fa = {}
        s._mod = None
        s.T = mod.enum("lType")
        s.inv = {v: k for k, v in s.T.items()}
        s.ALL = frozenset(list(s.T.values()) + [1000])
        s.VISIBLE = frozenset(v for k, v in s.T.items() if k not in ("ltComment", "ltException", "ltAny"))
        s.startup = set()       # functions whose values are taken to be ordinary values (set by C09)
        s.INDIRECT = s.ALL - {1000, s.T["ltComment"]}      # result of a native called through a pointer (checked by C09)
        s._ret = {}
        s._par = {}
        s.param_init = {}     # (fn, tag arg index) -> frozenset, overrides
        s.field_tags = {}     # (struct, off) -> frozenset: tags a stored lVal may have
        s._callers = None; s._out = None; s.stack = []

    def f(s, name):
        if name not in s.fa:
            s.fa[name] = FnA(s, s.m.fns[name])
        return s.fa[name]

    def callers(s, name):
        if s._callers is None:
            s._callers = {}
            for f in s.m.defs.values():
                for i in f.calls():
                    c = i.cname()
                    if c: s._callers.setdefault(c, []).append(i)
        return s._callers.get(name, [])

    # -- mod sets: leaf classes a call may store to -------------------------
    def modset(s, name):
        if s._mod is None:
            s._compute_mod()
        return s._mod.get(name, {"*"})

    def _compute_mod(s):
        direct = {}; calls = {}
        for n, f in s.m.defs.items():
            ms = set(); cs = set()
            fa = s.f(n)
            for i in f.instrs():
                if i.op == "store":
                    a = fa.rawaddr(i.ops[1])
                    if fa.local_root(a.root): continue
                    ms.add(fa.klass(i))
                elif i.op == "call":
                    c = i.cname()
                    if c is None: cs.add("*"); continue
                    if c.startswith("llvm.mem"):
                        a = fa.rawaddr(i.ops[0])
                        if fa.local_root(a.root): continue
                        ms |= fa.mem_intrinsic_classes(i)
                    elif c.startswith("llvm."): pass
                    elif c in s.m.defs: cs.add(c)
                    elif c in NOCLOBBER_LIBC: pass
                    else: ms.add(("bytes",))
            direct[n] = ms; calls[n] = cs
        ch = True
        while ch:
            ch = False
            for n in direct:
                for c in calls[n]:
                    add = {"*"} if c == "*" else direct.get(c, set())
                    if not add <= direct[n]:
                        direct[n] |= add; ch = True
        s._mod = direct

    # -- return-tag summaries -----------------------------------------------
    def ret_tags(s, name):
        """set of tags a call of `name` may return (lVal-returning functions)"""
        if name in s._ret: return s._ret[name]
        f = s.m.fns.get(name)
        if f is None or f.decl: return s.ALL
        s.stack.append(None)
        try:
            if not f.rec: s._ret[name] = s._ret1(name)
            else: s._fix(s._cycle(name), True)
        finally: s.stack.pop()
        return s._ret[name]

    def _ret1(s, name):
        fa = s.f(name); out = set()
        for b in fa.f.rpo:
            t = fa.f.blocks[b][-1]
            if t.op == "ret" and t.ops: out |= fa.tags(fa.agg_part(t.ops[0], 0), b)
        return frozenset(out)

    def _par1(s, q):
        out = set()
        for c in s.callers(q[0]):
            t = s.f(c.fn.name).tags(c.ops[q[1]], c.blk)
            out |= t & s.VISIBLE if c.fn.name in s.startup else t
        return frozenset(out)

    def _fix(s, grp, ret):
        """least fixpoint of the return tags (ret) or parameter tags of a set of mutually recursive functions"""
        if ret:
            own = s._ret; keys = [n for n in grp if s.m.fns[n].ret == "{ i16, i64 }"]; f = s._ret1
            for n in grp:
                if n not in keys: s._ret[n] = s.ALL
        else:
            own = s._par; f = s._par1
            keys = [(n, a) for n in grp for a, p, _ in s.lval_params(s.m.fns[n]) if p is not None and (n, a) not in s.param_init]
            for q in [q for q in keys if s.m.fns[q[0]].taken or not s.callers(q[0])]:
                s._par.setdefault(q, s.VISIBLE); keys.remove(q)
        keys = [k for k in keys if k not in own]
        cur = {k: frozenset() for k in keys}
        r0, p0 = dict(s._ret), dict(s._par)
        while True:
            s._ret.clear(); s._ret.update(r0); s._par.clear(); s._par.update(p0)
            own.update(cur)
            for fa in s.fa.values(): fa.clear_tags()
            new = {k: f(k) | cur[k] for k in keys}
            if new == cur: break
            cur = new
        own.update(cur)

    # -- parameter-tag summaries ---------------------------------------------
    def par_tags(s, name, argno):
        k = (name, argno)
        if k in s.param_init: return s.param_init[k]
        if k in s._par: return s._par[k]
        f = s.m.fns[name]
        if f.taken or not s.callers(name):
            s._par[k] = s.VISIBLE
            return s.VISIBLE
        s.stack.append(None)
        try:
            if f.rec:
                s._fix(s._cycle(name), False)
                s._par.setdefault(k, s.ALL)
            else:
                s._par[k] = s.ALL
                s._par[k] = s._par1(k)
        finally: s.stack.pop()
        return s._par[k]

    def _cycle(s, name):
        """functions on a call cycle with name"""
        if s._out is None:
            s._out = {}
            for n in s.m.defs:
                for c in s.callers(n): s._out.setdefault(c.fn.name, set()).add(n)
        def reach(a):
            seen = set(); w = [a]
            while w:
                for y in s._out.get(w.pop(), ()):
                    if y not in seen: seen.add(y); w.append(y)
            return seen
        r = reach(name)
        return sorted({name} | {n for n in r if name in reach(n)})

    def lval_params(s, f):
        """[(tag arg index, payload arg index, position in C signature)] of a function"""
        out = []; k = 0
        for pos, dt in enumerate(f.dtypes[1:]):
            if dt in ("lVal", "const lVal"):
                if k + 1 < len(f.argtys) and f.argtys[k] == "i16":
                    out.append((k, k + 1, pos)); k += 2
                else:
                    out.append((k, None, pos)); k += 1   # passed in memory (byval)
            else:
                k += 1
        return out


class FnA:
    def __init__(s, prog, f):
        s.p = prog; s.f = f
        s._tags = {}; s._cond = {}; s._groups = None; s._eq = {}
        s._esc = None
        s._raw = {}; s._evs = None
        s._btw = {}
        s._canon = None; s._num = {}; s._pend = []; s.busy = 0; s._ke = None
        if f.decl: return
        # memory-writing instructions per block
        s.writers = [[i for i in b if i.op in ("store", "call", "invoke") and not s._inert(i)] for b in f.blocks]

    @staticmethod
    def _inert(i):
        if i.op == "store": return False
        c = i.cname() or ""
        return (c.startswith("llvm.") and not c.startswith("llvm.mem")) or c in NOCLOBBER_LIBC

    def clear_tags(s):
        s._tags = {}
        for p in s._pend: p["stale"] = True

    # ---------------------------------------------------------------- values
    def strip(s, o):
        """look through width changes / no-op casts that keep identity for comparison"""
        while o[0] == "ins":
            i = s.f.ins[o[1]]
            if i.op in ("bitcast", "inttoptr", "ptrtoint", "freeze"): o = i.ops[0]
            elif i.op == "call" and i.cname() and i.cname().startswith("llvm.expect"): o = i.ops[0]
            else: break
        return o

    def canon(s, o):
        """canonical operand: value numbers, with loads replaced by an equal earlier load or stored value"""
        if o[0] != "ins": return o
        if s._canon is None: s._number()
        return s._canon.get(o, o)

    def _number(s):
        """two pessimistic value-numbering passes in reverse post order"""
        old = {}
        for _pass in range(2):
            s._canon = dict(old)
            s._num = {}           # operands numbered in this pass
            s._addrc = {}
            s._groups = {}
            vn = {}
            for b in s.f.rpo:
                for i in s.f.blocks[b]:
                    o = ("ins", i.id)
                    r = s._number1(i, o, vn)
                    s._canon[o] = r; s._num[o] = True
                    if i.op in ("load", "store"):
                        s._groups.setdefault(s.addr(i.ops[1] if i.op == "store" else i.ops[0]).key(), []).append(i)
            old = s._canon
        s._addrc = {}

    def _number1(s, i, o, vn):
        c = lambda x: s._canon.get(x, x) if x[0] == "ins" else x
        if i.op in ("bitcast", "inttoptr", "ptrtoint", "freeze"):
            r = c(i.ops[0])
            return ("int", r[1], 64) if r[0] == "int" else r
        if i.op == "load": return s._leader(i)
        if i.op == "call" and (i.cname() or "").startswith("llvm.expect"): return c(i.ops[0])
        if i.op == "extractvalue":
            a = s.agg_part(i.ops[0], i.ix)
            if a is not None and a[0] in ("ins", "arg", "int") and a != o: return c(a)
            return vn.setdefault(("extractvalue", i.ops[0], i.ix), o)
        if i.op == "getelementptr" and i.off == 0 and not i.var: return c(i.base)
        if i.op == "phi":
            vs = set(); 
            for v, _b in i.inc:
                if v == o: continue
                if v[0] == "ins" and v not in s._num: return o
                vs.add(c(v))
            if len(vs) == 1:
                r = vs.pop()
                if r[0] != "ins" or s.f.dominates(s.f.ins[r[1]].blk, i.blk): return r
            return o
        if i.op in ("trunc", "zext", "sext"):
            k = c(i.ops[0])
            if k[0] == "int": return fold_cast(i, k)
        if i.op in PURE:
            return vn.setdefault((i.op, i.ty, i.pred, tuple(c(x) for x in i.ops)), o)
        if i.op == "getelementptr" and i.off is not None:
            return vn.setdefault(("gep",) + s.addr(o).key(), o)
        return o

    def agg_part(s, o, ix):
        """component ix of an aggregate operand, as an operand or ('ev', call id, ix)"""
        while o[0] == "ins":
            i = s.f.ins[o[1]]
            if i.op == "insertvalue":
                if i.ix == ix: return i.ops[1]
                o = i.ops[0]
            elif i.op == "phi":
                return ("aggphi", i.id, ix)
            else:
                return s.evs().get((i.id, ix), ("ev", i.id, ix))
        if o[0] == "agg":
            return o[1][ix]
        if o[0] == "zero": return ("int", 0, 64)
        return ("undef",)

    def evs(s):
        """{(aggregate id, index): first extractvalue}"""
        if s._evs is None:
            s._evs = {}
            for j in s.f.instrs():
                if j.op == "extractvalue" and j.ops[0][0] == "ins": s._evs.setdefault((j.ops[0][1], j.ix), ("ins", j.id))
        return s._evs

    # ------------------------------------------------------------- addresses
    def addr(s, o):
        """canonical address of pointer operand o"""
        if s._canon is None: s._number()
        if o in s._addrc: return s._addrc[o]
        r = s.rawaddr(o)
        root = r.root
        d, var = s._linvar(r.var)
        a = Addr(s.canon(root) if root[0] == "ins" else root, r.off + d, var, r.st, r.so)
        if a.root != root:
            # the canonical root may itself be an address expression
            if a.root[0] == "ins" and s.f.ins[a.root[1]].op == "getelementptr":
                b = s.rawaddr(a.root)
                rt = s.canon(b.root) if b.root[0] == "ins" else b.root
                d, bv = s._linvar(b.var)
                a = Addr(rt, b.off + a.off + d, tuple(sorted(a.var + bv, key=repr)), a.st or b.st, a.so if a.st else b.so + a.so)
            elif a.root[0] == "glob":
                a = Addr(("glob", a.root[1]), a.root[2] + a.off, a.var, a.st, a.so)
        s._addrc[o] = a
        return a

    def _linvar(s, var):
        """normalise variable index terms: constants of (nsw) additions move into the offset"""
        off = 0; out = {}
        for v, c in var:
            k, t = s.linear(v)
            off += k * c
            for x, m in t.items():
                out[x] = out.get(x, 0) + m * c
        return off, tuple(sorted(((x, m) for x, m in out.items() if m), key=repr))

    def linear(s, o, depth=0):
        """o as constant + sum of canonical terms ('sx', value) (exact: no-wrap additions under sign extension)"""
        o = s.canon(o)
        if o[0] == "int": return o[1], {}
        if o[0] == "ins" and depth < 8:
            i = s.f.ins[o[1]]
            if i.op == "sext" and i.ops[0][0] == "ins" and s.f.ins[i.ops[0][1]].ty != "i1":
                return s.linear(i.ops[0], depth + 1)
            if i.op in ("add", "sub") and i.nsw:
                k1, t1 = s.linear(i.ops[0], depth + 1)
                k2, t2 = s.linear(i.ops[1], depth + 1)
                sg = 1 if i.op == "add" else -1
                t = dict(t1)
                for x, m in t2.items(): t[x] = t.get(x, 0) + sg * m
                return k1 + sg * k2, t
            if i.op == "mul" and i.nsw and s.canon(i.ops[1])[0] == "int":
                k, t1 = s.linear(i.ops[0], depth + 1)
                m = s.canon(i.ops[1])[1]
                return k * m, {x: c * m for x, c in t1.items()}
        return 0, {("sx", o): 1}

    def rawaddr(s, o):
        if o in s._raw: return s._raw[o]
        r = s._rawaddr(o)
        s._raw[o] = r
        return r

    def _rawaddr(s, o):
        if o[0] == "glob":
            return Addr(("glob", o[1]), o[2], (), None, o[2])
        if o[0] != "ins":
            return Addr(o, 0, (), None, 0)
        i = s.f.ins[o[1]]
        if i.op in ("bitcast", "freeze"):
            return s.rawaddr(i.ops[0])
        if i.op == "inttoptr":
            return Addr(i.ops[0], 0, (), None, 0)
        if i.op == "getelementptr":
            b = s.rawaddr(i.base)
            if i.off is None:
                return Addr(o, 0, (), None, 0)
            var = b.var + tuple(i.var)
            n = sname(i.sty)
            first = i.idx[0] if i.idx else None
            first0 = first is not None and first[0] == "int" and first[1] == 0
            if not first0 or i.var:
                # indexing an array of sty: the enclosing struct restarts
                if n and n != "anon":
                    size = s.p.m.structs.get(n, {}).get("size") or 1
                    st, so = n, i.off % size
                elif n is None: st, so = (b.st, b.so + i.off) if not i.var else (None, 0)
                else: st, so = b.st, b.so
            else:
                if b.st is None and n and n != "anon": st, so = n, i.off
                elif n and n != "anon" and n == b.st and b.so == 0: st, so = n, i.off
                else: st, so = b.st, b.so + i.off
            return Addr(b.root, b.off + i.off, var, st, so)
        return Addr(o, 0, (), None, 0)

    def local_root(s, root):
        if root[0] == "ins":
            i = s.f.ins[root[1]]
            return i.op == "alloca"
        return False

    def maybe_local(s, root, seen=None):
        """pointer that may point into this frame"""
        seen = set() if seen is None else seen
        if root in seen: return False
        seen.add(root)
        if root[0] != "ins": return False
        i = s.f.ins[root[1]]
        if i.op == "alloca": return True
        if i.op == "phi": return any(s.maybe_local(s.addr(v).root, seen) for v, _ in i.inc)
        if i.op == "select": return any(s.maybe_local(s.addr(v).root, seen) for v in i.ops[1:])
        return False

    def escaped(s, root):
        """alloca whose address is stored or passed to a call"""
        if s._esc is None:
            s._esc = set()
            for i in s.f.instrs():
                ops = []
                if i.op == "store": ops = [i.ops[0]]
                elif i.op == "call":
                    c = i.cname() or ""
                    if not c.startswith("llvm."): ops = i.ops
                elif i.op in ("phi",): ops = [v for v, _ in i.inc]
                elif i.op == "ptrtoint": ops = i.ops
                for o in ops:
                    if o[0] == "ins" and s.f.ins[o[1]].ty == "ptr":
                        r = s.rawaddr(o).root
                        if s.local_root(r): s._esc.add(r)
        return root in s._esc

    # ------------------------------------------------------- access classes
    def klass_addr(s, a, tb, ty):
        st, so = a.st, a.so
        if (st is None) and tb and tb[0] in s.p.m.structs:
            st, so = tb[0], tb[2]
        elif st is None and tb and tb[0] in s.p.m.typedefs:
            st, so = tb[0], tb[2]
        if st and st in s.p.m.structs:
            for fl in s.p.m.structs[st]["fields"]:
                if fl["u"] == "lVal" and fl["o"] <= so < fl["o"] + 16 and not (st == "lVal"):
                    return ("lVal", so - fl["o"], st, fl["o"])
            if st == "lVal": return ("lVal", so, None, 0)
            return ("fld", st, so)
        if st:
            return ("fld", st, so)
        if a.root[0] == "glob": return ("glob", a.root[1])
        return ("scalar", ty)

    def klass(s, i):
        """alias class of a load/store instruction"""
        p = i.ops[1] if i.op == "store" else i.ops[0]
        return s.klass_addr(s.hint(s.rawaddr(p), i.nj), i.tb, (i.tb or [None, "?"])[1])

    def hint(s, a, nj):
        """complete an address with the struct the source went through (zero GEPs get simplified away)"""
        if nj and a.st is None: return Addr(a.root, a.off, a.var, nj[0], nj[1])
        if nj and a.st == "lVal" and nj[0] != "lVal": return Addr(a.root, a.off, a.var, nj[0], nj[1])
        return a

    def access(s, i):
        """hinted address of a load/store"""
        return s.hint(s.addr(i.ops[1] if i.op == "store" else i.ops[0]), i.nj)

    @staticmethod
    def kalias(a, b):
        if a == "*" or b == "*": return True
        if a[0] == "bytes" or b[0] == "bytes":
            o = b if a[0] == "bytes" else a
            return o[0] in ("bytes", "scalar")
        if a[0] != b[0]:
            if "scalar" in (a[0], b[0]):
                o = a if b[0] == "scalar" else b
                return o[0] == "glob"
            return False
        if a[0] == "lVal":
            if a[1] != b[1]: return False
            return a[2] is None or b[2] is None or (a[2], a[3]) == (b[2], b[3])
        if a[0] == "fld": return a == b
        if a[0] == "glob": return a == b
        return True

    def mem_intrinsic_classes(s, i):
        """classes written by llvm.memcpy/memset/memmove"""
        a = s.hint(s.rawaddr(i.ops[0]), i.nj)
        ln = i.ops[2]
        if ln[0] == "int" and ln[1] <= 16 and (a.st == "lVal" or ln[1] == 16 or ln[1] == 6):
            if ln[1] == 6: return set()     # padding copy
            k = s.klass_addr(a, None, "?")
            if k[0] == "lVal": return {("lVal", 0, k[2], k[3]), ("lVal", 8, k[2], k[3])}
            if k[0] == "scalar": return {("lVal", 0, None, 0), ("lVal", 8, None, 0)}
        if a.root[0] == "ins" and s.f.ins[a.root[1]].op == "load":
            k = s.klass(s.f.ins[a.root[1]])
            if k[0] == "fld":   # payload behind a header field
                if k[1] == "lArray": return {("lVal", 0, None, 0), ("lVal", 8, None, 0)}
                return {("bytes",)}
        if a.root[0] == "ins" and s.f.ins[a.root[1]].op == "call" and s.f.ins[a.root[1]].cname() in ("malloc", "calloc", "realloc"):
            return {("bytes",), ("lVal", 0, None, 0), ("lVal", 8, None, 0)}
        if s.local_root(a.root): return {("bytes",)}
        if a.st in HEADER or a.root[0] == "glob" or (ln[0] == "int"):
            return {"*"}
        return {("bytes",)}

    def clobbers(s, j, a, k):
        """may instruction j overwrite the location (addr a, class k)?"""
        if j.op == "store":
            b = s.addr(j.ops[1])
            if b.root == a.root and b.var == a.var:
                return abs(b.off - a.off) < 8 and not (b.off != a.off and {b.off % 16, a.off % 16} == {0, 8})
            la, lb = s.local_root(a.root), s.local_root(b.root)
            if la and lb and a.root != b.root: return False
            if (la and not s.escaped(a.root)) or (lb and not s.escaped(b.root)): return False
            if s.fresh(b.root) and a.root[0] in ("arg", "glob"): return False
            return s.kalias(s.klass(j), k)
        if j.op == "call":
            c = j.cname()
            if c is None:
                return not (s.local_root(a.root) and not s.escaped(a.root))
            if c.startswith("llvm.mem"):
                b = s.addr(j.ops[0])
                if b.root == a.root and b.var == a.var:
                    n = j.ops[2]
                    if n[0] == "int": return b.off < a.off + 8 and a.off < b.off + n[1] and not (n[1] == 6 and a.off == b.off - 2 and k[0] == "lVal" and k[1] == 0)
                    return True
                la, lb = s.local_root(a.root), s.local_root(b.root)
                if la != lb and ((la and not s.escaped(a.root)) or (lb and not s.escaped(b.root))): return False
                if la and lb: return False
                return any(s.kalias(x, k) for x in s.mem_intrinsic_classes(j))
            if c.startswith("llvm."): return False
            if s.local_root(a.root):
                if not s.escaped(a.root): return False
                # only if the address is passed here (or leaked before by a store)
                for o in j.ops:
                    if o[0] == "ins" and s.f.ins[o[1]].ty == "ptr" and s.addr(o).root == a.root: return True
                if c in s.p.m.defs:
                    return any(s.kalias(x, k) for x in s.p.modset(c))
                return False
            if c in s.p.m.defs:
                return any(s.kalias(x, k) for x in s.p.modset(c))
            if c in NOCLOBBER_LIBC: return False
            return s.kalias(("bytes",), k)
        return False

    def fresh(s, root):
        if root[0] != "ins": return False
        i = s.f.ins[root[1]]
        return i.op == "call" and (i.cname() or "").endswith("AllocRaw")

    def between(s, a, b):
        """writing instructions that may execute after a (last time) and before b; a dominates b"""
        f = s.f; W = s.writers
        if a is not None and a.blk == b.blk and a.pos < b.pos:
            return [j for j in W[b.blk] if a.pos < j.pos < b.pos]
        out = [j for j in W[b.blk] if j.pos < b.pos]
        stop = a.blk if a is not None else None
        k = (stop, b.blk)
        if k not in s._btw:
            seen = set(); st = list(f.pred[b.blk])
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if x == stop: continue
                st.extend(f.pred[x])
            s._btw[k] = [j for x in seen if x != stop and x != b.blk for j in W[x]], b.blk in seen and b.blk != stop
        mid, again = s._btw[k]
        out += mid
        if a is not None: out += [j for j in W[a.blk] if j.pos > a.pos]
        if again: out += [j for j in W[b.blk] if j.pos >= b.pos]
        return out

    def unclobbered(s, a, b, ad, k):
        for j in s.between(a, b):
            if j is a or j is b: continue
            if s.clobbers(j, ad, k): return False
        return True

    # ------------------------------------------------------------- leaders
    def groups(s):
        if s._canon is None: s._number()
        return s._groups

    def _leader(s, L):
        me = ("ins", L.id)
        a = s.addr(L.ops[0]); k = s.klass(L)
        best = None
        for c in s._groups.get(a.key(), ()):
            if c is L or not s.f.ins_dominates(c, L): continue
            # the nearest dominating access
            if best is None or s.f.ins_dominates(best, c): best = c
        if best is not None and s.unclobbered(best, L, a, k):
            if best.op == "store":
                v = best.ops[0]
                r = s._canon.get(v, v) if v[0] == "ins" else v
                if v[0] == "fp": return me
            else:
                if best.ty != L.ty and {best.ty, L.ty} != {"ptr", "i64"}: return me
                r = s._canon[("ins", best.id)]
            return r
        return me

    # --------------------------------------------------------- edge conditions
    def cond(s, o, truth, depth=0):
        """list of (pred, x, y) atoms implied by operand o being truth"""
        if depth > 12: return []
        if o[0] != "ins": return []
        i = s.f.ins[o[1]]
        if i.op == "icmp":
            x, y, p = i.ops[0], i.ops[1], i.pred
            if not truth: p = NEG[p]
            # icmp ne (zext/sext of i1), 0
            if y[0] == "int" and y[1] == 0 and p in ("ne", "eq"):
                b = s._bool_src(x)
                if b is not None: return s.cond(b, p == "ne", depth + 1)
            return [(p, x, y)]
        if i.op == "xor" and i.ops[1][0] == "int" and i.ops[1][2] == 1:
            return s.cond(i.ops[0], not truth, depth + 1)
        if i.op in ("zext", "sext", "trunc", "freeze"):
            return s.cond(i.ops[0], truth, depth + 1)
        if i.op == "call" and (i.cname() or "").startswith("llvm.expect"):
            return s.cond(i.ops[0], truth, depth + 1)
        if i.op == "and" and truth and i.ty == "i1":
            return s.cond(i.ops[0], True, depth + 1) + s.cond(i.ops[1], True, depth + 1)
        if i.op == "or" and not truth and i.ty == "i1":
            return s.cond(i.ops[0], False, depth + 1) + s.cond(i.ops[1], False, depth + 1)
        if i.op == "select" and i.ty == "i1":
            c, t, e = i.ops
            if truth and e == ("int", 0, 1): return s.cond(c, True, depth + 1) + s.cond(t, True, depth + 1)
            if not truth and t[0] == "int" and t[1] != 0: return s.cond(c, False, depth + 1) + s.cond(e, False, depth + 1)
        if i.op == "phi" and i.ty == "i1":
            # all but one incoming value is the opposite constant
            live = [(v, b) for v, b in i.inc if not (v[0] == "int" and bool(v[1]) != truth)]
            if len(live) == 1:
                v, b = live[0]
                out = s.cond(v, truth, depth + 1) if v[0] == "ins" else []
                # conditions under which that incoming edge is taken
                out = out + s.block_conds(b, depth + 1) + s.edge(b, i.blk)
                return out
        if i.op == "call" and (i.cname() or "").startswith("llvm.is.fpclass"): return [("fpclass:%d" % (i.ops[1][1] if truth else 1023 & ~i.ops[1][1]), i.ops[0], ("undef",))]
        if i.op == "fcmp": return [("fcmp:" + (i.pred if truth else "!" + i.pred), i.ops[0], i.ops[1])]
        return []

    def _bool_src(s, o):
        """the i1 behind a chain of zext/sext/expect, or None"""
        while o[0] == "ins":
            i = s.f.ins[o[1]]
            if i.op in ("zext", "sext", "freeze"):
                src = i.ops[0]
                if src[0] == "ins" and s.f.ins[src[1]].ty == "i1": return src
                o = src
            elif i.op == "trunc" : o = i.ops[0]; 
            elif i.op == "call" and (i.cname() or "").startswith("llvm.expect"): o = i.ops[0]
            elif i.op in ("icmp", "xor", "and", "or", "select", "phi") and i.ty == "i1": return o
            else: return None
        return None

    def edge(s, a, b):
        k = (a, b)
        if k in s._cond: return s._cond[k]
        s._cond[k] = []
        t = s.f.blocks[a][-1]
        out = []
        if t.op == "br" and len(t.ops) == 3:
            tb, fb = t.ops[2][1], t.ops[1][1]
            if tb != fb:
                out = s.cond(t.ops[0], b == tb)
        elif t.op == "switch":
            vals = [c for c, d in t.cases if d == b]
            if b == t.default:
                if not vals: out = [("notin", t.ops[0], tuple(c for c, d in t.cases if d != b))]
            elif vals:
                out = [("in", t.ops[0], tuple(vals))]
        s._cond[k] = out
        return out

    def block_conds(s, b, depth=0):
        """atoms that hold whenever block b executes (dominating single-predecessor edges)"""
        out = []
        while b != 0 and b in s.f.idom:
            if len(s.f.pred[b]) == 1:
                out += s.edge(s.f.pred[b][0], b)
            b = s.f.idom[b]
        return out

    # -------------------------------------------------------------- tag sets
    def tagkey(s, o):
        """strip zext/sext/trunc around a tag value and canonicalise"""
        while o[0] == "ins":
            i = s.f.ins[o[1]]
            if i.op in ("zext", "sext", "freeze") or (i.op == "trunc" and i.ty in ("i16", "i32")): o = i.ops[0]
            elif i.op == "call" and (i.cname() or "").startswith("llvm.expect"): o = i.ops[0]
            else: break
        if o[0] == "int": return ("int", o[1], 16)
        c = s.canon(o)
        return c if c == o else s.tagkey(c)

    def edge_set(s, a, b, key):
        """tags of `key` allowed on edge a->b"""
        r = None
        for c in s.edge(a, b):
            x = s._atom_set(c, key)
            if x is not None: r = x if r is None else (r & x)
        return r

    def _atom_set(s, c, key):
        A = s.p.ALL
        p = c[0]
        if p in ("in", "notin"):
            if s.tagkey(c[1]) != key: return None
            st = frozenset(c[2])
            return (A & st) if p == "in" else (A - st)
        if p.startswith("f"): return None
        x, y = s.tagkey(c[1]), s.tagkey(c[2])
        if y == key and x[0] == "int":
            x, y = y, x; p = SWAP[p]
        if x != key: 
            return None
        if y[0] != "int":
            # equality with another tag term: constants only
            return None
        n = y[1]
        f = {"eq": lambda t: t == n, "ne": lambda t: t != n, "ult": lambda t: t < n, "ule": lambda t: t <= n, "ugt": lambda t: t > n,
             "uge": lambda t: t >= n, "slt": lambda t: t < n, "sle": lambda t: t <= n, "sgt": lambda t: t > n, "sge": lambda t: t >= n}[p]
        return frozenset(t for t in A if f(t))

    def tags(s, o, blk, depth=0):
        """possible tags of lVal-tag operand o when block blk executes"""
        if o is None: return s.p.ALL
        if o[0] == "aggphi":
            i = s.f.ins[o[1]]
            out = set()
            for v, b in i.inc:
                out |= s.tags(s.agg_part(v, o[2]), b, depth + 1)
            return frozenset(out)
        if o[0] == "ev":
            i = s.f.ins[o[1]]
            # find the extractvalue, so that refinements of it count
            for j in s.f.instrs():
                if j.op == "extractvalue" and j.ops[0] == ("ins", i.id) and j.ix == o[2]:
                    return s.tags(("ins", j.id), blk, depth)
            return s.call_tags(i)
        key = s.tagkey(o)
        if key[0] == "int": return frozenset([key[1] if key[1] in s.p.ALL else 1000])
        if key[0] == "undef": return frozenset()
        if key[0] in ("ev", "aggphi"): return s.tags(key, blk, depth)
        r = s._flow(key, depth).get(blk, frozenset())
        if depth < 3:
            for other in s.eq_tags(blk).get(key, ()):
                r = r & (frozenset([other[1]]) if other[0] == "int" else s._flow(other, depth + 1).get(blk, frozenset()))
        return r

    def eq_tags(s, blk):
        """tag terms known equal in blk: {key: [other keys]}"""
        if blk in s._eq: return s._eq[blk]
        out = {}
        for c in s.block_conds(blk):
            if c[0] == "eq":
                x, y = s.tagkey(c[1]), s.tagkey(c[2])
                if x[0] in ("ins", "arg") and y[0] in ("ins", "arg"):
                    out.setdefault(x, []).append(y); out.setdefault(y, []).append(x)
        s._eq[blk] = out
        return out

    def call_tags(s, i):
        c = i.cname()
        if c is None: return s.p.INDIRECT
        if c in s.p.m.defs: return s.p.ret_tags(c)
        return s.p.ALL

    def init_tags(s, key, depth):
        """tags at the definition of canonical key, before refinement"""
        if key[0] == "arg":
            return s.p.par_tags(s.f.name, key[1])
        if key[0] == "ins":
            i = s.f.ins[key[1]]
            if i.op == "phi":
                out = set()
                for v, b in i.inc:
                    if s.tagkey(v) == key: continue
                    t = s.tags(v, b, depth + 1)
                    es = s.edge_set(b, i.blk, s.tagkey(v)) if v[0] == "ins" or v[0] == "arg" else None
                    if es is not None: t = t & es
                    out |= t
                return frozenset(out)
            if i.op == "select":
                return s.tags(i.ops[1], i.blk, depth + 1) | s.tags(i.ops[2], i.blk, depth + 1)
            if i.op == "extractvalue":
                src = i.ops[0]
                if src[0] == "ins":
                    d = s.f.ins[src[1]]
                    if d.op == "call": return s.call_tags(d)
                    return s.tags(s.agg_part(src, i.ix), i.blk, depth + 1)
            if i.op == "load":
                k = s.klass(i)
                if k[0] == "glob" and k[1] == "NIL": return frozenset([s.p.T["ltNil"]])
                a = s.addr(i.ops[0])
                if a.root == ("glob", "NIL"): return frozenset([s.p.T["ltNil"]])
                if k[0] == "lVal" and (k[2], k[3]) in s.p.field_tags: return s.p.field_tags[(k[2], k[3])]
                if (k[0] == "lVal" or k == ("scalar", "i16") or i.ty == "i16" and k[0] == "scalar") and not s.maybe_local(a.root):
                    return s.p.VISIBLE
                return s.p.ALL
            if i.op == "and" and i.ops[1][0] == "int":
                return s.p.ALL
        return s.p.ALL

    def _flow(s, key, depth):
        """{block: tags of key}; merged values are solved together as a least fixpoint"""
        if key in s._tags: return s._tags[key]
        if s._pend:
            top = s._pend[-1]["keys"]
            if s.p.stack[-1] is s:
                if key not in top: top[key] = {}; s._pend[-1]["new"].append(key)
                return top[key]
        pend = {"keys": {key: {}}, "new": [], "stale": False}
        s._pend.append(pend); s.p.stack.append(s); s.busy += 1
        try:
            while True:
                ch = False
                for k in list(pend["keys"]):
                    r = s._flow1(k)
                    if r != pend["keys"][k]: pend["keys"][k] = r; ch = True
                if pend["new"]: pend["new"] = []; ch = True
                if not ch: break
        finally:
            s._pend.pop(); s.p.stack.pop(); s.busy -= 1
        s._tags.update(pend["keys"])
        return pend["keys"][key]

    def key_edges(s, key):
        """{(a, b): allowed tags} of the edges that restrict key"""
        if s._ke is None:
            s._ke = {}
            for a in s.f.rpo:
                for b in dict.fromkeys(s.f.succ[a]):
                    for c in s.edge(a, b):
                        for o in c[1:]:
                            if isinstance(o, tuple) and o and o[0] in ("ins", "arg", "ev", "aggphi"):
                                s._ke.setdefault(s.tagkey(o), {})[(a, b)] = None
        d = s._ke.get(key)
        if d is None: return {}
        for e, v in d.items():
            if v is None:
                r = s.edge_set(e[0], e[1], key)
                d[e] = s.p.ALL if r is None else r
        return d

    def _flow1(s, key):
        f = s.f
        init = frozenset(s.init_tags(key, 0))
        dblk = 0 if key[0] != "ins" else f.ins[key[1]].blk
        ke = s.key_edges(key)
        st = {dblk: init}
        if not ke:
            w = [dblk]
            while w:
                for t in f.succ[w.pop()]:
                    if t not in st: st[t] = init; w.append(t)
            return st
        num = f.rpon; work = [(num[dblk], dblk)]; inq = {dblk}
        while work:
            b = heappop(work)[1]; inq.discard(b)
            cur = st[b]
            for t in f.succ[b]:
                if t == dblk and key[0] == "ins": continue
                es = ke.get((b, t))
                nv = cur if es is None else (cur & es)
                old = st.get(t)
                new = nv if old is None or old <= nv else old if nv <= old else (old | nv)
                if new != old:
                    st[t] = new
                    if t not in inq: heappush(work, (num[t], t)); inq.add(t)
        return st

    def _evidence(s, tk, at, kk, use):
        """tag sets implied for memory key tk at `use` by dominating branch edges whose
        condition read that tag (also when the read itself sits under a short-circuit)"""
        f = s.f
        b = use.blk
        while b != 0 and b in f.idom:
            if len(f.pred[b]) == 1:
                p = f.pred[b][0]
                for c in s.edge(p, b):
                    for x in c[1:3]:
                        if not isinstance(x, tuple) or not x or x[0] != "ins": continue
                        t = s._tagload(x)
                        if t is None or s.addr(t.ops[0]).key() != tk: continue
                        es = s._atom_set(c, s.tagkey(x))
                        if es is None: continue
                        # unclobbered from the read to the edge and from the edge to the use
                        ws = []
                        if t.blk == p: ws += [j for j in s.writers[p] if j.pos > t.pos]
                        elif t.blk in f.pred[p]: ws += [j for j in s.writers[t.blk] if j.pos > t.pos] + s.writers[p]
                        elif f.dominates(t.blk, p): ws += s.between(t, f.blocks[p][-1])
                        else: continue
                        first = f.blocks[b][0]
                        if b == use.blk: ws += [j for j in s.writers[b] if j.pos < use.pos]
                        else: ws += [first] * (first in s.writers[b]) + s.between(first, use)
                        if any(s.clobbers(j, at, kk) for j in ws): continue
                        yield es
            b = f.idom[b]

    def _tagload(s, o):
        while o[0] == "ins":
            i = s.f.ins[o[1]]
            if i.op in ("zext", "sext", "trunc", "freeze"): o = i.ops[0]
            elif i.op == "load": return i
            else: return None
        return None

    # ------------------------------------------------- payload -> tag pairing
    def pair_tag(s, o, use, _seen=()):
        """the tag operand that belongs to the payload operand o (used at instruction `use`),
        or None if o is not an lVal payload.  Result: ('tag', operand) / ('mem', addr, klass, load)"""
        o = s.strip(o)
        if o[0] == "arg":
            for t, p, _ in s.p.lval_params(s.f):
                if p == o[1]: return ("tag", ("arg", t))
            return None
        if o[0] != "ins": return None
        i = s.f.ins[o[1]]
        if i.op == "extractvalue" and i.ix == 1:
            src = i.ops[0]
            if src[0] == "ins" and s.f.ins[src[1]].ty == "{ i16, i64 }":
                return ("tag", s.agg_part(src, 0))
            return None
        if i.op == "load":
            a = s.addr(i.ops[0]); k = s.klass(i)
            if k[0] == "lVal" and k[1] == 8:
                return ("mem", a, k, i)
            if k[0] in ("scalar", "glob") and i.ty != "i16":
                # an lVal read as a whole through an untyped pointer: its tag is read right beside it
                for j in s.f.blocks[i.blk]:
                    if j.op == "load" and j.ty == "i16" and s.addr(j.ops[0]).key() == (a.root, a.off - 8, a.var):
                        lo, hi = sorted((j.pos, i.pos)) if hasattr(j, "pos") else sorted((s.f.blocks[i.blk].index(j), s.f.blocks[i.blk].index(i)))
                        if not any(x.op in ("store", "call", "invoke") and not s._inert(x) and not (x.op == "call" and (x.cname() or "").startswith("llvm.mem") and s.local_root(s.addr(x.ops[0]).root))
                                   for x in s.f.blocks[i.blk][lo:hi]):
                            return ("tag", ("ins", j.id))
            return None
        if i.op == "phi":
            # a tag phi in the same block, incoming pairs matching
            cands = [j for j in s.f.blocks[i.blk] if j.op == "phi" and j.ty == "i16"]
            for j in cands:
                ok = True; n = 0
                jin = dict((b, v) for v, b in j.inc)
                for v, b in i.inc:
                    if v[0] == "undef": continue
                    tv = jin.get(b)
                    if v == o and tv == ("ins", j.id): continue
                    if v in _seen: continue
                    pt = s.pair_tag(v, use, _seen + (o,)) if v != o else None
                    if pt is None:
                        # constant/NIL payloads pair with anything
                        if v[0] in ("int",): continue
                        ok = False; break
                    if pt[0] == "tag":
                        if s.tagkey(pt[1]) != s.tagkey(tv) and pt[1] != tv: ok = False; break
                    else:
                        td = s.f.define(tv)
                        if td is None or td.op != "load" or s.addr(td.ops[0]).key() != (pt[1].root, pt[1].off - 8, pt[1].var): ok = False; break
                    n += 1
                if ok and n: return ("tag", ("ins", j.id))
            return None
        return None

    def pair_tags(s, o, use):
        """possible tags of the lVal whose payload is o, at instruction use; None if o is no payload"""
        o = s.strip(o)
        if o[0] == "ins" and s.f.ins[o[1]].op == "phi":
            pt = s.pair_tag(o, use)
            if pt is None:
                return None
            return s.tags(pt[1], use.blk)
        pt = s.pair_tag(o, use)
        if pt is None: return None
        if pt[0] == "tag":
            return s.tags(pt[1], use.blk)
        _, a, k, L = pt
        tk = (a.root, a.off - 8, a.var)
        best = None
        kk = ("lVal", 0) + tuple(k[2:])
        at = Addr(a.root, a.off - 8, a.var, a.st, a.so - 8)
        for t in s.groups().get(tk, ()):
            if t.op == "store":
                if s.f.ins_dominates(t, L) and s.unclobbered(t, L, at, kk):
                    r = s.tags(t.ops[0], use.blk)
                    best = r if best is None else best & r
                continue
            if s.f.ins_dominates(t, L):
                if not s.unclobbered(t, L, at, kk): continue
            elif s.f.ins_dominates(L, t) and s.f.ins_dominates(t, use):
                if not s.unclobbered(L, t, at, kk): continue
            else: continue
            r = s.tags(("ins", t.id), use.blk)
            best = r if best is None else best & r
        for r in s._evidence(tk, at, kk, use):
            best = r if best is None else best & r
        if best is None:
            if (k[2], k[3]) in s.p.field_tags: return s.p.field_tags[(k[2], k[3])]
            return s.p.VISIBLE
        return best

    def pair_tags_edge(s, o, pb, tb):
        """as pair_tags, when the edge pb -> tb is taken"""
        t = s.f.blocks[pb][-1]
        r = s.pair_tags(o, t)
        if r is None: return None
        pt = s.pair_tag(o, t)
        if pt is None: return r
        if pt[0] == "tag":
            es = s.edge_set(pb, tb, s.tagkey(pt[1]))
            return r if es is None else r & es
        _, a, k, L = pt
        tk = (a.root, a.off - 8, a.var); kk = ("lVal", 0) + tuple(k[2:]); at = Addr(a.root, a.off - 8, a.var, a.st, a.so - 8)
        for c in s.edge(pb, tb):
            for x in c[1:3]:
                if not isinstance(x, tuple) or not x or x[0] != "ins": continue
                l = s._tagload(x)
                if l is None or s.addr(l.ops[0]).key() != tk or not s.f.ins_dominates(l, t) or not s.unclobbered(l, t, at, kk): continue
                es = s._atom_set(c, s.tagkey(x))
                if es is not None: r = r & es
        return r

    def same_payload(s, tv, pt, groups, depth=0):
        """is tag operand tv the payload's own tag pt, or one relabelled within a group of tags with the same payload?"""
        if pt[0] == "tag":
            if tv == pt[1] or s.tagkey(tv) == s.tagkey(pt[1]): return True
        else:
            td = s.f.define(tv)
            if td is not None and td.op == "load" and s.addr(td.ops[0]).key() == (pt[1].root, pt[1].off - 8, pt[1].var): return True
        i = s.f.define(tv)
        if i is None or depth > 3: return False
        if i.op == "phi": arms = list(i.inc)
        elif i.op == "select": arms = [(v, None) for v in i.ops[1:]]
        else: return False
        own = [v for v, _b in arms if v[0] != "int" and s.same_payload(v, pt, groups, depth + 1)]
        for v, b in arms:
            if v in own: continue
            if v[0] != "int" or b is None or not own: return False
            if not any(v[1] in g and s.tags(own[0], b) <= g for g in groups): return False
        return True

    def loose_tag(s, o, groups, _seen=None):
        """the tag phi beside a payload phi whose incoming pairs match up to relabelling"""
        o = s.strip(o); seen = _seen if _seen is not None else set()
        i = s.f.define(o)
        if i is None or i.op != "phi" or o in seen: return None
        seen.add(o)
        for j in s.f.blocks[i.blk]:
            if j.op != "phi" or j.ty != "i16": continue
            jin = dict((b, v) for v, b in j.inc); ok = True
            for v, b in i.inc:
                v = s.strip(v); tv = jin[b]
                if v[0] in ("undef", "int") or v == o and tv == ("ins", j.id): continue
                pt = s.pair_tag(v, i)
                if pt is None:
                    lt = s.loose_tag(v, groups, seen)
                    if lt is None or lt != tv: ok = False; break
                elif not s.same_payload(tv, pt, groups): ok = False; break
            if ok: return ("ins", j.id)
        return None

    def mixed(s, o, _seen=None):
        """[(operand, pred block, block)]: the values merged into o by phis and selects that mix payloads with other values"""
        o = s.strip(o); seen = _seen if _seen is not None else set()
        if o[0] != "ins" or o in seen: return []
        seen.add(o)
        i = s.f.ins[o[1]]
        if i.op == "phi": src = [(v, b, i.blk) for v, b in i.inc]
        elif i.op == "select": src = [(v, None, i.blk) for v in i.ops[1:]]
        else: return []
        out = []
        for v, b, t in src:
            v = s.strip(v)
            d = s.f.define(v)
            if d is not None and d.op in ("phi", "select") and s.pair_tag(v, d) is None: out += s.mixed(v, seen)
            else: out.append((v, b, t))
        return out


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
