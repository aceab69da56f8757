"""What a function changes, what it looks at and what it returns - by summaries over the call graph.

A region says where memory comes from: ("arg", k) reachable from parameter k, ("glob", g) the global g and what is
reachable from it, ("new", i) made by instruction i of the function at hand (allocations, local variables).
Summaries of a function: mod - {(region, where)}; ret - regions its result may be or hold: ("arg", k), ("glob", g), ("fresh",),
("in", k, off) a new object that holds parameter k; world - {external function: where}; reads - {(global, class): where}."""
import re

NOTHING = re.compile(r"^(sin|cos|tan|asin|acos|atan2?|sqrtf?|cbrt|pow|fmod|floor|ceil|round|fabs|abs|labs|llabs|trunc|exp|log|log2|log10|lround|llround|nan|isnan|isinf|"
                     r"str(n?len|n?cmp|n?casecmp|r?chr|str|pbrk|spn|cspn)|memcmp|memchr|memrchr|memmem|is\w+|to(lower|upper)|__ctype_\w+|malloc|calloc|"
                     r"exit|_exit|abort|fileno|__assert_fail|__errno_location|strto\w+|ato\w+|"
                     r"llvm\.(dbg|lifetime|expect|ctpop|bswap|ctlz|cttz|abs|smax|smin|umax|umin|fabs|floor|ceil|round|rint|trunc|sqrt|pow|copysign|fshl|fshr|sadd|ssub|smul|uadd|usub|umul|is|assume|trap|objectsize|stacksave|stackrestore|va_start|va_end|va_copy|fmuladd|minnum|maxnum).*)$")
WRITES = {"memcpy": 0, "memmove": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "snprintf": 0, "vsnprintf": 0, "sprintf": 0, "free": 0, "realloc": 0, "qsort": 0}


FILLS = {"fread": 0, "fgets": 0, "read": 1, "recv": 1, "getcwd": 0, "stat": 1, "fstat": 1, "lstat": 1, "realpath": 1, "tcgetattr": 1, "getline": 0}
CHARS = re.compile(r"^(const )?(char|u8|void) ?\*$")


class Effects:
    def __init__(s, P, skip_glob=()):
        s.P = P; s.m = P.m
        s.sum = {}; s.skip = set(skip_glob)
        symbols = {}
        for n in s.m.defs:                        # globals that hold symbols, which are what they are for good
            fa = P.f(n)
            for i in fa.f.instrs():
                if i.op == "store":
                    a = fa.rawaddr(i.ops[1])
                    if a.root[0] == "glob":
                        v = fa.strip(i.ops[0]); c = fa.f.ins[v[1]].cname() if v[0] == "ins" and fa.f.ins[v[1]].op == "call" else None
                        g = s.m.fns.get(c) if c else None
                        symbols.setdefault(a.root[1], set()).add(g is not None and "lSymbol" in ((g.dtypes or [""])[0] or "") and s.wideop(fa.f, i.ops[0]))
        s.skip |= {g for g, v in symbols.items() if v == {True}}

    def summary(s, n):
        """fixpoint over the functions reachable from n"""
        if n in s.sum: return s.sum[n]
        todo = []; seen = set(); work = [n]
        while work:
            x = work.pop()
            if x in seen or x in s.sum or x not in s.m.defs or s.prim(x): continue
            seen.add(x); todo.append(x)
            for c in s.m.fns[x].calls():
                if c.cname(): work.append(c.cname())
        cur = {x: (frozenset(), frozenset(), frozenset(), frozenset()) for x in todo}
        s.cur = cur
        for _ in range(40):
            ch = False
            for x in reversed(todo):
                r = s.one(x)
                if r != cur[x]: cur[x] = tuple(a | b for a, b in zip(r, cur[x])); ch = True
            if not ch: break
        s.sum.update(cur)
        return s.sum.get(n, (frozenset(), frozenset(), frozenset(), frozenset()))

    def prim(s, n): return n.endswith("AllocRaw") or s.interner(n)

    def interner(s, n):
        """text to symbol: the same text always is the same symbol, whether it had been met before does not show"""
        g = s.m.fns.get(n)
        return g is not None and not g.decl and "lSymbol" in (g.dtypes[0] or "") and len(g.dtypes) > 1 and bool(CHARS.match(g.dtypes[1] or ""))

    def scratch(s, n, g):
        """static variable of a function of the reader, which it only keeps to have the memory"""
        fn = g.split(".")[0]
        return "." in g and fn in s.m.defs and any("lReadContext" in (d or "") for d in s.m.fns[fn].dtypes)

    def const(s, n, k):
        """parameter through which the compiler lets nothing be changed"""
        f = s.m.fns[n]
        return k < len(f.argtys) and f.argtys[k] == "ptr" and any(CHARS.match(d or "") and (d or "").startswith("const") for d in f.dtypes[1:]) and s.dty(f, k).startswith("const") and bool(CHARS.match(s.dty(f, k)))

    def dty(s, f, k):
        v = s.P.lval_params(f); lv = {a for a, b, _ in v} | {b for a, b, _ in v if b is not None}
        ts = [d or "" for d in f.dtypes[1:]]; q = 0
        for j in range(len(f.argtys)):
            if j in lv:
                if j in {b for a, b, _ in v}: q += 1
                if j == k: return ""
                continue
            if j == k: return ts[q] if q < len(ts) else ""
            q += 1
        return ""

    def get(s, n):
        return s.sum.get(n) or s.cur.get(n)

    def alive(s, f):
        """blocks from which the function can return: what happens on the way to the end of the process is nobody's concern"""
        back = {}; ok = set(); w = []
        for b in f.rpo:
            for p in f.pred[b]: back.setdefault(b, []).append(p)
            if f.blocks[b][-1].op == "ret": w.append(b)
        while w:
            b = w.pop()
            if b in ok: continue
            ok.add(b); w += back.get(b, [])
        return ok

    # ------------------------------------------------------------ one function
    def one(s, n):
        fa = s.P.f(n); f = fa.f
        reg = {}; cont = {}

        def R(o):
            """{(region, offset into it, None: any)} a value points to"""
            if o[0] == "arg": return {(("arg", o[1]), None)}
            if o[0] == "glob": return {(("glob", o[1]), None)} if s.varies(o[1]) else set()
            if o[0] == "ins": return reg.get(o[1], set())
            return set()

        def at(o):
            a = fa.rawaddr(o)
            return {(r, None if k is None or a.var else k + a.off) for r, k in R(a.root)}

        def put(rs, vals):
            ch = False
            for r, off in rs:
                if r[0] != "new": continue
                c = cont.setdefault(r, {}).setdefault(off, set())
                if not vals <= c: c |= vals; ch = True
            return ch

        def look(r, off):
            c = cont.get(r, {}); out = set()
            for k, v in c.items():
                if off is None or k is None or k == off: out |= v
            return out

        def every(rs):
            """regions reachable from what rs points to"""
            out = set(); w = [r for r, _ in rs]
            while w:
                r = w.pop()
                if r in out: continue
                out.add(r)
                if r[0] == "new": w += [x for x, _ in look(r, None)]
            return out

        mod = set(); ret = set(); world = set(); reads = set(); alive = s.alive(f)
        for rnd in range(12):
            ch = False

            def up(i, v):
                nonlocal ch
                v = set(v); had = reg.get(i.id, set())
                for r in {x for x, _ in v if x[0] == "new"}:
                    if len({k for x, k in v | had if x == r}) > 12: v = {z for z in v if z[0] != r} | {(r, None)}
                for r in [x for x, k in had if k is None]: v = {z for z in v if z[0] != r} | ({(r, None)} if any(z[0] == r for z in v) else set())
                if not v <= reg.get(i.id, set()): reg.setdefault(i.id, set()).update(v); ch = True
            for b in f.rpo:
                if b not in alive: continue
                for i in f.blocks[b]:
                    o = i.op
                    if o == "alloca": up(i, {(("new", i.id), 0)})
                    elif o == "load":
                        rs = at(i.ops[0]); v = set()
                        for r, off in rs:
                            if r[0] == "new": v |= look(r, off)
                            else: v.add((r, None))
                        if s.wide(i.ty): up(i, v)
                        for r, _ in rs:
                            if r[0] == "glob": reads.add((r[1], fa.klass(i)[:3], i.where()))
                    elif o == "store":
                        rs = at(i.ops[1])
                        v = R(i.ops[0]) if s.wideop(f, i.ops[0]) else set()
                        if put(rs, v): ch = True
                        k = fa.klass(i)[:3]
                        for r, _ in rs:
                            if r[0] != "new": mod.add((r, k, i.where()))
                    elif o == "call":
                        ch = s.call(fa, i, R, at, put, lambda r: cont.get(r, {}).items(), every, up, mod, world, reads) or ch
                    elif o == "ret":
                        if i.ops:
                            for r, k0 in R(i.ops[0]):
                                if r[0] == "new":
                                    ret.add(("fresh",) + ((k0,) if k0 is None else ()))
                                    for off, vs in cont.get(r, {}).items():
                                        for x in every(vs):
                                            if x[0] == "arg": ret.add(("in", x[1], off))
                                            elif x[0] == "glob": ret.add(("ing", x[1], off))
                                else: ret.add(r)
                    elif o in ("icmp", "fcmp", "br", "switch", "unreachable", "fadd", "fsub", "fmul", "fdiv", "fneg", "sitofp", "fptosi", "uitofp", "fptoui", "frem"): pass
                    elif o == "phi":
                        v = set()
                        for x, _ in i.inc: v |= R(x)
                        if s.wide(i.ty): up(i, v)
                    elif o == "select": up(i, R(i.ops[1]) | R(i.ops[2]))
                    elif o == "getelementptr":
                        up(i, at(("ins", i.id)) if fa.rawaddr(("ins", i.id)).root != ("ins", i.id) else {(r, None) for x in i.ops for r, _ in R(x)})
                    elif s.wide(i.ty):
                        v = set()
                        for x in i.ops: v |= R(x)
                        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"): v = {(r, None) for r, _ in v}
                        up(i, v)
            if not ch: break
        mod = {x for x in mod if not (x[0][0] == "arg" and s.const(n, x[0][1]) or x[0][0] == "glob" and (s.scratch(n, x[0][1]) or not s.varies(x[0][1])))}
        ret = {x for x in ret if not (x[0] in ("arg", "in") and s.const(n, x[1]) or x[0] == "ing" and not s.varies(x[1]) or x[0] in ("glob", "ing") and s.scratch(n, x[1]))}
        reads = {x for x in reads if not s.scratch(n, x[0]) and s.varies(x[0])}
        return frozenset(mod), frozenset(ret), frozenset(world), frozenset(reads)

    def varies(s, g): return not (g.startswith(".str") or g in s.skip)

    def wide(s, ty): return not (re.match(r"^i(1|8|16|32)$", ty) or ty in ("double", "float"))

    def wideop(s, f, o):
        if o[0] == "ins": return s.wide(f.ins[o[1]].ty)
        if o[0] == "arg": return s.wide(f.argtys[o[1]])
        return o[0] == "glob"

    def call(s, fa, i, R, at, put, cont_of, every, up, mod, world, reads):
        c = i.cname(); w = i.where()
        if c is None:
            world.add(("an indirect call", w)); return False
        if s.prim(c):
            up(i, set() if s.interner(c) else {(("new", i.id), 0)}); return False
        if c == "fprintf" and s.stderr(fa, i): return False
        if c.startswith("llvm.mem") or c in WRITES:
            rs = at(i.ops[WRITES.get(c, 0)])
            for r, _ in rs:
                if r[0] != "new": mod.add((r, ("mem",), w))
            ch = False
            if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
                n = i.ops[2][1] if i.ops[2][0] == "int" else None
                v = set()
                for r, off in at(i.ops[1]):
                    if r[0] != "new":
                        if n is None or n >= 8: v.add((r, None))
                        continue
                    for k, c2 in list(cont_of(r)):
                        for d, o2 in rs:
                            if d[0] == "new": ch = put({(d, None if k is None or off is None or o2 is None else o2 + k - off)}, set(c2)) or ch
                if v:
                    steps = range(0, n - 7, 8) if n is not None and n <= 256 else None
                    for d, o2 in rs:
                        for k in steps if steps and o2 is not None else (None,): ch = put({(d, None if k is None else o2 + k)}, v) or ch
            if c == "realloc": up(i, R(i.ops[0]) | {(("new", i.id), 0)})
            elif c.startswith("llvm") is False and c in ("memcpy", "memmove", "memset", "strcpy", "strncpy"): up(i, R(i.ops[0]))
            return ch
        g = s.m.fns.get(c)
        if g is None or g.decl:
            if NOTHING.match(c):
                if c in ("malloc", "calloc"): up(i, {(("new", i.id), 0)})
                elif s.wide(i.ty) and not c.startswith("__"):
                    v = set()
                    for x in i.ops: v |= {(r, None) for r, _ in R(x)}
                    up(i, v)
                if c.startswith("strto") and len(i.ops) > 1:
                    rs = at(i.ops[1])
                    for r, _ in rs:
                        if r[0] != "new": mod.add((r, ("mem",), w))
                    put(rs, R(i.ops[0]))
                return False
            world.add((c, w))
            if c in FILLS and FILLS[c] < len(i.ops):
                for r, _ in at(i.ops[FILLS[c]]):
                    if r[0] != "new": mod.add((r, ("mem",), w))
            return False
        sm = s.get(c)
        if sm is None: return False
        ch = False
        for r, k, _ in sm[0]:
            if r[0] == "arg":
                for x in every(R(i.ops[r[1]])) if r[1] < len(i.ops) else ():
                    if x[0] != "new": mod.add((x, k, s.at(c, w)))
                # what is stored there may be any other argument
                o = [q for q in range(len(i.ops)) if q != r[1] and s.wideop(fa.f, i.ops[q])]
                v = set()
                for q in o: v |= R(i.ops[q])
                if r[1] < len(i.ops): ch = put({(x, None) for x, _ in R(i.ops[r[1]])}, v) or ch
            else: mod.add((r, k, s.at(c, w)))
        for x, _ in sm[2]: world.add((x, s.at(c, w)))
        for g2, k, _ in sm[3]: reads.add((g2, k, s.at(c, w)))
        v = set()
        for r in sm[1]:
            if r[0] == "arg": v |= {(x, None if k is None else k) for x, k in R(i.ops[r[1]])}
            elif r[0] == "fresh": v.add((("new", i.id), None if len(r) > 1 else 0))
            elif r[0] == "in": ch = put({(("new", i.id), r[2])}, {(x, None) for x in every(R(i.ops[r[1]]))}) or ch
            elif r[0] == "ing": ch = put({(("new", i.id), r[2])}, {(("glob", r[1]), None)}) or ch
            else: v.add((r, None))
        up(i, v)
        return ch

    def stderr(s, fa, i):
        o = fa.strip(i.ops[0])
        return o[0] == "ins" and fa.f.ins[o[1]].op == "load" and fa.f.ins[o[1]].ops[0][:2] == ("glob", "stderr")

    def at(s, c, w): return w
