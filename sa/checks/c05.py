"""C05: built-ins stay within the elements of arrays, buffers, views, strings and bytecode arrays."""
import sys
from ..report import Report, prog
from ..r_tags import setup
from ..build import AnalysisBroken
from ..heapmem import Heap, ELEM, ALLOC, INTMAX
from ..bounds import K, add, sub, scale
from ..absint import Abs

RULE = ("Every load, store, memcpy, memcmp, strncmp, fread, fwrite and memset of the built-in functions whose address is derived from the contents of an array, buffer, view, string or bytecode array "
        "is an obligation: offset >= 0, offset + size <= capacity of that very object. Capacities come from the data structure invariants (length field = elements allocated, view length * element size <= buffer "
        "length), and those invariants are obligations wherever the fields are written or an object is created. Discharged by linear arithmetic over facts from dominating branches, joins and inductive loop "
        "invariants; facts about parameters are demanded from every caller.")
SKIP = ("lib/reader.c", "lib/imageReader.c", "lib/imageWriter.c", "lib/vm.c", "lib/garbage-collection.c", "lib/symbol.c", "bin/main.c", "bin/environment.c")
READ = {"memcmp": (0, 1), "strncmp": (), }


def typesizes(P):
    """{view type: element size}: what the function the code itself uses returns"""
    f = P.m.fns.get("lBufferViewTypeSize")
    if f is None or not f.blocks: raise AnalysisBroken("lBufferViewTypeSize not found")
    out = {}
    for T in range(256):
        env = {("arg", 0): T}; b, prev = 0, None
        def v(o): return o[1] if o[0] == "int" else env.get(tuple(o[:2]))
        for _ in range(100):
            nxt = None; new = {}
            for i in f.blocks[b]:
                if i.op == "phi": new[("ins", i.id)] = v([x for x, y in i.inc if y == prev][0]); continue
                env.update(new)
                x = [v(o) for o in i.ops]
                if i.op == "icmp" and None not in x: env[("ins", i.id)] = int({"eq": x[0] == x[1], "ne": x[0] != x[1], "ult": x[0] < x[1], "ugt": x[0] > x[1], "slt": x[0] < x[1], "sgt": x[0] > x[1],
                    "ule": x[0] <= x[1], "uge": x[0] >= x[1], "sle": x[0] <= x[1], "sge": x[0] >= x[1]}[i.pred])
                elif i.op in ("zext", "sext", "trunc"): env[("ins", i.id)] = x[0]
                elif i.op == "select" and x[0] is not None: env[("ins", i.id)] = x[1] if x[0] else x[2]
                elif i.op in ("add", "sub", "shl", "and") and None not in x: env[("ins", i.id)] = {"add": x[0] + x[1], "sub": x[0] - x[1], "shl": x[0] << (x[1] & 63), "and": x[0] & x[1]}[i.op]
                elif i.op == "switch" and x[0] is not None: nxt = dict(map(tuple, i.cases)).get(x[0], i.default)
                elif i.op == "br": nxt = i.ops[0][1] if len(i.ops) == 1 else None if x[0] is None else (i.ops[2][1] if x[0] else i.ops[1][1])
                elif i.op == "ret" and x and x[0] is not None: out[T] = x[0]
            if nxt is None: break
            prev, b = b, nxt
    if len(out) < 4 or min(out.values()) < 1 or max(out.values()) > 64: raise AnalysisBroken("element sizes of views not recognised: %r" % out)
    return out


class Check:
    ended = True      # a byte more than the length, for the end of strings
    def __init__(s, P, R):
        s.P = P; s.R = R; s.ts = typesizes(P)
        s.heaps = {}
        s.pre = {}                     # function -> facts about its parameters its callers have to establish
        s.sites = {}

    def heap(s, n):
        if n not in s.heaps: s.heaps[n] = Heap(s.P, n, s.ts)
        return s.heaps[n]

    # ------------------------------------------------------------- preconditions
    def templates(s, f):
        """facts about parameters that callers may have to establish"""
        out = []; ints = []; ptrs = []
        lv = {x for a, b, _ in s.P.lval_params(f) for x in (a, b)}
        for k, t in enumerate(f.argtys):
            if k in lv: continue
            if t in ("i32", "i64"): ints.append(k)
            elif t == "ptr": ptrs.append(k)
        for k in ints: out += [("not negative", (0, {("arg", k): 1})), ("at most 2^31-1", (INTMAX, {("arg", k): -1}))]
        for p in ptrs:
            for k in ints:
                for c in (1, 0): out.append(("within the memory passed along", (-c, {("cap", ("arg", p)): 1, ("arg", k): -1})))
        return out

    def instantiate(s, h, call, t, H):
        """a fact about the parameters of the callee, for the arguments of a call"""
        out = (t[0], {})
        for x, n in t[1].items():
            if x[0] == "cap": out = add(out, h.capval(call.ops[x[1][1]], H), n)
            else: out = add(out, h.val(call.ops[x[1]], H), n)
        return out

    # ------------------------------------------------------------- obligations
    def accesses(s, f, h):
        """[(instruction, pointer, size)]"""
        out = []
        for i in f.instrs():
            def acc(p, n, i=i): out.append((i, p, n))
            if i.op == "load": acc(i.ops[0], s.tysize(f, i))
            elif i.op == "store": acc(i.ops[1], s.tysize(f, i))
            elif i.op == "call":
                c = i.cname() or ""
                if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or c in ("memcpy", "memmove", "memcmp", "bcmp"): acc(i.ops[0], i.ops[2]); acc(i.ops[1], i.ops[2])
                elif c.startswith("llvm.memset") or c == "memset": acc(i.ops[0], i.ops[2])
                elif c in ("fread", "fwrite"): acc(i.ops[0], i.ops[2])
                elif c in ("read", "recv"): acc(i.ops[1], i.ops[2])
                elif c == "snprintf": acc(i.ops[0], i.ops[1])
                elif c == "memchr": acc(i.ops[0], i.ops[2])
                elif c == "strncmp": acc(i.ops[0], 0); acc(i.ops[1], 0)
        return out

    def tysize(s, f, i):
        if i.op == "load": t = i.ty
        else:
            o = i.ops[0]
            t = None
            if o[0] == "int": t = "i%d" % (o[2] if len(o) > 2 else 64)
            elif o[0] == "ins": t = f.ins[o[1]].ty
            elif o[0] == "arg": t = f.argtys[o[1]]
            elif o[0] == "fp": t = "double"
        if t and t[0] == "i" and t[1:].isdigit(): return max(1, int(t[1:]) // 8)
        return {"ptr": 8, "double": 8, "float": 4}.get(t, 8)

    def relevant(s, h, i, p, n, seen=()):
        """what kind of memory an access goes to whose extent depends on run-time quantities, or None"""
        b = h.base(p); ad = h.fa.addr(p)
        d = h.f.define(b)
        var = bool(ad.var) or ad.root != b or (not isinstance(n, int) and n[0] != "int")
        if d is not None and d.op == "alloca": return "local buffer" if var else None
        if b[0] == "arg": return "memory behind a parameter" if var or n == 0 else None
        if b[0] == "glob": return None
        if d is not None and d.op == "call" and d.cname() in ("malloc", "calloc", "realloc"): return "allocated memory"
        if d is not None and d.op == "load":
            f = h.field(d)
            if f and f[0] in ELEM and f[2] == 0: return {"lArray": "array", "lBuffer": "buffer", "lBytecodeArray": "bytecode array"}[f[0]]
        if d is not None and d.op in ("phi", "select"):
            for v in ([v for v, _ in d.inc] if d.op == "phi" else d.ops[1:]):
                if v[0] == "ins" and v != p:
                    r = s.relevant(h, i, v, n, seen + (b,)) if h.base(v) not in seen + (b,) else None
                    if r: return r
        return None

    def fields(s, f, h):
        """stores to the fields that say where the elements are and how many: [(store, [(goal, message)])]"""
        out = []
        for i in f.instrs():
            if i.op != "store": continue
            x = h.field(i)
            if not x: continue
            st, obj, off, ad = x
            if st in ("lArray", "lBuffer") and off in (0, 8) or st == "lBytecodeArray" and off in (0, 16): 
                g = s.pair(f, h, i, st, obj, off)
                g = list(g or ())
                if f.name in ALLOC:
                    # what users of a new object rely on
                    H = h.hyps(i.blk); want = (0, {("arg", 0): 1}); v = h.val(i.ops[0], H)
                    if off == 0: g.append((sub(h.capval(i.ops[0], H), scale(want, ELEM[st])), "less memory than asked for"))
                    elif off == 8: g += [(sub(v, want), "the length is not the one asked for"), (sub(want, v), "the length is not the one asked for")]
                if g: out.append((i, st, g))
        return out

    def pair(s, f, h, i, st, obj, off):
        """the data pointer and the number of elements agree after the store i; None if a later store completes the pair"""
        other = (16 if st == "lBytecodeArray" else 8) if off == 0 else 0
        H = h.hyps(i.blk); n = ELEM[st]; vals = []
        d = f.define(obj)
        for j in h.loads().get((obj, other), ()):
            if not h.coherent(i, j): continue
            if j.op == "store" and not f.ins_dominates(j, i): 
                if f.ins_dominates(i, j): return None
                continue
            vals.append((j, j.ops[0] if j.op == "store" else ("ins", j.id)))
        raw = False
        if d is not None and d.op == "call" and d.cname() in ALLOC and not any(j.op == "store" for j, v in vals):
            raw = d.cname() == "lBufferAlloc" and h.canon(d.ops[1])[:2] != ("int", 0)
            if off == 0: vals = [(d, d.ops[0])]
        elif d is not None and d.op == "call" and (d.cname() or "").endswith("AllocRaw") and not vals:
            # the other field is still unset: null pointer, length 0
            if off == 0: return []
            v = h.val(i.ops[0], H)
            later = [j for j in h.loads().get((obj, other), ()) if j.op == "store" and j.blk in f.reaches(i.blk) | {i.blk}]
            return [] if later else [(sub(K(0), v), "the length is set but not the elements")]
        if not vals: return [(K(-1), "the other field of the pair is not known here")]
        best = None
        for j, v in vals:
            if st == "lBytecodeArray":
                data, end = (i.ops[0], v) if off == 0 else (v, i.ops[0])
                e = h.val(end, H); b = h.val(data, H)
                g = [(sub(e, b), "the end lies before the data"), (sub(h.capval(data, H), sub(e, b)), "the end lies beyond the memory")]
            else:
                data, ln = (i.ops[0], v) if off == 0 else (v, i.ops[0])
                L = h.val(ln, H)
                if off == 8 and h.width(ln) != 32: g = [(K(-1), "the length is not an int")]
                else: g = [(L, "the length is negative"), (sub(h.capval(data, H), add(scale(L, n), K(int(raw and s.ended)))), "the length promises more elements than there is memory")]
                if off == 8 and st == "lBuffer" and d is None or off == 8 and st == "lBuffer" and d.op != "call":
                    old = [k for k in h.loads().get((obj, 8), ()) if k.op == "load" and f.ins_dominates(k, i)]
                    if old: g.append((sub(L, h.val(("ins", old[-1].id), H)), "the buffer shrinks while views of it keep their length"))
                    else: g.append((K(-1), "the buffer may shrink while views of it keep their length"))
            if best is None or all(h.prove_in(x, H, i.blk) for x, _ in g): best = g
        return best

    def calls(s, f, h):
        """calls that have to establish facts about the arguments: [(call, [(goal, message)])]"""
        out = []
        for i in f.instrs():
            if i.op != "call": continue
            c = i.cname(); H = None
            if c in s.pre:
                H = h.hyps(i.blk)
                out.append((i, c, [(s.instantiate(h, i, t, H), "argument not shown to be " + m) for m, t in s.pre[c]]))
            if c == "lBufferViewAlloc":
                H = h.hyps(i.blk)
                L = h.val(i.ops[3], H); t = h.view_type(i.ops[1], H)
                g = [(h.val(i.ops[2], H), "view starts before the buffer"), (scale(h.val(i.ops[2], H), -1), "view does not start at the beginning of the buffer"), (L, "length of the view is negative")]
                if t is None: g.append((K(-1), "element type of the view not known"))
                else:
                    obj = h.canon(i.ops[0])
                    ls = [j for (o, off), js in h.loads().items() if off == 8 and h.canon(o) == obj for j in js if j.op == "load"]
                    if not ls: g.append((K(-1), "the view is longer than its buffer"))
                    else: g.append((sub((0, {h.canon(("ins", ls[0].id)): 1}), scale(L, s.ts[t])), "the view is longer than its buffer"))
                out.append((i, c, g))
            if c == "lBufferAlloc" and h.canon(i.ops[1])[:2] != ("int", 0):
                out.append((i, c, [] if s.filled(f, h, i) else [(K(-1), "a buffer created without memory is not given any")]))
        return out

    def filled(s, f, h, i):
        """every way from the call to the end of the function stores a data pointer"""
        st = [j for j in h.loads().get((("ins", i.id), 0), ()) if j.op == "store"]
        if any(j.blk == i.blk and j.pos > i.pos for j in st): return True
        stop = {j.blk for j in st}; seen = set(); todo = [i.blk]
        while todo:
            b = todo.pop()
            if f.blocks[b][-1].op == "ret": return False
            for q in f.succ[b]:
                if q not in seen and q not in stop: seen.add(q); todo.append(q)
        return True

    # ------------------------------------------------------------- scope
    def builtin(s, name, seen=()):
        """reachable by a program other than through the excluded files alone"""
        f = s.P.m.fns[name]
        cs = {c.fn.name for c in s.P.callers(name)} - set(seen)
        if f.taken or not s.P.callers(name): return f.file not in SKIP
        return any(s.P.m.fns[c].file == "lib/vm.c" or s.P.m.fns[c].file not in SKIP and s.builtin(c, seen + (name,)) for c in cs)

    def scope(s):
        for name, f in sorted(s.P.m.defs.items()):
            if f.file in SKIP or f.ai and not s.P.callers(name) and not f.taken: continue
            if s.builtin(name): yield name, f

    def goals(s, f, h):
        """[(instruction, kind, [(goal, message)])]"""
        out = []
        for i, p, n in s.accesses(f, h):
            what = s.relevant(h, i, p, n)
            if not what: continue
            H = h.hyps(i.blk)
            nn = K(n) if isinstance(n, int) else h.val(n, H)
            b = h.base(p); v = h.val(p, H); off = sub(v, (0, {b: 1}))
            g = [(off, "starts before the beginning of the " + what), (sub((0, {("cap", b): 1}), add(off, nn)), "reaches beyond the end of the " + what)]
            if not isinstance(n, int): g.append((nn, "has a negative size"))
            out.append((i, (i.op if i.op != "call" else i.cname().split(".p0")[0].replace("llvm.", "")) + " in " + what, g))
        for i, st, g in s.fields(f, h): out.append((i, "fields of " + st, g))
        for i, c, g in s.calls(f, h): out.append((i, "call of " + c, g))
        return out

    def solve(s, name, f):
        """decide the obligations of one function, asking its callers for facts about parameters where that is needed"""
        h = s.heap(name)
        res = []
        h.pre = [t for m, t in s.pre.get(name, ())]
        if h.pre: h._hyp = {}; h._inv = {}; h._val = {}; h._hull = {}
        missing = []
        for i, kind, g in s.goals(f, h):
            bad = [m for t, m in g if not h.prove_in(t, h.hyps(i.blk), i.blk)]
            if bad: missing.append((i, kind, g))
            res.append((i, kind, bad))
        if missing and s.P.callers(name) and not f.taken and name not in s.pre:
            ts = s.templates(f)
            def ok(sel):
                h.pre = [t for m, t in sel]; h._hyp = {}; h._inv = {}; h._val = {}; h._hull = {}
                want = {(i.id, kind) for i, kind, g in missing}
                return [i for i, kind, g in s.goals(f, h) if (i.id, kind) in want and not all(h.prove_in(t, h.hyps(i.blk), i.blk) for t, m in g)]
            rest = ok(ts)
            if len(rest) < len(missing):
                sel = list(ts)
                for t in sorted(ts, key=lambda t: t[1][0]):         # the strongest first
                    q = [x for x in sel if x is not t]
                    if len(ok(q)) <= len(rest): sel = q
                s.pre[name] = sel
                return s.solve(name, f)
            h.pre = []; h._hyp = {}; h._inv = {}; h._val = {}; h._hull = {}
        return res

    def run(s):
        P = s.P; R = s.R
        sc = dict(s.scope()); s.nscope = len(sc); res = {}; todo = sorted(sc)
        while todo:
            name = todo.pop(0); had = s.pre.get(name)
            res[name] = s.solve(name, sc[name])
            if s.pre.get(name) != had:
                for c in P.callers(name):
                    if c.fn.name in sc and c.fn.name not in todo: todo.append(c.fn.name)
        kinds = {}
        for name in sorted(res):
            f = sc[name]; nth = {}
            for i, kind, bad in res[name]:
                k = nth[kind] = nth.get(kind, 0) + 1
                kinds[kind.split(" ")[0]] = kinds.get(kind.split(" ")[0], 0) + 1
                R.obligation(not bad, "%s: %s #%d" % (f.sname, kind, k), "%s: %s %s" % (f.sname, kind, "; ".join(bad) if bad else ""), i.where(), name)
        return kinds


def run():
    m = prog(("lBufferViewTypeSize",)); P = setup(m)[0]
    R = Report("C05", RULE)
    C = Check(P, R); kinds = C.run()
    R.floor("functions in scope", C.nscope, 60)
    R.floor("accesses to element storage", sum(n for k, n in kinds.items() if k not in ("fields", "call")), 35)
    R.floor("writes of length and data fields", kinds.get("fields", 0), 4)
    R.floor("calls whose arguments have to be in range", kinds.get("call", 0), 10)
    R.counts["by kind"] = kinds
    R.counts["demanded from callers"] = {k: [m for m, _ in v] for k, v in sorted(C.pre.items())}
    R.assumptions = ["C strings and lists are shorter than 2^31", "objects loaded from an image satisfy the invariants", "the reader, the image code and the virtual machine's own stacks are outside this check"]
    return R.finish()
