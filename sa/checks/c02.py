"""C02: sweeping recycles exactly the unmarked objects, once, and releases what they own; allocators hand out clean objects."""
import os
from ..report import Report, VERIF
from ..ir import load
from ..facts import Prog, PURE
from ..loops import counted, lin, comb
from ..walk import Walker, Path
from ..build import AnalysisBroken

RULE = ("Sweep protocol: for each heap the sweep loop covers every slot ever handed out; per mark value 0..3 every path of the loop body is followed: an unmarked slot is "
        "pushed on the free list exactly once (linked to the old head), counted, marked as free and the memory it owns released (unless flagged static); any other slot is left "
        "alone and only its mark bit cleared. Allocators pop or bump within bounds, reset mark and contents, and ask for a collection before the heap is full. "
        "Memory stored into owning fields is heap memory unless the static flag is set, and never released elsewhere.")


def program():
    return load([l.strip() for l in open(os.path.join(VERIF, "sa", "keep.txt")) if l.strip() and not (l.strip().startswith("l") and l.strip().endswith("Free"))])


def leaves(fa, o):
    """values an operand may be (through phis and selects, not through pointer arithmetic)"""
    out = set(); work = [o]; seen = set()
    while work:
        x = work.pop()
        x = fa.canon(fa.strip(x)) if x[0] == "ins" else x
        if x in seen: continue
        seen.add(x)
        d = fa.f.define(x)
        if d is not None and d.op == "phi": work += [v for v, _ in d.inc]
        elif d is not None and d.op == "select": work += d.ops[1:]
        elif x[0] != "undef": out.add(x)
    return out


class Ctx:
    def __init__(s, m):
        s.m = m; s.P = Prog(m)
        s.heaps = sorted(g[:-len("MarkMap")] for g in m.globals if g.endswith("MarkMap") and g[:-len("MarkMap")] in m.structs)
        if len(s.heaps) < 9: raise AnalysisBroken("only %d heaps found" % len(s.heaps))
        s.size = {T: m.struct(T)["size"] for T in s.heaps}
        s.owned = owned_fields(s)
        s.flag = static_flag(s)

    def slot(s, fa, T, o):
        """index (linear form, in elements) of a pointer into the T heap"""
        return lin(fa, o)


MALLOC = ("malloc", "calloc", "realloc")


def owned_fields(C):
    """{T: {offset}}: fields of heap structures that receive freshly allocated memory"""
    out = {}
    for n, f in C.m.defs.items():
        fa = C.P.f(n)
        for i in f.instrs():
            if i.op != "store": continue
            k = fa.klass(i)
            if k[0] != "fld": continue
            T = "lBuffer" if k[1] == "lString" else k[1]
            if T not in C.heaps: continue
            for l in leaves(fa, fa.canon(i.ops[0])):
                d = fa.f.define(l)
                if d is not None and d.op == "call" and d.cname() in MALLOC: out.setdefault(T, set()).add(k[2])
    if set(out) != {"lArray", "lBuffer", "lBytecodeArray"}: raise AnalysisBroken("owned fields: %r" % out)
    return out


def static_flag(C):
    """{T: offset of the flags field}"""
    return {T: [fl["o"] for fl in C.m.struct(T)["fields"] if fl["n"] == "flags"][0] for T in ("lBuffer", "lBytecodeArray")}


STATIC = 2


def elem(C, fa, T, k, t):
    """linear form of the object whose mark lives at address (k, t)"""
    ix = {x: c for x, c in t.items() if x != ("glob", T + "MarkMap")}
    if k == 0 and len(ix) == 1:
        (a, c), = ix.items()
        d = fa.f.define(a)
        while d is not None and d.op in ("sext", "zext", "trunc"): d = fa.f.define(d.ops[0])
        if c == 1 and d is not None and d.op in ("sdiv", "udiv", "ashr", "lshr") and d.ops[1][0] == "int":
            n = d.ops[1][1] if d.op.endswith("div") else 1 << d.ops[1][1]
            if n == C.size[T]:
                k2, t2 = lin(fa, d.ops[0])
                return comb(k2, t2, 0, {("glob", T + "List"): 1}, 1)
    return comb(0, {("glob", T + "List"): 1}, k, ix, C.size[T])


def objform(C, fa, T, store):
    k, t = lin(fa, store.ops[1])
    return elem(C, fa, T, k, t)


class SweepWalk(Walker):
    def __init__(s, C, fa, T, phi, store):
        super().__init__(fa)
        s.C = C; s.T = T; s.phi = ("ins", phi.id); s.size = C.size[T]
        s.map = lin(fa, store.ops[1])
        s.obj = objform(C, fa, T, store)

    def where(s, o):
        """'map' / ('obj', offset) / ('glob', name) / None"""
        k, t = lin(s.fa, o)
        if (k, t) == s.map: return "map"
        if t.get(("glob", s.T + "MarkMap")) == 1:
            e = elem(s.C, s.fa, s.T, k, t)
            if e == s.obj: return "map"
        if t == s.obj[1] and 0 <= k - s.obj[0] < s.size: return ("obj", k - s.obj[0])
        if len(t) == 1 and k == 0:
            (x, c), = t.items()
            if x[0] == "glob" and c == 1: return ("glob", x[1])
        return ("other", k, tuple(sorted(map(repr, t.items()))))

    def load(s, p, i):
        w = s.where(i.ops[0])
        if w == "map": return p.mem.get("map")
        if w == ("obj", s.C.flag.get(s.T)): return p.mem.get("flags")
        return None

    def event(s, p, i):
        if i.op == "store":
            w = s.where(i.ops[1])
            if w == "map": p.mem["map"] = s.val(p, i.ops[0]); p.ev.append(("map", p.mem["map"]))
            else: p.ev.append(("store", w, i, dict(p.mem)))
        elif i.op == "call" and not (i.cname() or "").startswith("llvm."):
            p.ev.append(("call", i.cname(), i, [e[1] for e in p.ev if e[0] == "store"]))
        elif i.op == "load":
            p.mem.setdefault(("loads",), []); p.mem[("loads",)] = p.mem[("loads",)] + [i]
            p.ev.append(("load", s.where(i.ops[0]), i))


def run():
    R = Report("C02", RULE)
    C = Ctx(program())
    sw = sweeps(R, C)
    allocs(R, C)
    owned(R, C, sw)
    R.floor("heaps", len(C.heaps), 10)
    return R.finish()


def sweeps(R, C):
    found = {}
    for n, f in C.m.defs.items():
        fa = C.P.f(n)
        for h, body in f.loops().items():
            for b in body:
                for i in f.blocks[b]:
                    if i.op != "store": continue
                    a = fa.addr(i.ops[1])
                    if a.root[0] != "glob" or not a.root[1].endswith("MarkMap"): continue
                    T = a.root[1][:-7]
                    if T not in C.heaps: continue
                    for c in counted(fa, h):
                        if lin(fa, i.ops[1])[1].get(("glob", T + "MarkMap")) == 1 and ("ins", c.phi.id) in objform(C, fa, T, i)[1]:
                            found.setdefault(T, (fa, h, body, c, i))
    for T in C.heaps:
        key = "%s swept" % T
        if T not in found:
            R.obligation(False, key, "no loop sweeps the %s heap" % T, "lib/garbage-collection.c", "lGCSweep"); continue
        fa, h, body, c, st = found[T]
        where = c.phi.where()
        sweep1(R, C, T, fa, h, body, c, st, where)
    sw = {found[T][0].f.name for T in found}
    # sweeping functions are run by every collection
    gc = C.m.fns.get("lGarbageCollect")
    if gc is None: raise AnalysisBroken("collector not found")
    from ..loops import path_avoiding
    for n in sorted(sw):
        if n == gc.name: continue
        at = {}
        for i in gc.calls(n): at.setdefault(i.blk, []).append(i.pos)
        R.obligation(path_avoiding(gc, (0, 0), lambda i: i.op == "ret", at) is None, "%s run" % n, "a collection can end without sweeping", "%s:%d" % (gc.file, gc.line), gc.name)
    return sw


def sweep1(R, C, T, fa, h, body, c, st, where):
    f = fa.f
    # slots 0 .. Max-1
    fl = c.first_last(objform(C, fa, T, st))
    okr = False
    if fl is not None and fl[0] == (0, {("glob", T + "List"): 1}):
        kk, tt = comb(fl[1][0], fl[1][1], 0, {("glob", T + "List"): 1}, -1)
        okr = kk == -C.size[T] and len(tt) == 1 and all(c2 == C.size[T] and is_load_of(fa, x, T + "Max") for x, c2 in tt.items())
    R.obligation(okr, "%s range" % T, "the sweep of the %s heap does not cover exactly the slots 0 to %sMax-1" % (T, T), where, f.name)
    R.obligation(not early_exit(fa, h, body), "%s no early exit" % T, "the sweep of the %s heap can stop before the last slot" % T, where, f.name)
    entry = [b for b in f.succ[h] if b in body]
    if not entry: raise AnalysisBroken("sweep loop of %s has no body" % T)
    pin = [x for x in f.pred[h] if x in body][0]
    flagvals = [0, 1, STATIC, STATIC | 1] if T in C.flag else [None]
    for v in range(4):
        for fv in flagvals:
            w = SweepWalk(C, fa, T, c.phi, st)
            p = Path(); p.mem["map"] = v
            if fv is not None: p.mem["flags"] = fv
            # the header itself belongs to the iteration: start behind its exit test
            outs = w.run(entry[0], {h} | {b for b in range(len(f.blocks)) if b not in body}, prev=h, path=p)
            outs = [o for o in outs if isinstance(o.end, tuple) and o.end[1] == h]
            if not outs: raise AnalysisBroken("no path through the sweep of %s" % T)
            for o in outs: judge(R, C, T, fa, v, fv, o, where, w)


def early_exit(fa, h, body):
    from ..loops import dead_end
    f = fa.f
    return any(b != h and s not in body and not dead_end(f, s) for b in body for s in f.succ[b])


def judge(R, C, T, fa, v, fv, o, where, w):
    f = fa.f
    nfo = [fl["o"] for fl in C.m.struct(T)["fields"] if fl["n"] == "nextFree"]
    end = o.mem.get("map")
    frees = []
    pushes = []; nexts = []; act = []
    for e in o.ev:
        if e[0] == "call" and e[1] == "free":
            d = f.define(fa.canon(fa.strip(e[2].ops[0])))
            # which field was freed: the last load on this path giving the argument
            src = w.where(d.ops[0]) if d is not None and d.op == "load" else None
            frees.append((src, e[2], e[3]))
        elif e[0] == "store":
            if e[1] == ("glob", T + "FFree"): pushes.append((e[2], lin(fa, e[2].ops[0]) == w.obj))
            elif nfo and e[1] == ("obj", nfo[0]) and is_head(fa, T, e[2].ops[0]): nexts.append((e[2], len(pushes)))
            elif e[1] == ("glob", T + "Active"): act.append(dec(fa, T, e[2].ops[0]))
    nm = "%s mark %d" % (T, v)
    if v != 0 or T == "lNFunc":
        touched = bool(pushes or nexts or act or frees) or any(e[0] == "store" and e[1][0] == "obj" for e in o.ev)
        R.obligation(not touched, nm + " left alone", "the sweep recycles a %s slot that is %s" % (T, "marked" if v & 1 else "free or permanent"), where, f.name)
        want = (v & 2,)
        R.obligation(end in want, nm + " mark reset", "the sweep leaves the mark of a %s slot at %s instead of %d (was %d): the next collection treats it wrongly" % (T, end, v & 2, v), where, f.name)
        return
    R.obligation(len(pushes) == 1 and pushes[0][1], nm + " pushed", "an unmarked %s is put on the free list %d times%s" % (T, len(pushes), "" if all(x[1] for x in pushes) else " (wrong slot)"), where, f.name)
    R.obligation(len(nexts) == 1 and nexts[0][1] == 0, nm + " linked", "an unmarked %s is not linked to the previous free list head before it becomes the head" % T, where, f.name)
    R.obligation(act == [True], nm + " counted", "the number of active %s objects is not decremented exactly once when one is recycled" % T, where, f.name)
    R.obligation(end == 2, nm + " marked free", "a recycled %s slot ends with mark %s instead of 2: it would be recycled again by the next collection" % (T, end), where, f.name)
    for off in sorted(C.owned.get(T, ())):
        fr = [x for x in frees if x[0] == ("obj", off)]
        bad = [x for x in frees if x[0] != ("obj", off)]
        if fv is not None and fv & STATIC:
            R.obligation(not frees, "%s static kept" % T, "the memory of a %s flagged as static is passed to free()" % T, where, f.name)
        else:
            R.obligation(len(fr) == 1 and not bad, "%s memory freed" % T, "the memory a recycled %s owns is freed %d times" % (T, len(fr)), where, f.name)
            # the field still holds the memory (the free list link may share its place)
            for x in fr:
                before = [e for e in o.ev[:[k for k, e in enumerate(o.ev) if e[0] == "load" and ("ins", e[2].id) == canon_load(fa, x[1])][0]] if e[0] == "store" and e[1] == ("obj", off)] if canon_load(fa, x[1]) and any(e[0] == "load" and ("ins", e[2].id) == canon_load(fa, x[1]) for e in o.ev) else []
                R.obligation(not before, "%s freed before relinked" % T, "the memory pointer of a recycled %s is overwritten before it is freed" % T, x[1].where(), f.name)
    if T not in C.owned: R.obligation(not frees, "%s owns nothing" % T, "recycling a %s frees memory it does not own" % T, where, f.name)
    if T == "lSymbol":
        ok = False
        for e in o.ev:
            if e[0] != "store": continue
            a = fa.addr(e[2].ops[1])
            if a.root == ("glob", "lSymbolIndex"):
                sl = [f.define(strip(fa, x[0][1])) for x in a.var]
                ok = ok or any(d is not None and d.op == "load" and fa.addr(d.ops[0]).root == ("glob", "lSymbolBackIndex") and backidx(C, fa, T, d, w) for d in sl) and negated(C, fa, T, e[2].ops[0], w)
        R.obligation(ok, "lSymbol unindexed", "a recycled symbol stays in the name index: looking its name up gives a freed symbol", where, f.name)


def canon_load(fa, call):
    o = fa.canon(fa.strip(call.ops[0]))
    d = fa.f.define(o)
    return o if d is not None and d.op == "load" else None


def strip(fa, o):
    while o[0] == "ins":
        i = fa.f.ins[o[1]]
        if i.op in ("sext", "zext", "trunc", "freeze"): o = i.ops[0]
        else: break
    return fa.canon(o)


def backidx(C, fa, T, d, w):
    """is d a load of the back index at the recycled object's own index?"""
    k, t = lin(fa, d.ops[0])
    es = 2 if d.ty == "i16" else 4
    if k % es or any(c % es for x, c in t.items() if x[0] != "glob"): return False
    t2 = {x: c // es for x, c in t.items() if x[0] != "glob"}
    t2[("glob", T + "MarkMap")] = 1
    return elem(C, fa, T, k // es, t2) == w.obj


def negated(C, fa, T, o, w):
    """value certainly not positive: a non-positive constant or at most minus the (non-negative) slot index"""
    k, t = lin(fa, o)
    if not t: return k <= 0
    # value + index, compared in bytes
    k2, t2 = comb(w.obj[0], {x: c for x, c in w.obj[1].items() if x != ("glob", T + "List")}, k, t, C.size[T])
    if not t2: return k2 <= 0
    d = {x: fa.f.define(x) for x in t}
    if len(t) == 1 and list(t.values()) == [-1]:
        m = dict([(("glob", T + "MarkMap"), 1)] + [(x, 1) for x in t])
        return k <= 0 and elem(C, fa, T, 0, m) == w.obj
    return False


def is_head(fa, T, o):
    d = fa.f.define(fa.canon(fa.strip(o)))
    return d is not None and d.op == "load" and d.ops[0] == ("glob", T + "FFree", 0)


def dec(fa, T, o, by=-1):
    k, t = lin(fa, o)
    if k != by or len(t) != 1: return False
    (x, c), = t.items()
    d = fa.f.define(x)
    return c == 1 and d is not None and d.op == "load" and d.ops[0] == ("glob", T + "Active", 0)


# ---------------------------------------------------------------- allocators

class AllocWalk(Walker):
    visits = 2; limit = 20000

    def event(s, p, i):
        if i.op in ("store", "load") or i.op == "call" and (i.cname() or "").startswith("llvm.mem") or i.op == "call": p.ev.append(i)


def allocs(R, C):
    n = 0
    for T in C.heaps:
        if T == "lNFunc": continue
        fs = []
        for name, f in C.m.defs.items():
            fa = C.P.f(name)
            if any(i.op == "store" and i.ops[1] == ("glob", T + "Active", 0) and dec(fa, T, i.ops[0], 1) for i in f.instrs()): fs.append(fa)
        if not fs: raise AnalysisBroken("no allocator of %s" % T)
        cap = capacity(C, T)
        for fa in fs: n += 1; alloc1(R, C, T, fa, cap)
    R.floor("allocators", n, 9)


def capacity(C, T):
    g = C.m.globals.get(T + "List")
    n = g.get("size") if g else None
    if n: return n // C.size[T]
    mt = g and g.get("ty", "")
    import re
    x = re.match(r"\[(\d+) x", mt or "")
    if x: return int(x.group(1))
    raise AnalysisBroken("size of %sList unknown" % T)


def alloc1(R, C, T, fa, cap):
    f = fa.f; key = "%s:%s" % (f.sname, T); where = "%s:%d" % (f.file, f.line)
    w = AllocWalk(fa)
    # the part of the function that allocates: paths containing the Active update
    outs = [o for o in w.run(0, set()) if o.end is not None and not isinstance(o.end, tuple) and o.end.op == "ret"]
    outs = [o for o in outs if any(i.op == "store" and i.ops[1] == ("glob", T + "Active", 0) for i in o.ev)]
    if not outs: raise AnalysisBroken("%s never returns" % f.name)
    pops = bumps = soon = 0
    verdicts = {}
    def need(ok, k, msg):
        verdicts.setdefault(k, [True, msg]); verdicts[k][0] = verdicts[k][0] and ok
    for o in outs:
        ret = resolve(fa, o, o.end.ops[0])
        cls = None
        st = [i for i in o.ev if i.op == "store"]
        d = f.define(ret) if ret[0] == "ins" else None
        if d is not None and d.op == "load" and d.ops[0] == ("glob", T + "FFree", 0):
            pops += 1
            ff = [i for i in st if i.ops[1] == ("glob", T + "FFree", 0)]
            ok = len(ff) == 1
            if ok:
                x = f.define(fa.canon(fa.strip(ff[0].ops[0])))
                no = [fl["o"] for fl in C.m.struct(T)["fields"] if fl["n"] == "nextFree"][0]
                ok = x is not None and x.op == "load" and fa.addr(x.ops[0]).off == no and is_head(fa, T, fa.addr(x.ops[0]).root if True else None)
                # the link is read before the object is overwritten
                seq = [i.id for i in o.ev]
                for i in o.ev:
                    if i.op == "call" and (i.cname() or "").startswith("llvm.mem") and x is not None and x.id in seq and seq.index(i.id) < seq.index(x.id): ok = False
            need(ok, "pop", "%s takes an object off the free list without making its successor the new head" % f.sname)
            need(any(a[0] == "ne" and is_head(fa, T, a[1]) and a[2][0] == "int" and a[2][1] == 0 for a in o.atoms) or
                 any(a[0] == "eq" and is_head(fa, T, a[1]) and a[2][0] == "int" and a[2][1] == 0 for a in o.atoms) is False and nonnull(fa, T, o), "pop guarded", "%s takes an object off an empty free list" % f.sname)
        else:
            bumps += 1
            k, t = lin(fa, ret)
            mxs = [x for x, c in t.items() if c == C.size[T] and is_load_of(fa, x, T + "Max")]
            ok = t.get(("glob", T + "List")) == 1 and len(t) == 2 and len(mxs) == 1
            slot = k // C.size[T] if ok and k % C.size[T] == 0 else None
            ms = [i for i in st if i.ops[1] == ("glob", T + "Max", 0)]
            ok = ok and slot is not None and len(ms) == 1
            if ok:
                k2, t2 = lin(fa, ms[0].ops[0])
                ok = len(t2) == 1 and k2 == slot + 1 and slot == 0
            need(ok, "bump", "%s hands out a fresh slot other than the first unused one" % f.sname)
            need(any(bound(fa, a, T, cap) for a in o.atoms), "bump bound", "%s hands out slots beyond the end of the %s heap" % (f.sname, T))
            need(not any(i.ops[1] == ("glob", T + "FFree", 0) for i in st), "bump keeps list", "%s loses the free list when it hands out a fresh slot" % f.sname)
        need(sum(1 for i in st if i.ops[1] == ("glob", T + "Active", 0)) == 1, "active", "%s does not count the object it hands out" % f.sname)
        mk = [i for i in st if fa.addr(i.ops[1]).root == ("glob", T + "MarkMap")]
        need(len(mk) >= 1 and mk[-1].ops[0][0] == "int" and mk[-1].ops[0][1] == 0 and markidx(fa, o, T, mk[-1], ret, C.size[T]), "mark", "%s hands out a %s whose mark is not reset: the next collection would never (or wrongly) recycle it" % (f.sname, T))
        if T != "lSymbol":
            ms = [i for i in o.ev if i.op == "call" and (i.cname() or "").startswith("llvm.memset") and resolve(fa, o, i.ops[0]) == ret and i.ops[1][0] == "int" and i.ops[1][1] == 0 and i.ops[2][0] == "int" and i.ops[2][1] >= C.size[T]]
            need(bool(ms), "cleared", "%s hands out a %s without clearing its previous contents" % (f.sname, T))
        if any(i.op == "store" and i.ops[1] == ("glob", "lGCShouldRunSoon", 0) and i.ops[0][0] == "int" and i.ops[0][1] for i in st): soon += 1
        else: need(any(below(fa, a, T, cap) for a in o.atoms), "collection requested", "%s can fill up the %s heap without asking for a collection" % (f.sname, T))
    need(pops > 0, "reuse", "%s never reuses recycled objects" % f.sname)
    need(soon > 0, "collection requested", "%s can fill up the %s heap without asking for a collection" % (f.sname, T))
    for k, (ok, msg) in sorted(verdicts.items()): R.obligation(ok, "%s %s" % (key, k), msg, where, f.name)


def resolve(fa, o, v):
    """value on this path (phis resolved by the blocks walked)"""
    for _ in range(20):
        v = fa.strip(v)
        d = fa.f.define(v)
        if d is None: return v
        if d.op == "phi":
            idx = [k for k, b in enumerate(o.blocks) if b == d.blk]
            if not idx or idx[-1] == 0: return v
            pb = o.blocks[idx[-1] - 1]
            nv = [x for x, b in d.inc if b == pb]
            if not nv: return v
            v = nv[0]
        elif d.op == "load": return fa.canon(v)
        else: return fa.canon(v)
    return v


def is_load_of(fa, x, g):
    d = fa.f.define(x)
    return d is not None and d.op == "load" and d.ops[0] == ("glob", g, 0)


def nonnull(fa, T, o):
    for a in o.atoms:
        if a[0] == "ne" and is_head(fa, T, a[2]): return True
    return False


def bound(fa, a, T, cap):
    """atom implies Max < capacity (before the increment)"""
    if a[0][0] == "f" or a[0] in ("in", "notin"): return False
    p, x, y = a
    sw = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}
    lx = lin(fa, x); ly = lin(fa, y)
    if not any(is_load_of(fa, q, T + "Max") for q in lx[1]): lx, ly = ly, lx; p = sw.get(p, p)
    if len(lx[1]) != 1 or ly[1]: return False
    (q, c), = lx[1].items()
    if c != 1 or not is_load_of(fa, q, T + "Max"): return False
    k = ly[0] - lx[0]
    if p in ("ult", "slt"): return k <= cap
    if p in ("ule", "sle"): return k <= cap - 1
    if p == "ne": return k == cap
    return False


def below(fa, a, T, cap):
    """atom implies that the heap is not nearly full (Active after the increment < capacity - 16)"""
    if a[0][0] == "f" or a[0] in ("in", "notin"): return False
    p, x, y = a
    k1, t1 = lin(fa, x); k2, t2 = lin(fa, y)
    k, t = comb(k1, t1, k2, t2, -1)      # x - y  p  0
    if len(t) != 1: return False
    (q, c), = t.items()
    if not is_load_of(fa, q, T + "Active") or abs(c) != 1: return False
    p = p[1:] if p[0] in "us" else p
    # Active(old) bounds
    if c == -1:      # k - A p 0
        hi = {"ge": k, "gt": k - 1}.get(p)
    else: hi = {"le": -k, "lt": -k - 1}.get(p)
    if hi is None: return False
    return hi + 1 <= cap - 16


def markidx(fa, o, T, st, ret, size):
    k, t = lin(fa, st.ops[1])
    vs = [x for x in t if x != ("glob", T + "MarkMap")]
    if len(vs) != 1 or k != 0: return False
    d = fa.f.define(vs[0])
    if d is None or d.op not in ("sdiv", "udiv", "ashr", "lshr"): return False
    k2, t2 = lin(fa, d.ops[0])
    base = [x for x, c in t2.items() if c == 1 and x != ("glob", T + "List")]
    return t2.get(("glob", T + "List")) == -1 and len(t2) == 2 and k2 == 0 and len(base) == 1 and (base[0] == ret or resolve(fa, o, base[0]) == ret)


# ---------------------------------------------------------------- owned memory

def owned(R, C, sw):
    """what is stored into owning fields, and where they are released"""
    n = 0
    for name, f in C.m.defs.items():
        fa = C.P.f(name)
        for i in f.instrs():
            if i.op == "store":
                k = fa.klass(i)
                if k[0] != "fld": continue
                T = "lBuffer" if k[1] == "lString" else k[1]
                if T not in C.owned or k[2] not in C.owned[T]: continue
                n += 1
                stored(R, C, fa, i, T)
            elif i.op == "call" and i.cname() in ("free", "realloc"):
                d = f.define(fa.canon(fa.strip(i.ops[0])))
                if d is None or d.op != "load": continue
                k = fa.klass(d)
                T = "lBuffer" if len(k) > 1 and k[1] == "lString" else k[1] if len(k) > 1 else None
                if k[0] != "fld" or T not in C.owned or k[2] not in C.owned[T]: continue
                if name in sw: continue
                n += 1
                released(R, C, fa, i, d, T)
    R.floor("owned memory sites", n, 10)


def stored(R, C, fa, st, T):
    f = fa.f; key = "%s:%s memory" % (f.sname, T)
    for l in leaves(fa, fa.canon(st.ops[0])):
        d = f.define(l)
        if l[0] == "int" and l[1] == 0: continue
        if d is not None and d.op == "call" and (d.cname() in MALLOC or returns_malloc(C, d.cname())): R.obligation(True, key, "", st.where(), f.name); continue
        if d is not None and d.op == "load" and fa.klass(d) == ("glob", T + "FFree"): continue          # free list link
        if l[0] == "arg" and all(arg_is_malloc(C, c, l[1]) for c in C.P.callers(f.name)) and C.P.callers(f.name) and not f.taken: R.obligation(True, key, "", st.where(), f.name); continue
        # memory of someone else: the object has to be flagged static
        ok = flagged(C, fa, st, T)
        R.obligation(ok, key + " static", "%s lets a %s own memory that was not allocated for it (and does not flag it static): it will be freed" % (f.sname, T), st.where(), f.name)


def returns_malloc(C, name, depth=0):
    f = C.m.defs.get(name)
    if f is None or depth > 3: return False
    fa = C.P.f(name); n = 0
    for b in f.rpo:
        t = f.blocks[b][-1]
        if t.op != "ret" or not t.ops: continue
        for l in leaves(fa, fa.canon(t.ops[0])):
            if l[0] == "int" and l[1] == 0: continue
            d = f.define(l); n += 1
            if not (d is not None and d.op == "call" and (d.cname() in MALLOC or returns_malloc(C, d.cname(), depth + 1))): return False
    return n > 0


def arg_is_malloc(C, call, k):
    fa = C.P.f(call.fn.name)
    for l in leaves(fa, fa.canon(call.ops[k])):
        d = fa.f.define(l)
        if l[0] == "int" and l[1] == 0: continue
        if not (d is not None and d.op == "call" and (d.cname() in MALLOC or returns_malloc(C, d.cname()))): return False
    return True


def flagged(C, fa, st, T):
    """a store setting the static bit of the same object precedes or follows on every path"""
    f = fa.f; root = fa.addr(st.ops[1]).root
    from ..loops import path_avoiding
    at = {}
    for i in f.instrs():
        if i.op != "store": continue
        a = fa.addr(i.ops[1])
        if a.root != root or a.off != C.flag.get(T): continue
        if sets(fa, i.ops[0]):
            at.setdefault(i.blk, []).append(i.pos)
            if f.ins_dominates(i, st): return True
    return bool(at) and path_avoiding(f, (st.blk, st.pos + 1), lambda i: i.op == "ret", at) is None


def sets(fa, o, n=0):
    if o[0] == "int": return bool(o[1] & STATIC)
    d = fa.f.define(o)
    if d is None or n > 6: return False
    if d.op in ("trunc", "zext", "sext", "freeze"): return sets(fa, d.ops[0], n + 1)
    if d.op == "or": return any(sets(fa, x, n + 1) for x in d.ops)
    return False


def released(R, C, fa, call, ld, T):
    """free()/realloc() of an owning field outside of the sweep: the field is set anew before anything can see it"""
    f = fa.f; key = "%s:%s released" % (f.sname, T)
    from ..loops import path_avoiding
    a = fa.addr(ld.ops[0])
    at = {}
    for i in f.instrs():
        if i.op == "store" and fa.addr(i.ops[1]).key() == a.key(): at.setdefault(i.blk, []).append(i.pos)
    def edge(x, y):
        # the failed realloc leaves the old memory alone
        if call.cname() != "realloc": return True
        for p, u, v in [q for q in fa.edge(x, y) if q[0] == "eq"]:
            if fa.canon(u) == ("ins", call.id) and v[0] == "int" and v[1] == 0: return False
        return True
    bad = path_avoiding(f, (call.blk, call.pos + 1), lambda i: i.op == "ret", at, edge)
    R.obligation(bad is None, key, "%s releases the memory of a %s but can leave the object pointing to it" % (f.sname, T), call.where(), f.name)
    if T in C.flag:
        ok = guarded_static(C, fa, call, a.root, T)
        R.obligation(ok, key + " static", "%s can pass static memory of a %s to %s()" % (f.sname, T, call.cname()), call.where(), f.name)


def guarded_static(C, fa, call, root, T):
    """on the way here the flags were tested to be clear (immutable implies static-or-not; static objects are always immutable)"""
    for c in fa.block_conds(call.blk):
        for o in c[1:3]:
            if not isinstance(o, tuple) or o[0] != "ins": continue
            d = fa.f.define(o)
            n = 0
            while d is not None and n < 6 and d.op in ("zext", "sext", "and", "trunc"): d = fa.f.define(d.ops[0]); n += 1
            if d is not None and d.op == "load" and fa.addr(d.ops[0]).root == root and fa.addr(d.ops[0]).off == C.flag[T]: return True
    return False
