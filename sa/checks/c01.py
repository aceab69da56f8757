"""C01: marking reaches everything a live object or root refers to."""
from ..report import Report, prog
from ..facts import Prog
from ..r_tags import PTRTAGS, base_type
from ..loops import lin, counted, only_exit, every_iteration, path_avoiding, eqlin, comb
from .c04 import leaves
from ..build import AnalysisBroken

RULE = ("Mark graph: wherever an object is marked, every field of its structure that refers to a collected object must be handed to a marker for the "
        "field's type on every following path (except behind a null test of that field); loops must cover all elements; the value marker must "
        "dispatch every pointer-carrying type; the collector must trace thread stacks, current code and all root tables before sweeping; "
        "C variables outside of the roots may only hold permanent symbols.")
NOTREF = {("lNFunc", "name")}     # kept alive through the function's metadata, see name_in_meta


class Marks:
    def __init__(s, m):
        s.m = m; s.P = Prog(m)
        s.heaps = {g[:-len("MarkMap")] for g in m.globals if g.endswith("MarkMap") and g[:-len("MarkMap")] in m.structs}
        if len(s.heaps) < 9: raise AnalysisBroken("only %d heaps found" % len(s.heaps))
        s.ev = {}            # function -> [(ins, type, object operand)]
        for n, f in m.defs.items():
            l = []
            fa = s.P.f(n)
            for i in f.instrs():
                if i.op == "store" and i.ops[0][0] == "int" and i.ops[0][1] == 1:
                    a = fa.addr(i.ops[1])
                    if a.root[0] == "glob" and a.root[1].endswith("MarkMap") and a.root[1][:-7] in s.heaps:
                        T = a.root[1][:-7]
                        o = s.object(fa, T, a)
                        l.append((i, T, o))
            if l: s.ev[n] = l
        # markers: functions whose call marks their argument
        s.marker = {}        # function -> {arg index: type}
        for n, l in s.ev.items():
            for i, T, o in l:
                if o is None: continue
                a, _ = s.given(s.P.f(n), o)
                if a is not None: s.marker.setdefault(n, {})[a[1]] = T
        s.valmarker = {}     # function -> (tag arg, payload arg)
        s.find_valmarkers()

    def object(s, fa, T, a):
        """the pointer p behind index (p - TList)"""
        if len(a.var) != 1: return None
        o = a.var[0][0][1] if a.var[0][0][0] == "sx" else a.var[0][0]
        for _ in range(8):
            i = fa.f.define(o)
            if i is None: return None
            if i.op in ("sext", "zext", "trunc", "freeze"): o = i.ops[0]
            elif i.op in ("sdiv", "udiv", "ashr", "lshr"): o = i.ops[0]
            elif i.op == "sub":
                if i.ops[1][0] == "glob" and i.ops[1][1] == T + "List": return fa.canon(fa.strip(i.ops[0]))
                return None
            else: return None
        return None

    def given(s, fa, o):
        """(argument, phi) when o is an argument, or starts out as one in a loop going on to further objects"""
        if o[0] == "arg": return o, None
        p = fa.f.define(o)
        if p is None or p.op != "phi": return None, None
        first = [fa.canon(fa.strip(v)) for v, b in p.inc if not fa.f.dominates(p.blk, b)]
        if len(first) == 1 and first[0][0] == "arg": return first[0], p
        return None, None

    def find_valmarkers(s):
        T = s.P.T
        for n, f in s.m.defs.items():
            lv = s.P.lval_params(f)
            if len(lv) != 1: continue
            t, p, _ = lv[0]
            if p is None: continue
            fa = s.P.f(n)
            if sum(1 for e in s.events(fa) if e[2] == ("arg", p)) >= 5:
                s.valmarker[n] = (t, p)
        if not s.valmarker: raise AnalysisBroken("no function marking values found")

    def events(s, fa):
        """(ins, type, object payload operand[, tag operand]) marks performed in a function, directly or through a marker"""
        out = [(i, T, o, None) for i, T, o in s.ev.get(fa.f.name, ())]
        for i in fa.f.calls():
            c = i.cname()
            for k, T in s.marker.get(c, {}).items():
                out.append((i, T, fa.canon(i.ops[k]), None))
            if c in s.valmarker:
                t, p = s.valmarker[c]
                out.append((i, "lVal", fa.canon(i.ops[p]), fa.canon(i.ops[t])))
        return out


def run():
    R = Report("C01", RULE)
    m = prog()
    M = Marks(m)
    nf = 0
    for n, l in sorted(M.ev.items()):
        fa = M.P.f(n)
        evs = M.events(fa)
        for st, T, o in l:
            if o is None:
                R.obligation(False, "%s:%s mark index" % (fa.f.sname, T), "%s marks an entry of the %s heap that is not the object's own" % (fa.f.sname, T), st.where(), n); continue
            # an object that is given to the marker is marked unless it is null or already marked
            arg, phi = M.given(fa, o)
            if arg is not None:
                again = []
                def onward(a, b, o=o, arg=arg, phi=phi, T=T, fa=fa, again=again):
                    if phi is not None and b == phi.blk and fa.f.dominates(phi.blk, a): again.append(a); return False
                    return not (skip_edge(fa, a, b, o, T) or o != arg and skip_edge(fa, a, b, arg, T))
                bad = path_avoiding(fa.f, (0, 0), lambda i: i.op == "ret", {st.blk: [st.pos]}, onward)
                R.obligation(bad is None and not again, "%s:%s marked" % (fa.f.sname, T), "%s can return without marking the %s it was given" % (fa.f.sname, T), st.where(), n)
            for name, off, kind in fields(M, T):
                nf += 1
                field(R, M, fa, evs, st, T, o, name, off, kind)
    R.floor("reference fields of marked objects", nf, 14)
    R.floor("markers", len(M.marker), 9)
    values(R, M)
    roots(R, M)
    globals_(R, M)
    name_in_meta(R, M)
    return R.finish()


def fields(M, T):
    """[(name, offset, referenced heap type)] of a structure"""
    out = {}
    for fl in M.m.struct(T)["fields"]:
        if fl["n"] == "nextFree" or (T, fl["n"]) in NOTREF: continue
        t = fl["u"].replace("const ", "").strip()
        if t == "lVal": out[fl["o"]] = (fl["n"], fl["o"], "lVal")
        elif t == "lVal*": out[fl["o"]] = (fl["n"], fl["o"], "lVal[]")
        elif t.endswith("**") and t[:-2] in M.heaps: out[fl["o"]] = (fl["n"], fl["o"], t[:-2] + "[]")
        elif t.endswith("*") and t[:-1].strip() in M.heaps: out[fl["o"]] = (fl["n"], fl["o"], t[:-1].strip())
    return list(out.values())


def skip_edge(fa, a, b, o, T):
    """edge taken only for a null object or one that is already marked"""
    for at in fa.edge(a, b):
        if at[0] not in ("eq", "ne"): continue
        p, x, y = at
        x = fa.canon(fa.strip(x)); y = fa.canon(fa.strip(y))
        if p == "eq" and ((x == o and y[0] == "int" and y[1] == 0) or (y == o and x[0] == "int" and x[1] == 0)): return True
        if p == "ne" and y[0] == "int" and y[1] == 0:
            d = fa.f.define(x)
            while d is not None and d.op in ("zext", "sext", "and"): d = fa.f.define(d.ops[0])
            if d is not None and d.op == "load" and fa.addr(d.ops[0]).root == ("glob", T + "MarkMap"): return True
    return False


def loads_of(M, fa, T, o, off, glob=None):
    """payload loads of field off of object o of type T (or of elements of the T heap with o's index)"""
    out = []
    for i in fa.f.instrs():
        if i.op != "load": continue
        a = fa.addr(i.ops[0])
        if a.root == o and a.off == off and not a.var: out.append(i)
        elif a.root == ("glob", T + "List") and a.var and a.st in (T, None) and a.off % M.m.struct(T)["size"] == off and M.object(fa, T, type("A", (), {"var": tuple((v, 1) for v, c in a.var)})) == o: out.append(i)
    return out


def field(R, M, fa, evs, st, T, o, name, off, kind):
    f = fa.f
    key = "%s:%s.%s" % (f.sname, T, name)
    msg = "%s marks a %s without marking its %s on every path: the collector would free what it refers to" % (f.sname, T, name)
    if kind.endswith("[]"):
        ok = array_marked(M, fa, evs, st, o, loads_of(M, fa, T, o, off), kind[:-2], length_of(M, fa, T, o, name))
        R.obligation(ok, key, "%s marks a %s without marking all elements of its %s" % (f.sname, T, name), st.where(), f.name); return
    ls = loads_of(M, fa, T, o, off + (8 if kind == "lVal" else 0))
    vals = {fa.canon(("ins", i.id)) for i in ls}
    at = {}
    for e in evs:
        i, T2, o2, tag = e
        if o2 in vals and (T2 == kind): at.setdefault(i.blk, []).append(i.pos)
    def edge(a, b):
        # loop-carried marking: the field becomes the next object
        for p in f.blocks[b]:
            if p.op != "phi": break
            for v, pb in p.inc:
                if pb == a and fa.canon(fa.strip(v)) in vals and fa.canon(("ins", p.id)) == o: return False
        # behind a null test of the field
        for c in fa.edge(a, b):
            if c[0] == "eq":
                x = fa.canon(fa.strip(c[1])); y = fa.canon(fa.strip(c[2]))
                if x in vals and y[0] == "int" and y[1] == 0 or y in vals and x[0] == "int" and x[1] == 0: return False
        return True
    bad = path_avoiding(f, (st.blk, st.pos + 1), lambda i: i.op == "ret", at, edge)
    R.obligation(bool(ls) and bad is None, key, msg, st.where(), f.name)


def length_of(M, fa, T, o, name):
    """(linear form of the number of elements) candidates: the structure's length field"""
    if T == "lArray":
        return [(0, {fa.canon(("ins", i.id)): 1}) for i in fa.f.instrs() if i.op == "load" and fa.klass(i) in (("fld", "lArray", 8),) and fa.addr(i.ops[0]).root == o or
                (i.op == "load" and fa.addr(i.ops[0]).root == o and fa.addr(i.ops[0]).off == off_of(M, "lArray", "length"))]
    return []


def off_of(M, T, name):
    for fl in M.m.struct(T)["fields"]:
        if fl["n"] == name: return fl["o"]
    raise AnalysisBroken("%s.%s not found" % (T, name))


def array_marked(M, fa, evs, st, o, dataloads, kind, lens):
    """some loop after st hands every element data[0 .. n-1] to a marker"""
    f = fa.f
    size = 16 if kind == "lVal" else 8
    datas = {fa.canon(("ins", i.id)) for i in dataloads}
    for i, T2, o2, tag in evs:
        if T2 != kind: continue
        l = f.define(o2)
        if l is None or l.op != "load": continue
        k, t = lin(fa, l.ops[0])
        base = [x for x in t if x in datas or (f.define(x) is not None and f.define(x).op == "phi")]
        for h, body in f.loops().items():
            if not every_iteration(fa, i, h, body) or not only_exit(fa, h, body): continue
            for c in counted(fa, h):
                fl = c.first_last((k, t))
                if fl is None: continue
                (k1, t1), (k2, t2) = fl
                for d in datas:
                    x1 = comb(k1, t1, 0, {d: 1}, -1); x2 = comb(k2, t2, 0, {d: 1}, -1)
                    # payload of element 0 .. payload of element n-1
                    po = 8 if kind == "lVal" else 0
                    if x1 != (po, {}): continue
                    for n in lens:
                        want = comb(po - size, {}, n[0], n[1], size)
                        if eqlin(x2, want) and (not st or path_avoiding(f, (st.blk, st.pos + 1), lambda q: q.op == "ret", {h: [0]}) is None): return True
    return False


def values(R, M):
    """the value marker dispatches every type with a collected payload"""
    T = M.P.T
    for n, (t, p) in M.valmarker.items():
        fa = M.P.f(n); f = fa.f
        key = fa.tagkey(("arg", t))
        evs = M.events(fa)
        for dt, names in PTRTAGS.items():
            if dt in ("lString", "lClass"): continue
            for name in names:
                if name in ("ltException",) or name not in T: continue
                at = {}
                for i, T2, o2, _ in evs:
                    if o2 == ("arg", p) and T2 == dt: at.setdefault(i.blk, []).append(i.pos)
                def edge(a, b):
                    es = fa.edge_set(a, b, key)
                    if es is not None and T[name] not in es: return False
                    return not skip_edge(fa, a, b, ("arg", p), dt)
                bad = path_avoiding(f, (0, 0), lambda i: i.op == "ret", at, edge)
                R.obligation(bad is None, "%s:%s" % (f.sname, name), "%s does not mark the payload of a value of type %s: it is freed while in use" % (f.sname, name), "%s:%d" % (f.file, f.line), n)


def roots(R, M):
    """the collector marks thread and root tables before it sweeps"""
    m = M.m
    gc = m.fns.get("lGarbageCollect")
    if gc is None: raise AnalysisBroken("collector not found")
    fa = M.P.f("lGarbageCollect")
    sweep = [i for i in gc.calls() if i.cname() == "lGCSweep"]
    if not sweep: raise AnalysisBroken("sweep call not found")
    # root duties: what has to be marked, with the function doing it
    duties = []
    for n, f in m.defs.items():
        a = M.P.f(n)
        evs = None
        pt = [k for k, d in enumerate(f.dtypes[1:]) if base_type(d) == "lThread"]
        tobj = [("arg", k) for k in pt] if not M.P.lval_params(f) else []
        evs = M.events(a)
        if not evs: continue
        for o in tobj:
            duties += thread_duties(M, a, evs, o)
        duties += table_duties(M, a, evs)
    want = {}
    for fl in m.struct("lThread")["fields"]:
        t = fl["u"].replace("const ", "")
        if t.rstrip("*") in M.heaps | {"lVal"} and t.endswith("*"): want["thread " + fl["n"]] = "the running thread's %s" % fl["n"]
    for g, T in root_tables(M):
        for name, off, kind in fields(M, T) if T not in M.heaps else [("itself", 0, T)]:
            want["%s %s" % (g, name)] = "%s of every entry of %s" % (name, g)
    R.floor("root duties", len(want), 6)
    done = {}
    for k, n in duties: done.setdefault(k, set()).add(n)
    for k, txt in sorted(want.items()):
        fs = done.get(k, set())
        ok = any(reached_before(M, gc, fn, s) for fn in fs for s in sweep) and all(any(reached_before(M, gc, fn, s) for fn in fs) for s in sweep)
        R.obligation(ok, "root %s" % k, "a collection does not (completely) mark %s before sweeping" % txt, sweep[0].where(), "lGarbageCollect")


def reached_before(M, gc, fn, sweep, depth=0):
    """is fn certainly executed before the sweep?"""
    if fn == gc.name: return True
    for i in gc.calls():
        c = i.cname()
        if c is None or c not in M.m.defs or not gc.ins_dominates(i, sweep): continue
        if c == fn: return True
        if depth < 4 and always_calls(M, c, fn, 0): return True
    return False


def always_calls(M, c, fn, depth):
    f = M.m.defs[c]
    if depth > 3: return False
    at = {}
    for i in f.calls():
        d = i.cname()
        if d == fn or (d in M.m.defs and d != c and always_calls(M, d, fn, depth + 1)): at.setdefault(i.blk, []).append(i.pos)
    return bool(at) and path_avoiding(f, (0, 0), lambda i: i.op == "ret", at) is None


def thread_duties(M, fa, evs, o):
    out = []
    cnt = {"closureStack": "csp", "valueStack": "sp"}
    for fl in M.m.struct("lThread")["fields"]:
        t = fl["u"].replace("const ", "")
        if not t.endswith("*"): continue
        b = t.rstrip("*")
        if b not in M.heaps | {"lVal"}: continue
        ls = [i for i in fa.f.instrs() if i.op == "load" and fa.addr(i.ops[0]).root == o and fa.addr(i.ops[0]).off == fl["o"]]
        vals = {fa.canon(("ins", i.id)) for i in ls}
        if t.endswith("**") or b == "lVal":
            if fl["n"] not in cnt: raise AnalysisBroken("thread stack %s unknown" % fl["n"])
            co = off_of(M, "lThread", cnt[fl["n"]])
            lens = [(1, {fa.canon(("ins", i.id)): 1}) for i in fa.f.instrs() if i.op == "load" and fa.addr(i.ops[0]).root == o and fa.addr(i.ops[0]).off == co]
            if array_marked(M, fa, evs, None, o, ls, b, lens): out.append(("thread " + fl["n"], fa.f.name))
        else:
            at = {}
            for i, T2, o2, _ in evs:
                if T2 == b and o2 in vals: at.setdefault(i.blk, []).append(i.pos)
            if at and path_avoiding(fa.f, (0, 0), lambda i: i.op == "ret", at) is None: out.append(("thread " + fl["n"], fa.f.name))
    return out


def root_tables(M):
    """global arrays of structures with references that are not collected heaps"""
    out = []
    for g, d in M.m.globals.items():
        t = d.get("dt") or ""
        b = t.split("[")[0].strip()
        if "[" not in t or b not in M.m.structs: continue
        if b in M.heaps and (b + "FFree") in M.m.globals: continue
        if b in M.heaps or fields(M, b): out.append((g, b))
    return out


def table_duties(M, fa, evs):
    out = []
    f = fa.f
    for g, T in root_tables(M):
        size = M.m.struct(T)["size"]
        fs = fields(M, T) if T not in M.heaps else [("itself", 0, T)]
        total = M.m.globals[g]["dt"].split("[")[1].split("]")[0]
        for name, off, kind in fs:
            for i, T2, o2, _ in evs:
                if T2 != kind: continue
                if T in M.heaps: k, t = lin(fa, o2)
                else:
                    l = f.define(o2)
                    if l is None or l.op != "load": continue
                    k, t = lin(fa, l.ops[0])
                    k -= 8 if kind == "lVal" else 0
                if ("glob", g) not in t and not any(f.define(x) is not None and f.define(x).op == "phi" for x in t): continue
                for h, body in f.loops().items():
                    if not every_iteration(fa, i, h, body) or not only_exit(fa, h, body): continue
                    if path_avoiding(f, (0, 0), lambda q: q.op == "ret", {h: [0]}) is not None: continue
                    for c in counted(fa, h):
                        fl = c.first_last((k, t))
                        if fl is None: continue
                        first = comb(fl[0][0], fl[0][1], 0, {("glob", g): 1}, -1)
                        last = comb(fl[1][0], fl[1][1], 0, {("glob", g): 1}, -1)
                        if first != (off, {}): continue
                        if total.isdigit() and last == (off + size * (int(total) - 1), {}): out.append(("%s %s" % (g, name), f.name))
                        else:
                            # up to the table's fill count
                            for x, n in last[1].items():
                                d = f.define(x)
                                if n == size and len(last[1]) == 1 and last[0] == off - size and d is not None and d.op == "load" and d.ops[0][0] == "glob" and d.ops[0][1] == T + "Max":
                                    out.append(("%s %s" % (g, name), f.name))
    return out


def globals_(R, M):
    """references kept in C variables"""
    m = M.m
    perm = permanent(M)
    n = 0
    for name, f in sorted(m.defs.items()):
        fa = M.P.f(name)
        for i in f.instrs():
            if i.op != "store": continue
            a = fa.rawaddr(i.ops[1])
            if a.root[0] != "glob" or a.var: continue
            g = a.root[1]
            dt = (m.globals.get(g, {}).get("dt") or "").replace("const ", "")
            if g.endswith("FFree"): continue
            if not (dt == "lVal" or dt.endswith("*") and dt[:-1].strip() in M.heaps): continue
            if dt == "lVal" and a.off == 0: continue
            v = fa.canon(i.ops[0])
            if v[0] in ("int", "glob"): continue
            n += 1
            d = f.define(v)
            ok = d is not None and d.op == "call" and d.cname() in perm
            R.obligation(ok, "global %s" % g, "the C variable %s keeps a reference (stored in %s) that the collector does not trace" % (g, f.sname), i.where(), name)
    R.floor("references in C variables", n, 40)


def permanent(M):
    """functions whose result is a symbol that is never collected"""
    out = set()
    ch = True
    while ch:
        ch = False
        for n, f in M.m.defs.items():
            if n in out or f.ret != "ptr": continue
            fa = M.P.f(n)
            rets = [fa.canon(t.ops[0]) for b in f.rpo for t in f.blocks[b][-1:] if t.op == "ret" and t.ops]
            if not rets: continue
            def isperm(v):
                d = f.define(v)
                if d is not None and d.op == "call" and d.cname() in out: return True
                for i in f.instrs():
                    if i.op == "store" and i.ops[0][0] == "int" and i.ops[0][1] & 2:
                        a = fa.addr(i.ops[1])
                        if a.root == ("glob", "lSymbolMarkMap") and M.object(fa, "lSymbol", a) == v: return n.find("Free") < 0
                return False
            if all(isperm(v) for v in rets):
                out.add(n); ch = True
    if not out: raise AnalysisBroken("no function making permanent symbols found")
    return out


def name_in_meta(R, M):
    """a native function's name is not traced itself: it has to be an entry of the (traced) metadata"""
    off = off_of(M, "lNFunc", "name"); moff = off_of(M, "lNFunc", "meta")
    n = 0
    for name, f in M.m.defs.items():
        fa = M.P.f(name)
        for i in f.instrs():
            if i.op != "store" or fa.klass(i) != ("fld", "lNFunc", off): continue
            v = fa.canon(i.ops[0]); n += 1
            ins = [c for c in f.calls("lTreeInsert") if any(v in leaves(fa, fa.strip(o)) for o in c.ops[1:])]
            st = [q for q in f.instrs() if q.op == "store" and fa.klass(q) == ("fld", "lNFunc", moff) and any(fa.canon(q.ops[0]) == ("ins", c.id) for c in ins)]
            # or the marker marks the name itself
            mk = any(T == "lNFunc" and any(T2 == "lSymbol" and o2 in {fa2.canon(("ins", l.id)) for l in loads_of(M, fa2, "lNFunc", o, off)} for _i, T2, o2, _t in M.events(fa2))
                     for n2, l2 in M.ev.items() for fa2 in (M.P.f(n2),) for st2, T, o in l2)
            R.obligation(bool(st) or mk, "%s:lNFunc.name" % f.sname, "%s gives a native function a name that nothing traced refers to" % f.sname, i.where(), name)
    R.floor("native function names", n, 1)
