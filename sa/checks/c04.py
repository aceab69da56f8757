"""C04: a value's payload is only interpreted as a type its tag admits (and values are built consistently)."""
from ..report import Report, prog
from ..r_tags import setup, uses, PTRTAGS
from ..build import AnalysisBroken

RULE = ("For every use of a value's payload in the resolved program (dereference, integer/float arithmetic, passing it as a typed pointer) a forward "
        "tag-set dataflow (branch edges, switches, callee return summaries, native self classes, caller argument sets) must show that the value's tag "
        "is one that has this payload; for every value constructed with a constant tag the payload's declared pointer type must belong to that tag.")

LITS_OK = ("lSymbol",)


def run():
    R = Report("C04", RULE, "proof" if False else "other")
    m = prog()
    P, nats, par = setup(m)
    T = P.T; inv = P.inv
    nuse = 0
    for name in sorted(m.defs):
        f = m.defs[name]
        if f.ai and not P.callers(name) and not f.taken: continue     # fully inlined helper: judged in its callers
        fa = P.f(name)
        for i, o, kind, d in uses(P, fa):
            o = fa.strip(o)
            if o[0] not in ("ins", "arg"): continue
            need = needed(P, fa, i, o, kind, d)
            if need is None: continue
            need = {T[x] for x in need if x in T}
            what = use_name(i, kind, d)
            ts = fa.pair_tags(o, i)
            if ts is None:
                lt = fa.loose_tag(o, [{T[x] for x in g} for g in GROUPS])
                if lt is not None: ts = fa.tags(lt, i.blk)
            if ts is not None: cand = [(o, ts)]
            else: cand = [(v, fa.pair_tags_edge(v, b, t) if b is not None else fa.pair_tags(v, i)) for v, b, t in fa.mixed(o)]
            for v, ts in cand:
                if ts is None: continue
                nuse += 1
                extra = ts - need
                if extra and (literal(P, fa, v, kind, d) or parameter_name(P, fa, v, kind, d)): extra = ()
                if extra and correlated(fa, o, i, need): extra = ()
                key = "%s:%s:%s" % (f.sname, origin(fa, v), what)
                R.obligation(not extra, key, "%s: %s used as %s although its tag may be %s" % (f.sname, origin(fa, v), what, names(inv, extra)), i.where(), name)
        rebuilt(R, P, fa, name, f)
    R.floor("payload uses", nuse, 500)
    R.floor("rebuilt values", R.counts.get("rebuilt values", 0), 300)
    R.counts["natives"] = len(nats)
    receiver(R, m, P)
    parameter_lists(R, m, P)
    return R.finish()


GROUPS = [("ltSymbol", "ltKeyword"), ("ltString", "ltBuffer"), ("ltLambda", "ltMacro", "ltEnvironment"), ("ltPair", "ltException", "ltNil")]


def rebuilt(R, P, fa, name, f):
    """values put together from a constant tag and another value's payload: that value must have the tag (or one with the same payload)"""
    T = P.T
    for i in f.instrs():
        cand = []
        if i.op == "insertvalue" and i.ix == 1 and i.ty == "{ i16, i64 }": cand.append((fa.agg_part(i.ops[0], 0), i.ops[1]))
        elif i.op == "call" and i.cname() in P.m.defs:
            cand += [(i.ops[t], i.ops[p]) for t, p, _ in P.lval_params(P.m.defs[i.cname()]) if p is not None]
        elif i.op == "store" and fa.klass(i)[:2] == ("lVal", 8):
            a = fa.addr(i.ops[1])
            cand += [(j.ops[0], i.ops[0]) for j in f.blocks[i.blk] if j.op == "store" and fa.klass(j)[:2] == ("lVal", 0) and fa.addr(j.ops[1]).key() == (a.root, a.off - 8, a.var)]
        for tg, pl in cand:
            if pl[0] not in ("ins", "arg"): continue
            ts = fa.pair_tags(pl, i)
            if ts is None: continue
            R.count("rebuilt values")
            tt = fa.tags(tg, i.blk)
            if len(tt) != 1 or list(tt)[0] not in P.inv: continue
            t = P.inv[list(tt)[0]]
            if t == "ltNil": continue
            ok = {T[t]}
            for g in GROUPS:
                if t in g: ok |= {T[x] for x in g}
            R.obligation(not ts - ok, "%s:%s relabelled %s" % (f.sname, origin(fa, pl), t), "%s: the payload of %s becomes a value of type %s although its own type may be %s"
                         % (f.sname, origin(fa, pl), t, names(P.inv, ts - ok)), i.where(), name)


def names(inv, ts):
    l = [inv.get(x, str(x)) for x in sorted(ts)]
    return ", ".join(l[:8]) + (" ..." if len(l) > 8 else "")


def needed(P, fa, i, o, kind, d):
    if kind == "deref":
        if d in PTRTAGS: return PTRTAGS[d]
        if d in (None, "lVal"): return ("ltPair", "ltException")
        return ()
    if kind == "int":
        if i.op in ("sub",) and pointerdiff(fa, i): return None
        return ("ltInt",)
    if kind == "trunc": return ("ltInt", "ltBool") if d in ("i1", "i8") else ("ltInt",)
    if kind == "field":
        if d[0] == "num": return ("ltInt", "ltBool")
        return PTRTAGS.get(d[1], ("ltFileHandle",) if d[1] == "FILE" else None if d[1] in ("void", "char", "u8", "unsigned char") else ())
    if kind == "return": return PTRTAGS.get(d, ("ltFileHandle",) if d == "FILE" else None)
    if kind == "float": return ("ltFloat",)
    if kind == "passptr":
        if d[1] == "lVal" or d[1] is None or d[1] == "void": return None
        return PTRTAGS.get(d[1], ("ltFileHandle",) if d[1] == "FILE" else ())
    return None


def pointerdiff(fa, i):
    return any(o[0] == "glob" or (o[0] == "ins" and fa.f.ins[o[1]].op == "ptrtoint" and fa.strip(o)[0] == "glob") for o in i.ops)


def use_name(i, kind, d):
    if kind == "deref": return "a pointer to %s" % (d or "lPair")
    if kind == "int": return "an integer (%s)" % d
    if kind == "float": return "a float"
    if kind == "trunc": return "a number (%s)" % d
    if kind == "return": return "the %s* returned" % d
    if kind == "field": return "the %s at %s+%d" % ("%s*" % d[1] if d[1] else "number", d[2], d[3])
    return "%s* argument of %s" % (d[1], d[0])


def origin(fa, o):
    """line-independent description of where a payload comes from"""
    n = fa.f.var(o)
    if o[0] == "arg":
        for t, p, pos in fa.p.lval_params(fa.f):
            if p == o[1]: return "parameter %d" % (pos + 1)
    i = fa.f.define(o)
    if i is not None:
        if i.op == "load":
            a = fa.access(i)
            return "value in %s+%d" % (a.st or "memory", a.so - a.so % 8) if a.st else "value in memory"
        if i.op == "extractvalue":
            s = fa.f.define(i.ops[0])
            if s is not None and s.op == "call": return "result of %s" % (s.cname() or "indirect call")
        if i.op == "phi": return "variable"
    return n or "value"


def literal(P, fa, o, kind, d):
    """a literal of compiled code used as a symbol: guaranteed by the assembler, not checked by the VM"""
    i = fa.f.define(o)
    if i is None or i.op != "load": return False
    if not (kind == "passptr" and d[1] in LITS_OK or kind == "int" and d == "icmp"): return False
    return from_literals(fa, fa.addr(i.ops[0]).root)


def leaves(fa, root):
    """the non-phi values a pointer may come from"""
    work = [root]; seen = set(); out = []
    while work:
        o = fa.canon(work.pop())
        if o in seen: continue
        seen.add(o)
        i = fa.f.define(o)
        if i is not None and i.op == "phi": work += [v for v, _b in i.inc]
        elif i is not None and i.op == "getelementptr": work.append(fa.addr(o).root)
        elif o[0] != "undef": out.append(o)
    return out


def from_literals(fa, root):
    """does a pointer come only from the literal table of a bytecode array?"""
    ls = leaves(fa, root)
    for o in ls:
        i = fa.f.define(o)
        if i is None or i.op != "load" or fa.klass(i)[:3] != ("fld", "lArray", 0): return False
        for q in leaves(fa, fa.addr(i.ops[0]).root):
            b = fa.f.define(q)
            if b is None or b.op != "load" or fa.klass(b)[:3] != ("fld", "lBytecodeArray", 8): return False
    return bool(ls)


def receiver(R, m, P):
    """method lookup: the class a method is taken from is the class of the receiver it is called on"""
    T = P.T
    n = 0
    for name, f in m.defs.items():
        fa = None
        lv = P.lval_params(f)
        if not lv or f.ret != "{ i16, i64 }": continue
        # functions that read a class's method tree and are handed a receiver
        loads = [i for i in f.instrs() if i.op == "load" and (fa or P.f(name)).klass(i) == ("fld", "lClass", 16)]
        if not loads or f.taken: continue
        fa = P.f(name)
        for i in f.calls(name):
            for t, p, _pos in lv:
                if i.ops[t] == ("arg", t): continue
                n += 1
                mine = fa.tags(("arg", t), i.blk); his = fa.tags(i.ops[t], i.blk)
                R.obligation(len(mine) == 1 and his == mine, "%s:lookup on another receiver" % f.sname,
                             "%s continues the lookup on a value whose type (%s) can differ from the receiver's (%s): its methods would run on a receiver of the wrong type"
                             % (f.sname, names(P.inv, his), names(P.inv, mine)), i.where(), name)
    R.counts["delegated lookups"] = n


ARGS = ("lVal", 8, "lClosure", 40); CAR = ("lVal", 8, "lPair", 0); CDR = ("lVal", 8, "lPair", 16)


def correlated(fa, o, use, need):
    """the payload is a loop variable, and whenever it is of another type some tag kept along with it has a value that is ruled out at the use
    (a list's end and its beginning: the end is a pair unless the beginning is nil)"""
    f = fa.f; o = fa.canon(o); d = f.define(o)
    if d is None or d.op != "phi": return False

    def tags(q, b, t):
        r = fa.tags(q, b)
        e = fa.edge_set(b, t, fa.tagkey(q))
        return r if e is None else r & e

    def fine(p, b, t):
        ts = fa.pair_tags_edge(p, b, t)
        return ts is not None and ts <= need

    def implied(P, Q, allowed, p, q, b, t, seen):
        if fine(p, b, t): return True
        p, q = fa.canon(p), fa.canon(q)
        if (p, q) == (P, Q) or not tags(q, b, t) & allowed: return True
        if (p, q, b, t) in seen: return False
        dp, dq = f.define(p), f.define(q)
        blk = [x.blk for x in (dp, dq) if x is not None and x.op == "phi" and f.dominates(x.blk, b) and x.blk != d.blk]
        for m in sorted(set(blk), key=lambda x: -len(f.blocks[x])):
            if any(x is not None and x.blk != m and x.op != "phi" and not f.dominates(x.blk, m) for x in (dp, dq)): continue
            if all(implied(P, Q, allowed, *[next(v for v, y in x.inc if y == pb) if x is not None and x.op == "phi" and x.blk == m else w for w, x in ((p, dp), (q, dq))],
                           pb, m, seen | {(p, q, b, t)}) for pb in f.pred[m]): return True
        return False

    for j in f.blocks[d.blk]:
        if j.op != "phi": break
        if j.ty != "i16": continue
        Q = ("ins", j.id); allowed = fa.tags(Q, use.blk)
        if allowed >= fa.tags(Q, d.blk): continue
        if all(implied(o, Q, allowed, p, next(v for v, y in j.inc if y == b), b, d.blk, frozenset()) for p, b in d.inc): return True
    return False


def parameter_name(P, fa, o, kind, d):
    """an element of a function's parameter list, used as the symbol it is (parameter_lists proves that)"""
    if not (kind == "passptr" and d[1] == "lSymbol"): return False
    i = fa.f.define(o)
    if i is None or i.op != "load" or fa.klass(i) != CAR: return False
    work = [fa.addr(i.ops[0]).root]; seen = set()
    while work:
        r = work.pop()
        if r in seen: continue
        seen.add(r)
        for x in leaves(fa, r):
            l = fa.f.define(x)
            if l is None or l.op != "load": return False
            k = fa.klass(l)
            if k == CDR: work.append(fa.addr(l.ops[0]).root)
            elif k != ARGS: return False
    return True


def parameter_lists(R, m, P):
    """parameter lists put into a closure outside of the image loader are lists of symbols: a loop over the list
    that leaves early on any other element precedes the store"""
    T = P.T; n = 0
    for name, f in m.defs.items():
        if f.ai and not P.callers(name) and not f.taken: continue
        if f.file.endswith("imageReader.c"): continue
        fa = P.f(name)
        for i in f.instrs():
            if i.op != "store" or fa.klass(i) != ARGS: continue
            v = fa.canon(i.ops[0])
            if v[0] == "int": continue
            n += 1
            R.obligation(validated(fa, v, i, T), "%s:unvalidated parameter list" % f.sname,
                         "%s stores a parameter list into a closure without having checked that all its elements are symbols" % f.sname, i.where(), name)
    R.counts["stored parameter lists"] = n


def validated(fa, v, st, T):
    f = fa.f
    for b in f.rpo:
        if not f.dominates(b, st.blk): continue
        for p in f.blocks[b]:
            if p.op != "phi": break
            ins = [(fa.canon(x), blk) for x, blk in p.inc]
            if not any(x == v for x, _ in ins): continue
            back = [(x, blk) for x, blk in ins if x != v]
            me = ("ins", p.id)
            if not back or not all(is_cdr(fa, x, me) for x, _ in back): continue
            cars = [l for l in f.instrs() if l.op == "load" and fa.klass(l) == ("lVal", 0, "lPair", 0) and fa.addr(l.ops[0]).root == me]
            ok = all(any(fa.tags(("ins", l.id), blk) <= {T["ltSymbol"], T["ltNil"]} for l in cars) for _, blk in back)
            tagphi = [q for q in f.blocks[b] if q.op == "phi" and q.ty == "i16"]
            done = any(T["ltPair"] not in fa.tags(("ins", q.id), st.blk) and T["ltPair"] in fa.tags(("ins", q.id), b) for q in tagphi)
            if ok and done: return True
    return False


def is_cdr(fa, x, me):
    l = fa.f.define(x)
    return l is not None and l.op == "load" and fa.klass(l) == CDR and fa.addr(l.ops[0]).root == me
