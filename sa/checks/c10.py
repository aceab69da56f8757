"""C10: memory, files, processes, directories and sockets are released exactly once."""
from ..report import Report, prog
from ..r_tags import setup
from ..own import Analysis, Own, RELEASE, ACQUIRE, FDS
from ..build import AnalysisBroken

RULE = ("Path-sensitive ownership typestate over the compiled functions: every block of memory, file, process, directory, socket and address list acquired on a path is released once, or handed on (returned, stored in an "
        "object, passed to a function that keeps it) on every way to every return; nothing is used, released again or released in the wrong manner after its release; a pointer released but held by an object or by the "
        "caller is overwritten before the function ends. Memory owned by a kind of object (fields found from the stores of owned blocks) is released by the finalizer of that kind on every path, "
        "except for objects marked as not owning it, and those marks are set wherever a foreign pointer is stored.")


def strip(f, o):
    """(operand, negated) behind a chain of truth-value conversions"""
    neg = False
    for _ in range(20):
        if o[0] != "ins": break
        d = f.ins[o[1]]
        if d.op in ("zext", "sext", "trunc", "freeze"): o = d.ops[0]
        elif d.op == "xor" and d.ops[1][0] == "int": neg = not neg; o = d.ops[0]
        elif d.op == "icmp" and d.ops[1][:2] == ("int", 0) and d.pred in ("eq", "ne"):
            if d.pred == "eq": neg = not neg
            o = d.ops[0]
        elif d.op == "call" and (d.cname() or "").startswith("llvm.expect"): o = d.ops[0]
        else: break
    return o, neg


class Check:
    def __init__(s, P, R):
        s.P = P; s.m = P.m; s.R = R; s.A = Analysis(P)

    def flagtest(s, f, o):
        """(mask, base class, truth when the condition holds) of a test of flag bits of an object"""
        fa = s.P.f(f.name)
        o, neg = strip(f, o)
        d = f.define(o)
        if d is None or d.op != "and" or d.ops[1][0] != "int": return None
        x, _ = d.ops[0], 0
        while x[0] == "ins" and f.ins[x[1]].op in ("zext", "sext", "trunc"): x = f.ins[x[1]].ops[0]
        l = f.define(x)
        if l is None or l.op != "load": return None
        k = fa.klass(l)
        if k[0] != "fld" or s.name(k) != "flags": return None
        return d.ops[1][1], k[1], not neg

    def name(s, k):
        for fl in s.m.structs.get(k[1], s.m.typedefs.get(k[1], {"fields": []}))["fields"]:
            if fl["o"] == k[2]: return fl["n"]
        return None

    # --------------------------------------------------------------- owner fields
    def owners(s):
        """{field: [(function, store, owned)]} of the fields that ever get a block of memory to own"""
        out = {}
        for n, o in s.runs.items():
            fa = s.P.f(n)
            if o.finalizer: continue
            for i, how in o.owners:
                k = fa.klass(i)
                if k[0] == "fld" and k[1] in s.heap: out.setdefault(k, {}).setdefault((n, i.id), set()).add(how)
        return {k: v for k, v in out.items() if any("owned" in h for h in v.values())}

    def finalizers(s):
        """{struct: functions that put an object of it on the free list}"""
        out = {}
        for n, f in s.m.defs.items():
            if not f.dtypes or len(f.argtys) != 1: continue
            if any(i.op == "store" and i.ops[0] == ("arg", 0) and i.ops[1][0] == "glob" and i.ops[1][1].endswith("FFree") for i in f.instrs()):
                out.setdefault(f.dtypes[1].rstrip("*").strip(), []).append(n)
        return out

    def marks(s, n, st, k):
        """flag bits set in the same object whenever the store happens"""
        f = s.m.fns[n]; fa = s.P.f(n); bits = 0
        base = fa.access(st).root
        for i in f.instrs():
            if i.op != "store" or i.blk != st.blk and not f.dominates(i.blk, st.blk): continue
            kk = fa.klass(i)
            if kk[0] != "fld" or kk[1] != k[1] or s.name(kk) != "flags" or fa.access(i).root != base: continue
            o = i.ops[0]
            while o[0] == "ins" and f.ins[o[1]].op in ("zext", "sext", "trunc"): o = f.ins[o[1]].ops[0]
            d = f.define(o)
            if o[0] == "int": bits |= o[1]
            elif d is not None and d.op == "or":
                for x in d.ops:
                    if x[0] == "int": bits |= x[1]
        return bits

    def paths(s, f):
        """(facts about flags, released operands, ret) of every path through a small acyclic function"""
        out = []
        def go(b, facts, rel, depth):
            if depth > 60: raise AnalysisBroken("%s: finalizer has loops" % f.name)
            rel = rel + [i for i in f.blocks[b] if i.op == "call" and i.cname() == "free"]
            t = f.blocks[b][-1]
            if t.op == "ret": out.append((facts, rel)); return
            if t.op == "br" and len(t.ops) == 3:
                ft = s.flagtest(f, t.ops[0])
                for tgt, truth in ((t.ops[2][1], True), (t.ops[1][1], False)):
                    fc = dict(facts)
                    if ft:
                        v = truth == ft[2]
                        if fc.get(ft[0], v) != v: continue
                        fc[ft[0]] = v
                    go(tgt, fc, rel, depth + 1)
                return
            for x in f.succ[b]: go(x, facts, rel, depth + 1)
        go(0, {}, [], 0)
        return out

    def guard(s, f, i):
        """masks of flag tests known to be false where i runs"""
        out = 0
        b = i.blk
        while b != 0 and b in f.idom:
            if len(f.pred[b]) == 1:
                t = f.blocks[f.pred[b][0]][-1]
                if t.op == "br" and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
                    ft = s.flagtest(f, t.ops[0])
                    if ft and (t.ops[2][1] == b) != ft[2]: out |= ft[0]
            b = f.idom[b]
        return out

    def run(s):
        R = s.R; A = s.A; m = s.m
        names = [n for n in sorted(m.defs) if A.resourceful(n)]
        s.runs = {}
        for n in names: s.runs[n] = A.fn(n)
        sites = rels = 0
        for n in names:
            o = s.runs[n]; f = m.fns[n]
            bad = {}
            for (k, site, kind), i in o.out.items():
                if k.startswith(("used without", "failure")): continue
                bad.setdefault(site, []).append((k, kind, i))
            for site, i in o.sites.items():
                sites += 1
                b = bad.pop(site, [])
                for k, kind, j in b or [(None, None, None)]:
                    R.obligation(k is None, "%s: %s #%d%s" % (f.sname, site[0], site[1], " " + k if k else ""), "%s: %s acquired by %s is %s" % (f.sname, kind, site[0], k) if k else "", (j or i).where() if k is None else i.where() + " -> " + j.where(), n)
            for i in f.instrs():
                if i.op == "call" and (i.cname() in RELEASE or i.cname() == "realloc"):
                    rels += 1
                    site = (i.cname(), A.nth(f, i)); b = bad.pop(site, [])
                    for k, kind, j in b or [(None, None, None)]:
                        R.obligation(k is None, "%s: %s #%d%s" % (f.sname, site[0], site[1], " " + k if k else ""), "%s: %s passed to %s is %s" % (f.sname, kind, site[0], k) if k else "", i.where() if k is None else i.where() + " -> " + j.where(), n)
            for site, b in bad.items():
                for k, kind, j in b: R.obligation(False, "%s: %s %s" % (f.sname, site and site[0], k), "%s: %s %s" % (f.sname, kind or "resource", k), j.where(), n)
        R.floor("places that acquire a resource", sites, 20); R.floor("places that release one", rels, 25)
        # ------------------------------------------------- objects that own memory
        fin = s.finalizers()
        s.heap = set(fin)
        # functions that store a block handed to them
        for n, f in sorted(m.defs.items()):
            for (g, k), x in list(A._par.items()):
                pass
        own = {}
        for (n, k), x in A._par.items():
            if "E" in x and n not in s.runs: s.runs[n] = Own(A, n, (k,)).run()
        for n, f in m.defs.items():
            if n not in s.runs and any(i.op == "store" and s.P.f(n).klass(i)[0] == "fld" and s.P.f(n).klass(i)[1] in s.heap and i.ops[0][0] != "int" and s.isptr(f, i.ops[0]) for i in f.instrs()):
                s.runs[n] = A.fn(n)
        own = s.owners()
        R.floor("fields that own memory", len(own), 3)
        for k in sorted(own):
            M = 0; nowner = []
            for (n, iid), how in sorted(own[k].items()):
                if "other" in how and "owned" not in how:
                    i = m.fns[n].ins[iid]
                    b = s.marks(n, i, k)
                    nowner.append((n, i, b))
                    M = b if not M else M & b if b else M
            for n, i, b in nowner:
                R.obligation(bool(b & M), "%s: foreign memory in %s.%s" % (m.fns[n].sname, k[1], s.name(k)), "%s: an object is given memory it does not own, without being marked so" % m.fns[n].sname, i.where(), n)
            fs = fin.get(k[1], [])
            R.obligation(bool(fs), "%s: has a finalizer" % k[1], "no finalizer for %s" % k[1])
            for n in fs:
                f = m.fns[n]; fa = s.P.f(n); ok = True; why = ""
                for facts, rel in s.paths(f):
                    did = any(s.releases(fa, f, c, k) for c in rel)
                    foreign = any(v and mask & M for mask, v in facts.items())
                    known = any(not v and mask & M for mask, v in facts.items())
                    if foreign and did: ok = False; why = "memory the object does not own is released"
                    elif not foreign and not did: ok = False; why = "the memory of a dead object is not released"
                    elif did and M and not known: ok = False; why = "memory is released without checking that the object owns it"
                R.obligation(ok, "%s: releases %s.%s" % (f.sname, k[1], s.name(k)), "%s: %s" % (f.sname, why), "%s:%d" % (f.file, f.line), n)
            if not M: continue
            for n in names:
                f = m.fns[n]; fa = s.P.f(n)
                if n in fs: continue
                for i in f.instrs():
                    if i.op == "call" and i.cname() in ("free", "realloc") and s.releases(fa, f, i, k):
                        R.obligation(s.guard(f, i) != 0, "%s: %s of %s.%s guarded" % (f.sname, i.cname(), k[1], s.name(k)), "%s: memory is released that the object may not own" % f.sname, i.where(), n)
        R.counts["fields that own memory are"] = sorted("%s.%s" % (k[1], s.name(k)) for k in own)
        R.counts["paths explored"] = sum(o.n for o in s.runs.values() if o)
        R.assumptions = ["closing a file handle is the program's task: handles are not closed by the garbage collector", "the process releases everything when it ends"]
        return R.finish()

    def isptr(s, f, o):
        if o[0] == "arg": return f.argtys[o[1]] == "ptr"
        return o[0] == "glob" or o[0] == "ins" and f.ins[o[1]].ty == "ptr"

    def releases(s, fa, f, c, k):
        o = fa.canon(c.ops[0]); d = f.define(o)
        return d is not None and d.op == "load" and fa.klass(d) == k


def run():
    m = prog(); P = setup(m)[0]
    return Check(P, Report("C10", RULE)).run()
