"""C20: no missing object is accessed."""
from ..report import Report, prog
from ..r_tags import setup
from ..nullness import Null

RULE = ("Which fields of objects, results, parameters and globals may be missing (null) is inferred for the whole program as a least fixpoint from all stores, allocations, calls and returns. "
        "Every access through a pointer, every indirect call and every pointer handed to a library function that needs it must have the pointer known to be there: by where it comes from, or by the branches on the way. "
        "Every value that is returned, passed or stored with the type of an object must have that object; a lambda must be made of a scope that has code; an exception that reaches the interpreter has a description.")
TAGS = ("ltPair", "ltArray", "ltTree", "ltLambda", "ltMacro", "ltEnvironment", "ltNativeFunc", "ltString", "ltBuffer", "ltBufferView",
        "ltBytecodeArr", "ltSymbol", "ltKeyword", "ltType", "ltFileHandle")


def run():
    m = prog(); P, nats, _ = setup(m); R = Report("C20", RULE)
    N = Null(P, [P.T[t] for t in TAGS])
    acc = vals = ind = 0
    for n in sorted(m.defs):
        fa = P.f(n); f = fa.f; dup = {}
        for i, o, d in N.accesses(fa):
            if fa.local_root(o): continue
            acc += 1
            w = N.nul(fa, o, i.blk)
            R.obligation(not w, "%s: %s: %s" % (f.sname, d, w), "%s: %s through a pointer that may be missing (%s)" % (f.sname, d, w), i.where(), n)
        for i in f.instrs():
            if i.op == "call" and i.cname() is None and i.callee and i.callee[0] in ("ins", "arg"):
                ind += 1
                w = N.nul(fa, i.callee, i.blk)
                R.obligation(not w, "%s: indirect call: %s" % (f.sname, w), "%s: call of a function that may be missing (%s)" % (f.sname, w), i.where(), n)
        for i, t, p, d in N.values(fa):
            vals += 1
            w = N.pair(fa, t, p, i.blk)
            R.obligation(not w, "%s: %s without an object: %s" % (f.sname, d, w), "%s: %s may have the type of an object and no object (%s)" % (f.sname, d, w), i.where(), n)
            w = N.codeless(fa, t, p, i.blk)
            R.obligation(not w, "%s: %s: lambda without code" % (f.sname, d), "%s: %s may be a lambda made of %s" % (f.sname, d, w), i.where(), n)
    ns = 0; nth = {}
    for fa, c, bad in N.scopes():
        ns += 1; nth[fa.f.name] = nth.get(fa.f.name, 0) + 1
        R.obligation(not bad, "%s: scope without code" % fa.f.sname, "%s: a scope that is made without code may be of a kind that is run or called" % fa.f.sname, c.where(), fa.f.name)
    R.floor("scopes made without code", ns, 1)
    bare = N.bare()
    seen = {x.fn for x in nats} | {c.cname() for c in m.fns["lBytecodeEval"].calls()} | {"lBytecodeEval", "lApply"}
    for n in sorted(seen & set(m.defs)):
        if m.fns[n].ret != "{ i16, i64 }": continue
        R.obligation(n not in bare, "%s: exception without a description" % n, "%s: may return an exception without a description to the interpreter (%s)" % (n, bare.get(n)), m.fns[n].file or "", n)
    R.count("fields that may be missing", len(N.fields)); R.count("results that may be missing", len(N.rets) + len(N.cond)); R.count("parameters that may be missing", len(N.params))
    R.floor("accesses through pointers", acc, 2000)
    R.floor("values made or handed on", vals, 400)
    R.floor("indirect calls", ind, 20)
    R.floor("functions returning bare exceptions", len(bare), 1)
    R.assumptions = ["the payload of a value is of the type its tag says (C04) and there (the obligations on values here)",
                     "a scope on the stack of scopes has had its code noted before another one is entered (C25)",
                     "references read from an image are there when they were there as it was written (C16); the image that is part of the program has a root scope",
                     "that a side of a tree node is there when the heights say so (rotations) is decided by C17",
                     "results of allocations and system calls are checked by C11; symbols and other globals set at start are used after it"]
    return R.finish()
