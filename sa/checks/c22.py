"""C22: the reader stays within its source text."""
from ..report import Report, prog
from ..r_tags import setup
from ..cursor import Cursor
from ..strend import Ends
from ..heapmem import Heap
from ..bounds import sub, add
from .c05 import typesizes, Check

RULE = ("The position of every pointer into the source text is followed through every function of the reader, with the terminating zero byte as the last byte that may be looked at: every load through such a pointer, and "
        "every call that is given one, is shown to be within the text. Accesses to arrays of fixed size and to memory allocated for a literal are shown to be within them by linear arithmetic over dominating branches and loop invariants. Comparisons with the ends of the text and tests of bytes that exclude zero are what bounds a position; recursive calls are solved as a fixpoint. "
        "Every call of the reader passes a text with at most its own length, and whatever sets the contents of a string sets the byte behind them to zero.")


class Local(Check):
    """accesses to arrays of fixed size, and to memory allocated for one literal, within the reader"""
    ended = False
    def scope(s):
        for name, f in sorted(s.P.m.defs.items()):
            if f.file == "lib/reader.c": yield name, f

    def arrays(s, f, k):
        """a caller hands on an array of its own as parameter k"""
        for c in s.P.callers(f.name):
            a = c.ops[k]; h = s.heap(c.fn.name); d = c.fn.define(h.base(a))
            if d is not None and d.op == "alloca" and "[" in str(d.aty): return True
            if h.base(a)[0] == "arg" and c.fn.name != f.name and s.arrays(c.fn, h.base(a)[1]): return True
        return False

    def relevant(s, h, i, p, n, seen=()):
        k = super().relevant(h, i, p, n, seen); b = h.base(p)
        if k == "local buffer" or k == "memory behind a parameter" and b[0] == "arg" and s.arrays(h.f, b[1]): return k
        if k == "allocated memory" and not s.kept(h.f, b): return k
        return None

    def kept(s, f, o, seen=None):
        """memory kept in a global between calls"""
        seen = seen if seen is not None else set()
        d = f.define(o)
        if o in seen or d is None: return False
        seen.add(o)
        if d.op == "load": return d.ops[0][0] == "glob"
        if d.op in ("phi", "select"): return any(s.kept(f, v, seen) for v in ([v for v, _ in d.inc] if d.op == "phi" else d.ops[1:]))
        return d.op in ("getelementptr", "bitcast") and s.kept(f, d.ops[0], seen)

    def calls(s, f, h): return [x for x in super().calls(f, h) if x[1] in s.pre]


def run():
    m = prog(("lBufferViewTypeSize",)); P = setup(m)[0]; R = Report("C22", RULE)
    ts = typesizes(P); E = Ends(P, ts, m.enum("lType")["ltString"])
    C = Cursor(m); C.prover = E.heap; C.run()
    n = 0; ob = {}
    for (fn, _), o in C.obs.items():
        for iid, (i, ok, msg) in o.items():
            if iid not in ob.setdefault(fn, {}) or not ok: ob[fn][iid] = (i, ok, msg)
    for fn in sorted(ob):
        f = m.fns[fn]; nth = {}
        for iid, (i, ok, msg) in sorted(ob[fn].items(), key=lambda kv: (kv[1][0].blk, kv[1][0].pos)):
            n += 1
            own = i.loc[0][2] if i.loc else f.sname
            k = (f.sname, own, msg.split(" may ")[0].split(" with ")[0]); nth[k] = nth.get(k, 0) + 1
            R.obligation(ok, "%s: %s in %s #%d" % (f.sname, k[2], own, nth[k]), "%s: %s" % (f.sname, msg), i.where(), fn)
    R.count("functions that handle source text", len(C.nfun))
    R.floor("accesses to source text", n, 40)
    f = C.root; h = E.heap(f.name); t = C.textarg(f); ln = next(k for k, ty in enumerate(f.argtys) if ty in ("i64", "i32"))
    d = sub(h.val(C.endval, h.hyps(0)), add(h.val(("arg", t), h.hyps(0)), h.val(("arg", ln), h.hyps(0))))
    R.obligation(E.eq(h, d, h.hyps(0), 0), "%s: end of the text" % f.sname, "%s: the end of the text is not the start plus the length" % f.sname, "%s:%d" % (f.file, f.line), f.name)
    k = 0
    for ok, i, name in E.texts(f.name, t, ln):
        k += 1
        R.obligation(ok, "%s: call of %s" % (m.fns[name].sname, f.sname), "%s: the length given to %s is not shown to be at most that of the text" % (m.fns[name].sname, f.sname), i.where(), name)
    R.floor("calls of the reader", k, 2)
    L = Local(P, R); kinds = L.run()
    R.floor("accesses to arrays of the reader", sum(kinds.values()), 2)
    E.run(); nth = {}
    for ok, key, i, name in E.out:
        nth[key] = nth.get(key, 0) + 1
        R.obligation(ok, "%s #%d" % (key, nth[key]), "%s: the byte behind the contents is not set to zero" % key, i.where(), name)
    R.floor("places that make strings", E.n, 4)
    R.assumptions = ["strings are shorter than 2^31", "contents of strings that stay in an image are followed by what the image writer put there"]
    return R.finish()
