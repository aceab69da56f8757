"""C26: the comparison operators describe one order."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..vmval import *
from ..emit import Compiler

RULE = ("The six comparison instructions are followed together, on the same pair of symbolic operands and on the swapped pair, through the compiled handlers and the comparison functions they "
        "call. On every combination of paths: < and > are each other's mirror image, <= is the negation of > and >= the negation of <, = is symmetric, not= its negation, and of two numbers, strings or "
        "symbols exactly one of <, = and > holds. An integer compared with a float takes part with double precision.")

LEN = 2      # strings and names of up to this many characters; every character is symbolic


class Cmp(Ops):
    """texts of a chosen length"""
    def text(s, t, v):
        """choose the length of a string"""
        if t == s.T["ltString"]:
            b = s.ptr(v); f = {x["n"]: x for x in s.m.struct("lBuffer")["fields"]}
            s.store(Ptr(b.b, b.o + f["length"]["o"]), s.choose(LEN + 1), f["length"]["s"])

    def textlen(s, p):
        k = ("size", p.b, p.o)
        if k not in s.sizes: s.sizes[k] = s.choose(LEN + 1)
        return s.sizes[k]

    def bytecmp(s, a, b, n):
        for k in range(n):
            x, y = s.load(Ptr(a.b, a.o + k), 1), s.load(Ptr(b.b, b.o + k), 1)
            if not s.same(x, y, 8): return -1 if s.decide("ult", x, y, 8) else 1
        return 0

    def model(s, F, i, n, args):
        if n in ("strlen", "strnlen"):
            k = s.textlen(s.ptr(args[0]))
            return (k if n == "strlen" or not isinstance(args[1], int) else min(k, args[1]),)
        if n in ("strcmp", "strncmp"):
            a, b = s.ptr(args[0]), s.ptr(args[1]); k, l = s.textlen(a), s.textlen(b)
            if n == "strncmp" and isinstance(args[2], int): k, l = min(k, args[2]), min(l, args[2])
            r = s.bytecmp(a, b, min(k, l))
            return (r or (k > l) - (k < l),)
        if n in ("memcmp", "bcmp") and isinstance(args[2], int): return (s.bytecmp(s.ptr(args[0]), s.ptr(args[1]), args[2]),)
        return super().model(F, i, n, args)


OPS = ("<", "<=", "=", ">=", ">", "not=")


def run():
    R = Report("C26", RULE)
    P, _, _ = setup(prog())
    vm = VM(P); C = Compiler()
    tab = table(C)
    for n in OPS: R.obligation((n, 2) in tab, "no instruction %s" % n, "%s is not compiled to an instruction" % n, "stdlib")
    seen = set(); todo = ["lValGreater", "lValEqual"]
    A = Cmp(vm); A.visits = 12
    # everything the comparison handlers call is followed
    closure = set()
    def reach(n):
        f = P.m.defs.get(n)
        if f is None or n in closure or n.startswith("lValException"): return
        closure.add(n)
        for i in f.calls():
            if i.cname(): reach(i.cname())
    for n in OPS:
        for e in direct(A, vm, tab[(n, 2)]): reach(e)
    A.inline = closure
    R.functions |= closure
    T = A.T; comparable = ["ltInt", "ltFloat", "ltString", "ltSymbol", "ltKeyword"]
    npath = {}
    for ta in comparable + [None]:
        for tb in comparable + [None]:
            def go():
                A.sizes = {}
                a = A.operand(0, T[ta] if ta else None); b = A.operand(1, T[tb] if tb else None)
                if not ta or not tb:
                    for t in comparable:
                        if not ta and A.same(a[0], T[t], 16): raise Cut()
                        if not tb and A.same(b[0], T[t], 16): raise Cut()
                return judge(A, tab, a, b, ta, tb)
            k = 0
            for p in A.paths(go):
                if p.kind != "ret": continue
                k += 1; m = p.ret
                kind = "%s and %s" % (ta[2:].lower() if ta else "other", tb[2:].lower() if tb else "other")
                R.obligation(m is None, "%s: %s" % (kind, m), "comparing %s: %s" % (kind, m), "lib/val.c")
            npath[(ta, tb)] = k
            R.floor("paths for %s and %s" % (ta, tb), k, 1)
    for t in ("ltInt", "ltFloat", "ltString", "ltSymbol"): R.floor("paths comparing two %s" % t, npath[(t, t)], 2)
    return R.finish()


def direct(A, vm, code):
    """functions an instruction's handler calls"""
    out = set()
    for p in A.paths(lambda: A.op(code, [A.operand(0), A.operand(1)])):
        for e in p.ev:
            if e[0] == "call": out.add(e[1])
    return out


def boolean(A, r):
    """truth of a comparison's result"""
    if r[0] != "value": return None
    if A.norm(r[1]) != A.T["ltBool"]: return None
    x = A.norm(r[2])
    if isinstance(x, int): return x & 255 != 0
    return A.truth(S(("icmp", "ne", A.un("trunc", x, 8, 64), 0, 8), 1))


def judge(A, tab, a, b, ta, tb):
    v = {}
    if ta == tb and ta in ("ltString", "ltSymbol", "ltKeyword"):
        same = A.same(a[1], b[1], 64)
        a, b = [(t, A.norm(x)) for t, x in (a, b)]
        for t, x in (a, b): A.ne.setdefault(x, set()).add(0)         # such a value always has an object
        A.text(*a)
        if not same: A.text(*b)
    for n in OPS:
        v[n] = boolean(A, A.op(tab[(n, 2)], [a, b]))
        if v[n] is None: return "%s does not answer with a truth value" % n
    for n in ("<", ">", "="): v["swapped " + n] = boolean(A, A.op(tab[(n, 2)], [b, a]))
    if narrow(A): return "an integer is rounded to single precision before it is compared"
    if v["<"] != v["swapped >"]: return "a < b but not b > a" if v["<"] else "b > a but not a < b"
    if v[">"] != v["swapped <"]: return "a > b but not b < a" if v[">"] else "b < a but not a > b"
    if v["="] != v["swapped ="]: return "= is not symmetric"
    if v["not="] == v["="]: return "not= is not the opposite of ="
    if v["<="] == v[">"]: return "<= is not the opposite of >"
    if v[">="] == v["<"]: return ">= is not the opposite of <"
    if v["<"] and v[">"]: return "a < b and a > b"
    num = ("ltInt", "ltFloat"); sym = ("ltSymbol", "ltKeyword")
    if v["="] and (v["<"] or v[">"]): return "equal values are ordered"
    if ta == tb and ta in num + ("ltString",) or ta in num and tb in num:
        if not (v["<"] or v["="] or v[">"]): return "neither a < b, nor a = b, nor a > b"
    if ta is None or tb is None or (ta != tb and not (ta in num and tb in num)):
        if v["<"] or v[">"]: return "values that cannot be compared are ordered"
    return None


def narrow(A):
    """a payload was converted to a 32-bit float on this path"""
    def has(x):
        if not isinstance(x, S): return False
        if x.k[0] in ("sitofp", "fptrunc") and x.w == 32: return True
        return any(has(y) for y in x.k[1:])
    return any(has(x) for k in A.cmp for x in k[1:])
