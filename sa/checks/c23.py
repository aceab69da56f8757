"""C23: an operator gives the same result as an instruction, a function and a constant."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..natives import natives
from ..vmval import *
from ..emit import Compiler
from ..nuj import Sym, L

RULE = ("For every operation the compiler turns into an instruction, the instruction's compiled handler and the function of the same name (a native, or the standard library's wrapper) are "
        "followed together over the same symbolic operands: on every combination of their paths both must raise an exception or both yield the same type and the same expression.")


def wrapper(C, name):
    """(parameters, operation, operands) of a library function whose body is a single operation"""
    x = C.top.get(Sym(name))
    if x is None or x[0] != Sym("defn"): return None
    body = [y for y in x[3:] if isinstance(y, L)]
    if len(body) != 1 or not isinstance(body[0][0], Sym): return None
    return list(x[2]), str(body[0][0]), list(body[0][1:])


def run():
    R = Report("C23", RULE)
    P, _, _ = setup(prog())
    vm = VM(P); C = Compiler()
    tab = table(C)
    R.floor("operations with an instruction", len(tab), 22)
    ns = {}
    for n in natives(P.m):
        if n.kind == "func": ns[n.name] = n
    A = A0 = Ops(vm, inline={n for n in P.m.defs if n in ("lTypecast", "requireFloat", "requireInt", "lValFloat", "lValInt", "castToBool", "castToInt", "lnfInt", "lnfFloat")} | helpers(P, ns, tab))
    AW = Ops(vm, inline=A0.inline | {"lValEqual"})             # wrappers may be built on another instruction
    tags = ["ltInt", "ltFloat", "ltNil"]
    done = 0
    for (name, n), code in sorted(tab.items()):
        R.functions.add(name)
        A = A0 if name in ns else AW
        if name in ns:
            N = ns[name]
            if N.nv == 0 and stub(A, N.fn): continue
            def go():
                ops = [A.operand(k) for k in range(n)]
                for t, v in ops: A.known_tags(tags, t)
                a = A.native(N.fn, ops + [(A.T["ltNil"], 0)] * (N.nv - n) if N.nv > n else ops[:N.nv])
                b = A.op(code, ops)
                kinds = [next((x[2:].lower() for x in tags if A.norm(t) == A.T[x]), "other") for t, v in ops]
                return judge(A, a, b, n, kinds)
            where = "lib/vm.c"; what = "the function %s" % N.fn
        else:
            w = wrapper(C, name)
            if not R.obligation(w is not None or name == "throw", "no function %s" % name, "%s is an instruction but no function with one operation" % name, "stdlib"): continue
            if w is None: continue
            ps, op, args = w
            c2 = tab.get((op, len(args)))
            if not R.obligation(c2 is not None and len(ps) == n, "wrapper %s" % name, "the function %s is not made of an instruction with as many parameters" % name, C.where[Sym(name)][0], name): continue
            def go():
                ops = [A.operand(k) for k in range(n)]
                for t, v in ops: A.known_tags(tags, t)
                env = {str(p): o for p, o in zip(ps, ops)}
                vals = []
                for x in args:
                    if isinstance(x, Sym): vals.append(env[str(x)])
                    elif x is None or isinstance(x, L) and not x: vals.append((A.T["ltNil"], 0))
                    elif isinstance(x, bool): vals.append((A.T["ltBool"], int(x)))
                    elif isinstance(x, int): vals.append((A.T["ltInt"], x))
                    else: raise AnalysisBroken("operand %r of %s" % (x, name))
                a = A.op(c2, vals)[:3]
                b = A.op(code, ops)
                kinds = [next((x[2:].lower() for x in tags if A.norm(t) == A.T[x]), "other") for t, v in ops]
                return judge(A, a, b, n, kinds)
            where = C.where[Sym(name)][0]; what = "the function"
        k = 0
        for p in A.paths(go):
            if p.kind != "ret": continue
            k += 1
            m, kinds = p.ret
            R.obligation(m is None, "%s %s: %s" % (name, " ".join(kinds), m), "(%s %s): %s (instruction against %s)" % (name, " ".join(kinds), m, what), where, name)
        R.floor("paths of %s" % name, k, 1)
        done += k
    R.floor("paths compared", done, 150)
    return R.finish()


def helpers(P, ns, tab):
    """static helpers the natives call"""
    out = set()
    for (name, n) in tab:
        if name in ns and ns[name].fn in P.m.defs:
            for i in P.m.defs[ns[name].fn].calls():
                c = i.cname()
                if c in P.m.defs and not c.startswith("lValException"): out.add(c)
    return out


def stub(A, fn):
    return all(p.kind == "ret" and p.ret[0] == "throw" for p in A.paths(lambda: A.native(fn, [])))


def judge(A, a, b, n, kinds):
    if b[0] not in ("value", "throw"): return "the instruction ends with %s" % b[0], kinds
    if b[0] == "value" and b[3] != 1: return "the instruction leaves %d values" % b[3], kinds
    if a[0] != b[0]: return ("only the instruction raises an exception" if b[0] == "throw" else "only the function raises an exception"), kinds
    if a[0] == "throw": return None, kinds
    for who, v in (("instruction", b[2]), ("function", a[2])):
        if not shifts(A, v): return "the %s shifts by a distance that is not limited to the width of an integer" % who, kinds
    if eq_value(A, a[1:3], b[1:3]): return None, kinds
    return "the results differ: %s and %s" % (show(A, b[1:3]), show(A, a[1:3])), kinds


def shifts(A, v):
    """every shift in the expression is by less than 64"""
    v = A.norm(v)
    if isinstance(v, Ptr): return True
    if not isinstance(v, S): return True
    if v.k[0] in ("shl", "lshr", "ashr"):
        d = A.norm(v.k[2]); lo, hi = A.rng(d, "u", v.w)
        if isinstance(d, S) and d.k[0] == "and" and any(isinstance(x, int) and 0 <= x < v.w for x in d.k[1:]): hi = v.w - 1
        if hi >= v.w: return False
    return all(shifts(A, x) for x in v.k[1:] if isinstance(x, S))


def show(A, v):
    t = {x: k[2:].lower() for k, x in A.T.items()}.get(v[0], "?")
    return t if t == "nil" else "%s %s" % (t, short(v[1]))


def short(v):
    if isinstance(v, S):
        k = v.k
        if k[0] == "opnd": return "ab"[k[1]] if k[1] < 2 else "c"
        return "%s(%s)" % (k[0] if k[0] != "res" else k[1], ", ".join(short(x) for x in (k[1:] if k[0] != "res" else k[2:])))
    return str(v)
