"""C04: no payload of a value is interpreted as a type that the value's tag does not have."""
from .facts import Prog
from .natives import natives, class_parents, self_tags
from .build import AnalysisBroken

PTRTAGS = {
    "lPair": ("ltPair", "ltException"), "lArray": ("ltArray",), "lTreeRoot": ("ltTree",),
    "lClosure": ("ltLambda", "ltMacro", "ltEnvironment"), "lNFunc": ("ltNativeFunc",),
    "lBuffer": ("ltString", "ltBuffer"), "lString": ("ltString", "ltBuffer"), "lBufferView": ("ltBufferView",),
    "lBytecodeArray": ("ltBytecodeArr",), "lSymbol": ("ltSymbol", "ltKeyword"), "lClass": ("ltType",),
}
ARITH = {"add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "shl", "ashr", "lshr", "and", "or", "xor", "sitofp", "uitofp"}


def base_type(dt):
    """'const lSymbol*' -> 'lSymbol'"""
    if dt is None: return None
    t = dt.replace("const ", "").strip()
    if t.endswith("*"): return t[:-1].strip()
    return None


def setup(m):
    """program context with the self-tags of natively registered methods"""
    P = Prog(m)
    T = P.T
    nats = natives(m)
    par = class_parents(m)
    used = {}
    for n in nats: used.setdefault(n.fn, []).append(n)
    for fn, ns in used.items():
        f = m.fns[fn]
        if f.decl: continue
        lv = P.lval_params(f)
        if not lv: continue
        if ns[0].sfx in ("R", "CR"):
            P.param_init[(fn, lv[0][0])] = frozenset([T["ltNil"], T["ltPair"]])
            continue
        if all(n.kind == "method" for n in ns):
            st = frozenset()
            for n in ns: st |= self_tags(m, par, n.cls)
            P.param_init[(fn, lv[0][0])] = st & P.VISIBLE
        elif all(n.kind == "static" for n in ns):
            P.param_init[(fn, lv[0][0])] = frozenset([T["ltType"]])
    return P, nats, par


def uses(P, fa):
    """(ins, payload operand, kind, detail) for every interpretation of a payload in fa"""
    f = fa.f; m = P.m
    stores = [j for j in f.instrs() if j.op == "store"]
    for i in f.instrs():
        if i.op in ("load", "store"):
            p = i.ops[1] if i.op == "store" else i.ops[0]
            a = fa.access(i)
            st = a.st or (sn(i, m) if a.root != ("undef",) else None)
            yield i, a.root, "deref", st
            if i.op == "store" and i.ops[0][0] in ("ins", "arg") and fa.klass(i)[0] == "fld":
                bt = field_type(m, fa.klass(i))
                if bt is not None: yield i, i.ops[0], "field", bt + fa.klass(i)[1:3]
        elif i.op in ARITH or (i.op == "icmp" and i.pred not in ("eq", "ne")):
            for o in i.ops:
                if o[0] in ("ins", "arg"): yield i, o, "int", i.op
        elif i.op == "bitcast" and i.ty == "double":
            yield i, i.ops[0], "float", None
        elif i.op == "trunc" and any(j.op == "store" and j.ops[0] == ("ins", i.id) and fa.klass(j)[0] != "lVal" and not fa.local_root(fa.addr(j.ops[1]).root) for j in stores):
            yield i, i.ops[0], "trunc", i.ty
        elif i.op == "ret" and f.ret == "ptr" and i.ops and i.ops[0][0] in ("ins", "arg"):
            bt = base_type(f.dtypes[0])
            if bt is not None: yield i, i.ops[0], "return", bt
        elif i.op == "call":
            c = i.cname()
            if c is None or c.startswith("llvm."):
                if c and c.startswith("llvm.mem"):
                    for k, o in enumerate(i.ops[:2]):
                        a = fa.hint(fa.addr(o), i.nj if k == 0 else i.njs)
                        yield i, a.root, "deref", a.st
                continue
            cf = m.fns.get(c)
            for k, o in enumerate(i.ops):
                if o[0] not in ("ins", "arg"): continue
                if o[0] == "ins" and f.ins[o[1]].ty != "ptr": 
                    # scalar payload handed to an integer/pointer parameter
                    continue
                if o[0] == "arg" and f.argtys[o[1]] != "ptr": continue
                a = fa.addr(o)
                dt = None
                if cf is not None: dt = dparam(P, cf, k)
                bt = a.st if a.st in PTRTAGS else base_type(dt)
                yield i, a.root, "passptr", (c, bt, a)


def field_type(m, k):
    """('ptr', pointee) / ('num', None) for the struct member a store goes to"""
    st = m.structs.get(k[1])
    if st is None: return None
    fs = [x for x in st["fields"] if x["o"] == k[2] and x["n"] != "nextFree"]
    if not fs: return None
    pt = [base_type(x["u"]) for x in fs]
    if all(p is not None for p in pt): return ("ptr", pt[0]) if len(set(pt)) == 1 else None
    return ("num", None) if not any(pt) and all(x["s"] <= 8 for x in fs) else None


def dparam(P, cf, k):
    """DI type of IR argument k of cf"""
    n = 0
    for pos, dt in enumerate(cf.dtypes[1:]):
        if dt in ("lVal", "const lVal") and n < len(cf.argtys) and cf.argtys[n] == "i16":
            if k in (n, n + 1): return dt
            n += 2
        else:
            if k == n: return dt
            n += 1
    return None


def sn(i, m):
    if i.tb and i.tb[0] in m.structs: return i.tb[0]
    return None
