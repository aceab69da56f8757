"""Registry of native procedures: every lAddNative* registration in the program,
resolved to (name, lambda list, implementing function, flags, kind, class)."""
import re
from .build import AnalysisBroken

REG = re.compile(r"^lAddNative(FuncRaw|Func|Method|StaticMethod)(C?)(R|V*)$")


class Nat:
    __slots__ = ("name", "args", "fn", "flags", "kind", "cls", "sfx", "call", "c", "nv")

    def __repr__(s):
        return "<%s %s %s -> %s>" % (s.kind, s.name, s.args, s.fn)


def symname(m, f, o):
    """C string behind lSymS("...") or a char* constant"""
    s = m.cstr(o)
    if s is not None: return s
    if o[0] == "ins":
        i = f.ins[o[1]]
        if i.op == "call" and i.cname() in ("lSymS", "lSymSM", "lSymSL") and i.ops:
            return m.cstr(i.ops[0])
        if i.op == "load" and i.ops[0][0] == "glob":
            return "&" + i.ops[0][1]
    if o[0] == "glob": return "&" + o[1]
    return None


def natives(m):
    out = []
    csz = m.struct("lClass")["size"]
    inv = {v: k for k, v in m.enum("lType").items()}
    for f in m.defs.values():
        if REG.match(f.name): continue
        for i in f.calls():
            c = i.cname() or ""
            mt = REG.match(c)
            if not mt or c == "lAddNativeFuncRaw": continue
            n = Nat()
            n.call = i; n.sfx = mt.group(2) + mt.group(3); n.c = mt.group(2) == "C"
            n.nv = -1 if mt.group(3) == "R" else len(mt.group(3))
            kind = mt.group(1)
            n.kind = {"Func": "func", "Method": "method", "StaticMethod": "static"}[kind]
            ops = i.ops
            n.cls = None
            nm = ops[1]
            if n.kind != "func":
                o = ops[0]
                base = None
                if o[0] == "glob" and o[1] == "lClassList": base = o[2] // csz
                n.cls = base
            if n.kind == "func": nm = ops[0]
            n.name = symname(m, f, nm)
            n.args = m.cstr(ops[1] if n.kind == "func" else ops[2])
            fn = ops[3]
            n.fn = fn[1] if fn[0] == "fn" else None
            n.flags = ops[4][1] if ops[4][0] == "int" else None
            if n.fn is None or n.args is None or n.flags is None or n.name is None or (n.kind != "func" and n.cls is None):
                raise AnalysisBroken("cannot resolve native registration at %s" % i.where_full())
            out.append(n)
    if len(out) < 150:
        raise AnalysisBroken("only %d native registrations found" % len(out))
    return out


def class_parents(m):
    """{tag: parent tag} from the initType calls / lTypesInit"""
    out = {}
    csz = m.struct("lClass")["size"]
    f = m.fns.get("lTypesInit")
    if f is None: raise AnalysisBroken("lTypesInit not found")
    for i in f.calls("initType"):
        t = i.ops[0][1]
        p = i.ops[2]
        out[t] = p[2] // csz if p[0] == "glob" and p[1] == "lClassList" else None
    if len(out) < 15: raise AnalysisBroken("only %d initType calls found" % len(out))
    return out


def self_tags(m, parents, cls):
    """tags whose class has cls among its ancestors"""
    out = set()
    for t in parents:
        x = t; n = 0
        while x is not None and n < 30:
            if x == cls: out.add(t); break
            x = parents.get(x); n += 1
    return frozenset(out)
