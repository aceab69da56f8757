"""C25: code emitted for a form leaves exactly one value on the operand stack and all scopes closed."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..vmops import VM, SP0, CSP0, IP0, CS, CLO, NEW, clo, spv, ipv
from ..emit import *

RULE = ("Every way the macroexpander and bytecode compiler (stdlib/compiler/*.nuj, read from source and interpreted abstractly over forms with an unknown operator "
        "and 0..N unknown arguments) can translate a form is enumerated; the emitted instruction sequence is executed on an abstract machine whose instruction effects "
        "(operands fetched, values popped/pushed, scopes opened/closed, continuation) are read off the interpreter's compiled code path by path. Each sequence must, on every "
        "path and at every label, have one height, never reach below its own values, and end with exactly one value and no scope left open.")


class Effects:
    """what an instruction with given operand bytes does: [(kind, dsp, dcsp, need)] kind in next / jump / handler / stop"""
    def __init__(s, vm): s.vm = vm; s.c = {}; s.l = {}

    def length(s, code):
        if code not in s.l:
            if code not in s.vm.entry: return None
            n = 0
            for k, ip, sp, csp, q in s.vm.walk(code, [1, 0x23]):
                fs = [e[1] for e in q.ev if e[0] == "fetch"]
                if k == "next" and fs and fs[-1] == ip: fs = fs[:-1]      # the next instruction
                for e in fs:
                    if 0 <= e < 8: n = max(n, e + 1)
            s.l[code] = n
        return s.l[code]

    def of(s, code, operands):
        k0 = (code, tuple(operands))
        if k0 in s.c: return s.c[k0]
        vm = s.vm; n = s.length(code); out = set()
        ops = [o if isinstance(o, int) else (1, 0x23)[k] if k < 2 else 0 for k, o in enumerate(operands)]
        dest = None
        if len(ops) == 2: dest = ((ops[0] & 255) << 8 | ops[1] & 255) - 1
        for k, ip, sp, csp, q in vm.walk(code, ops):
            need = 0
            for e in q.ev:
                if e[0] in ("read", "write") and e[1] <= 0: need = max(need, 1 - e[1])
            saved = q.mem.get(vm.ctx * 0 + clo(0) + vm.c_ip)
            ssp = q.mem.get(clo(0) + vm.c_sp)
            if k == "throw" or k == "exit" or k == "ret": out.add(("stop", 0, 0, need)); continue
            if csp == 0 and (sp is None or abs(sp) > 5000) and ip == n: out.add(("lost", 0, 0, need)); continue      # no height known
            if sp is None or csp is None or abs(sp) > 5000:      # the height is taken from the scope returned to
                out.add(("stop", 0, 0, need)); continue
            if saved is not None and csp == 1:
                if ip is None or ip not in (n, dest):            # a call: continues in the callee, resumes with one value more than saved
                    out.add(("next" if saved - IP0 == n else "lost", None if ssp is None else ssp - SP0 + 1, 0, need)); continue
                out.add(("handler" if saved - IP0 == dest else "lost", None if ssp is None else ssp - SP0 + 1, 0, need))
            if ip == n: out.add(("next", sp, csp, need))
            elif ip == dest and dest is not None: out.add(("jump", sp, csp, need))
            else: out.add(("lost", sp, csp, need))
        s.c[k0] = sorted(out, key=repr)
        return s.c[k0]


def balance(code, eff):
    """problems of an instruction sequence"""
    bad = []
    flat = flatten(code, [])
    pos = []           # [(kind, ...)]
    k = 0; labels = {}
    while k < len(flat):
        x = flat[k]
        if isinstance(x, Expr): pos.append(("expr",)); k += 1; continue
        if isinstance(x, list):
            if x[0] == Kw("label"): labels[x[1]] = len(pos); k += 1; continue
            return ["operand where an instruction is expected: %r" % (x,)]
        if not isinstance(x, int) or isinstance(x, bool): return ["not an instruction: %r" % (x,)]
        n = eff.length(x)
        if n is None: return ["unknown instruction %r" % x]
        ops = []
        j = k + 1
        while len(ops) < n and j < len(flat):
            y = flat[j]
            if isinstance(y, list) and y[0] == Kw("label"): break
            if isinstance(y, Expr): break
            ops.append(y); j += 1
        if len(ops) < n: return ["instruction %#x is given %d of its %d operands" % (x, len(ops), n)]
        pos.append(("op", x, ops)); k = j
    st = {0: (0, 0)}; work = [0]

    def flow(t, v):
        if t in st:
            if st[t] != v: bad.append("two heights meet: %s and %s" % (st[t], v))
        else: st[t] = v; work.append(t)
    while work and not bad:
        k = work.pop()
        d, c = st[k]
        if k >= len(pos): continue
        if pos[k][0] == "expr": flow(k + 1, (d + 1, c)); continue
        x, ops = pos[k][1:]
        plain = [o if isinstance(o, int) and not isinstance(o, bool) else None for o in ops]
        lab = [o[1] for o in ops if isinstance(o, list) and o and o[0] == Kw("relocate")]
        if lab: plain = [1, 0x23]
        for kind, dsp, dc, need in eff.of(x, plain):
            if kind == "stop":
                continue
            if d < need: bad.append("instruction %#x reaches %d below the form's own values" % (x, need - d)); break
            if dsp is None or kind == "lost": bad.append("instruction %#x does not continue after itself" % x); break
            nd, nc = d + dsp, c + dc
            if nd < 0 or nc < 0: bad.append("instruction %#x takes more than the form has put (%d values, %d scopes)" % (x, nd, nc)); break
            if kind == "next": flow(k + 1, (nd, nc))
            else:
                if not lab or lab[0] not in labels: bad.append("jump without a target"); break
                flow(labels[lab[0]], (nd, nc))
    if not bad and len(pos) in st and st[len(pos)] != (1, 0): bad.append("ends with %d values and %d open scopes" % st[len(pos)])
    return bad


def kind_of(src):
    h = src.car
    v = h.kids.get("value", h) if isinstance(h, Unk) else h
    if isinstance(v, Unk) and v.eq is not None: v = v.eq
    if isinstance(v, Native): return v.name
    if isinstance(v, Unk): return v.type or "other"
    return "other"


def resumed(vm, x):
    """does this path go on in the scope it returned to: where that scope stopped, with its height plus one value, which is written there?"""
    k, ip, sp, csp, q = x
    if None in (ip, sp, csp): return False
    h = spv(csp) - SP0
    return ip + IP0 == ipv(csp) and sp == h + 1 and any(e[0] == "write" and e[1] == h + 1 for e in q.ev)


def protocol(R, vm, eff):
    """instructions that leave a function, and the search for a handler"""
    ret = thr = 0
    for code in sorted(vm.entry):
        for x in vm.walk(code, [1, 0x23]):
            k, ip, sp, csp, q = x
            if k == "next" and csp != 1 and ip not in (eff.length(code), 0x122):
                ret += 1
                R.obligation(resumed(vm, x), "%s return" % vm.codes.get(code, code), "%s does not resume the calling scope at its saved place and height with the value on top" % vm.codes.get(code, code),
                             "lib/vm.c", vm.f.name)
                R.obligation(csp is not None and csp < 0, "%s leaves" % vm.codes.get(code, code), "%s does not leave the returning scope" % vm.codes.get(code, code), "lib/vm.c", vm.f.name)
    for x in vm.walk_throw():
        k, ip, sp, csp, q = x
        if k != "next": continue
        thr += 1
        ok = resumed(vm, x) and csp < 0
        if not ok and csp is not None and csp <= 0:
            top = q.mem.get(CS + 8 * (CSP0 + csp))
            ok = ip is None and isinstance(top, int) and NEW <= top < CLO
        R.obligation(ok, "handler entry", "after an error is thrown, execution does not go on in the handler or after the (try) that installed it at its height (stack %s, scopes %s)" % (sp, csp),
                     "lib/vm.c", vm.f.name)
    R.floor("ways to return from a function", ret, 1)
    R.floor("ways into an error handler", thr, 2)


def run(tier="quick"):
    import sys
    sys.setrecursionlimit(20000)
    R = Report("C25", RULE)
    P, _, _ = setup(prog())
    vm = VM(P); eff = Effects(vm)
    R.functions.add(vm.f.name)
    C = Compiler()
    me, bc = (lambda: C.look(Sym("macroexpand*"), C.g)), (lambda: C.look(Sym("bytecompile*"), C.g))
    forms = set(); seqs = 0; rejected = 0
    for n, mkf in shapes(3 if tier == "quick" else 5):
        def go():
            src = mkf(); env = Unk("env")
            a = C.call(me(), [src, env])
            return src, a, C.call(bc(), [a, env])
        res = C.paths(go, 400000)
        per = {}
        for r in res:
            if r is Thrown: rejected += 1; continue
            src, a, code = r
            k = kind_of(src)
            sig = repr(flatten(code, []))
            import re
            sig = re.sub(r"'g\d+'", "g", sig)
            e = per.setdefault(k, {})
            if sig in e: continue
            e[sig] = balance(code, eff); seqs += 1
        for k, e in sorted(per.items()):
            forms.add(k)
            bad = sorted({m for l in e.values() for m in l})
            R.obligation(not bad, "(%s) with %d arguments" % (k, n), "the code for (%s ...) with %d arguments: %s" % (k, n, "; ".join(bad)), "stdlib/compiler")
    # whole forms: what bytecompile wraps around the code must end by returning the value
    wraps = C.paths(lambda: C.call(C.look(Sym("bytecompile"), C.g), [Unk("form", "form"), Unk("env")]))
    for w in wraps:
        if w is Thrown: continue
        flat = flatten(w, [])
        tail = [x for x in flat if not isinstance(x, list)]
        ok = len(tail) >= 2 and isinstance(tail[0], Expr) and isinstance(tail[-1], int) and all(k == "stop" for k, *_ in eff.of(tail[-1], [])) and not balance(mk(flat[:-1]), eff)
        R.obligation(ok, "whole form", "a compiled form does not end by returning its value: %r" % flat, "stdlib/compiler")
    protocol(R, vm, eff)
    R.floor("kinds of form", len(forms), 30)
    R.floor("instruction sequences", seqs, 120)
    R.counts["rejected translations"] = rejected
    R.counts["instructions"] = len(vm.entry)
    R.assumptions += ["constant folding keeps a form's shape or replaces it by a constant", "lists of unknown length are followed for three elements; argument lists up to %d" % n,
                      "a value computed by a sub-form is one value (induction over the form)"]
    return R.finish()
