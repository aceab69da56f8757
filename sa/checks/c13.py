"""C13: assembler, virtual machine and disassembler agree on the instruction encoding."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..natives import natives
from ..vmops import VM, SP0, CSP0, IP0, clo
from ..emit import *
from .c25 import Effects

RULE = ("The assembler's instruction templates, its literal and relocation encoding, and the disassembler's tables are read from stdlib/compiler/backend_bytecode/*.nuj by abstract "
        "interpretation with unknown operands; the operand bytes each instruction fetches, the literal it uses and the place a jump lands are read off the paths of the interpreter's "
        "compiled code. Every encoder/decoder pair must agree: operand counts, 16-bit offsets over their whole range, wide literal indices, instruction lengths and mnemonics.")


class Asm(Compiler):
    def __init__(s, known):
        super().__init__(); s.known = known
        for n in ("assemble*", "disassemble"):
            if Sym(n) not in s.top: raise AnalysisBroken("%s is not defined by the standard library" % n)

    def summary(s, f, args):
        if not s.own(f) and any(isinstance(a, Unk) for a in args): return (Unk(f.name, "pred" if str(f.name).endswith("?") else None),)
        return None


    def other(s, n, a):
        if n not in s.known and Sym(n) not in s.top: raise Thrown()       # unbound variable
        return super().other(n, a)


def ev(x, env):
    """value of an integer expression"""
    if isinstance(x, bool): return None
    if isinstance(x, int): return x
    if isinstance(x, Unk): return env.get(x.id)
    if isinstance(x, SymInt):
        if x.op not in OPS: return None
        a = [ev(y, env) for y in x.a]
        return None if None in a else OPS[x.op](*a)
    return None


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "bit-and": lambda a, b: a & b, "bit-or": lambda a, b: a | b, "bit-xor": lambda a, b: a ^ b,
       "bit-shift-left": lambda a, b: a << b if 0 <= b < 64 else None, "bit-shift-right": lambda a, b: a >> b if 0 <= b < 64 else None}


def local_fn(A, owner, name):
    """a function defined inside (def owner (let* ...))"""
    f = A.look(Sym(owner), A.g)
    if not isinstance(f, Fn): raise AnalysisBroken("%s is not a function" % owner)
    e = f.env.find(Sym(name))
    if e is None or not isinstance(e.v[Sym(name)], Fn): return None
    return e.v[Sym(name)]


def vm_index(vm, code, ops):
    """literals an instruction uses: {(pointer, index)}"""
    out = set()
    for k, ip, sp, csp, q in vm.walk(code, ops):
        for e in q.ev:
            if e[0] == "mem":
                r, o = divmod(e[1], 1 << 24)
                out.add((r, o // 16))
    return out


def vm_lands(vm, code, ops, n):
    """places an instruction may continue at other than after itself, relative to the instruction"""
    out = set()
    for k, ip, sp, csp, q in vm.walk(code, ops):
        if k != "next": continue
        sv = q.mem.get(clo(0) + vm.c_ip)
        if sv is not None and csp == 1 and ip == n: out.add(sv - IP0 + 1)
        if ip is not None and ip != n: out.add(ip + 1)
    return out


def effect(vm, code, ops):
    """what an instruction does to stacks and scopes on the paths that continue"""
    P = vm.P; sig = set(); heap = set()
    for k, ip, sp, csp, q in vm.walk(code, ops):
        sig.add((k, sp, csp))
        if k != "next": continue
        for e in q.ev:
            if e[0] == "call": cl = P.modset(e[1])
            elif e[0] == "store?":
                i = e[1]
                cl = {vm.fa.klass(i)} if i.op == "store" else vm.fa.mem_intrinsic_classes(i)
            else: continue
            for c in cl:
                if isinstance(c, tuple) and c[0] == "fld" and c[1] == "lClosure": heap.add("scope")
                if isinstance(c, tuple) and c[0] == "lVal" and len(c) > 2 and c[2] == "lTree": heap.add("binding")
    return frozenset(sig), frozenset(heap)


def templates(A):
    """what each assembler function emits: name -> list of flattened code"""
    out = {}
    for n, x in sorted(A.top.items(), key=lambda k: str(k[0])):
        if not str(n).startswith("$") or x[0] != Sym("defn"): continue
        if not (x.file or "").endswith("assembler.nuj") and A.where[n][0].find("assembler") < 0: continue
        f = A.look(n, A.g)
        np = len(f.params) if isinstance(f.params, L) else 0
        for r in A.paths(lambda: (lambda a: A.call(f, a))([Unk("a%d" % k, "value") for k in range(np)])):
            if r is Thrown or r is None: continue
            out.setdefault(str(n), []).append(flatten(r, []))
    return out


def run():
    import sys
    sys.setrecursionlimit(20000)
    R = Report("C13", RULE)
    P, _, _ = setup(prog())
    vm = VM(P); eff = Effects(vm); A = Asm({w for n in natives(P.m) for w in n.name.split()})
    R.functions.add(vm.f.name)
    W = "stdlib/compiler/backend_bytecode/assembler.nuj"
    D = "stdlib/compiler/backend_bytecode/disassembler.nuj"
    # 0. the interpreter's own table and its enumeration
    for c in sorted(vm.codes):
        if vm.disp.op == "indirectbr": R.obligation(c in vm.entry, "enum %d" % c, "instruction %s has no entry in the dispatch table" % vm.codes[c], "lib/vm.c", vm.f.name)
    # an instruction continues right after the bytes it fetched
    for c in sorted(vm.entry):
        n = eff.length(c)
        for ops in ([1, 0x23], [0, 0]):
            for k, ip, sp, csp, q in vm.walk(c, ops):
                if k == "next" and ip is not None and abs(ip) < 4096 and ip != n:
                    dest = ((ops[0] << 8 | ops[1]) - 1)
                    R.obligation(n == 2 and ip == dest, "%s continues" % vm.codes.get(c), "%s fetches %d operand bytes but continues %d bytes after its opcode" % (vm.codes.get(c), n, ip), "lib/vm.c", vm.f.name)
    # 1. templates
    T = templates(A); emitted = {}; lit_ops = set(); rel_ops = {}
    names = 0
    for n, codes in T.items():
        for flat in codes:
            if not flat: continue
            names += 1
            k = 0; ok = True; msg = ""
            while k < len(flat):
                op = flat[k]
                if not isinstance(op, int) or op not in vm.entry: ok = False; msg = "emits %r, which is not an instruction" % (op,); break
                ln = eff.length(op); rest = flat[k + 1:k + 1 + ln]
                if any(isinstance(r, list) and r[0] == Kw("literal") for r in rest): lit_ops.add(op)
                rel = [r for r in rest if isinstance(r, list) and r[0] == Kw("relocate")]
                if rel: rel_ops.setdefault(op, (n, rest))
                if len(rest) < ln: ok = False; msg = "emits %s with %d operand bytes, the machine fetches %d" % (vm.codes.get(op, op), len(rest), ln); break
                k += 1 + ln
                if k == 1 + ln: emitted.setdefault(n, set()).add(op)
            R.obligation(ok, "template %s" % n, "%s %s" % (n, msg), W)
    R.floor("assembler templates", names, 45)
    # 2. labels and relocated operands
    build = local_fn(A, "assemble*", "assemble/build-sym-map"); emit = local_fn(A, "assemble*", "assemble/emit-relocated-ops")
    lits = local_fn(A, "assemble*", "assemble/build-lit-arr")
    if not (build and emit and lits): raise AnalysisBroken("the assembler's passes were not found")
    offs = [(h << 8) | l for h in (0, 1, 2, 0x3f, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff) for l in (0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff)]
    for op, (n, rest) in sorted(rel_ops.items()):
        # the instruction at position 1 of the stream and every kind of distance to its target
        def go(w):
            m = Map(); out = Arr()
            m.set(rest[0][1], 1 + w)
            code = mk([0, op] + [mk(r) if isinstance(r, list) else r for r in rest] + [0])
            A.call(emit, [code, m, -1, out])
            return out
        bad = None; cnt = 0
        for want in offs:
            w = want - 65536 if want >= 32768 else want
            for out in A.paths(lambda: go(w), 50):
                if out is Thrown: bad = "a jump by %d is refused" % w; break
                b = [out.get(2), out.get(3)]
                if not all(isinstance(x, int) and 0 <= x < 256 for x in b): bad = "a jump by %d is encoded as %s" % (w, b); break
                got = vm_lands(vm, op, b, eff.length(op)); cnt += 1
                if got - {w} or (not got and w != 1 + eff.length(op)): bad = "a jump by %d is encoded as %s, where the machine goes to %s" % (w, b, sorted(got)); break
                if out.get(1) != op or out.get(4) != 0 or out.n != 5: bad = "the assembled stream is not the instruction followed by its operands"; break
            if bad: break
        R.obligation(bad is None, "relocate %s" % vm.codes.get(op, op), "%s: %s" % (n, bad), W, vm.f.name)
        far = [w for w in (32768, 32769, 40000, 65535, 65536, 100000, -32769, -40000, -65536, -65537) if any(r is not Thrown for r in A.paths(lambda: go(w), 50))]
        R.obligation(not far, "far %s" % vm.codes.get(op, op), "%s: a jump by %s, which two bytes cannot express, is encoded instead of refused" % (n, far), W)
        R.count("jump distances compared", cnt)
    R.floor("instructions with relocated operands", len(rel_ops), 4)
    # positions of labels
    def go():
        m = Map()
        code = mk([0, mk([Kw("label"), Sym("x")]), 0, mk([1, 2]), mk([Kw("relocate"), Sym("x"), 8, 0, 0]), mk([Kw("label"), Sym("y")]), 0])
        A.call(build, [code, m, 0])
        out = Arr(); tx = m.get(Sym("x")); ty = m.get(Sym("y"))
        A.call(emit, [code, m, -1, out])
        return tx, ty, m.get(Kw("last-op")), out.n
    for r in A.paths(go):
        if r is Thrown: R.obligation(False, "label positions", "label resolution fails", W); continue
        tx, ty, last, n = r
        R.obligation((tx, ty, last, n) == (1, 5, 6, 6), "label positions", "labels resolve to byte %s and %s of a %s byte stream of which %s bytes are written, instead of 1, 5, 6 and 6" % (tx, ty, last, n), W)
    # 3. literals
    wide = {}
    for op in sorted(lit_ops):
        forms = 0
        def go():
            v = Unk("literal", "value"); la = Unk("literals", "value")
            return la, A.call(lits, [mk([op, mk([Kw("literal"), v]), 0x0]), la])
        for r in A.paths(go, 60000):
            if r is Thrown: continue
            la, code = r
            flat = flatten(code, [])
            if len(flat) < 3 or not isinstance(flat[0], int) or flat[0] not in vm.entry:
                R.obligation(False, "literal %s" % vm.codes[op], "encoding a literal operand of %s yields %r" % (vm.codes[op], flat), W); continue
            nop, operands = flat[0], flat[1:-1]
            forms += 1
            if eff.length(nop) != len(operands):
                R.obligation(False, "literal %s" % vm.codes[op], "%s gets %d literal index bytes, the machine fetches %d" % (vm.codes[nop], len(operands), eff.length(nop)), W); continue
            if len(operands) == 1:
                R.obligation(nop == op, "literal %s" % vm.codes[op], "a short literal index changes %s into %s" % (vm.codes[op], vm.codes[nop]), W)
                idx = vm_index(vm, nop, [0x85])
                R.obligation({i for _, i in idx} == {0x85}, "index %s" % vm.codes[nop], "%s given index 133 uses %s" % (vm.codes[nop], sorted(idx)), "lib/vm.c", vm.f.name)
            else:
                wide[op] = nop
                us = [u for u in unks(operands)]
                bad = None
                for val in (256, 257, 0x1234, 0x7fff, 0x8000, 0xff00, 0xfffe):
                    b = [ev(x, {u.id: val for u in us} if us else {}) for x in operands] if us else [sub(x, val) for x in operands]
                    if None in b or not all(0 <= x < 256 for x in b): bad = "index %d is encoded as %s" % (val, b); break
                    idx = {i for _, i in vm_index(vm, nop, b)}
                    if idx != {val}: bad = "literal %d is encoded as %s, from which the machine takes %s" % (val, b, sorted(idx)); break
                R.obligation(bad is None, "wide index %s" % vm.codes[nop], "%s: %s" % (vm.codes[nop], bad), W, vm.f.name)
                a, b = effect(vm, op, [3, 0]), effect(vm, nop, [0, 3])
                R.obligation(a == b, "wide %s" % vm.codes[nop], "%s does not do what %s does: %s instead of %s" % (vm.codes[nop], vm.codes[op], sorted(b[0]) + sorted(b[1]), sorted(a[0]) + sorted(a[1])), "lib/vm.c", vm.f.name)
        # the place where the encoding changes: tables of 254..258 literals, new and repeated literals
        for N, dup in ((0, None), (254, None), (255, None), (256, None), (257, None), (258, 255), (258, 256), (258, 0)):
            def go():
                la = Arr(["other %d" % k for k in range(N)]); want = N
                if dup is not None: want = dup
                return A.call(lits, [mk([op, mk([Kw("literal"), "other %d" % want]), 0x0]), la]), want, la
            for r in A.paths(go, 10):
                if r is Thrown: R.obligation(False, "literal %d of %d %s" % (want, N, vm.codes[op]), "literal %d of %s cannot be encoded" % (N, vm.codes[op]), W); continue
                code, want, la = r; flat = flatten(code, [])
                nop, operands = flat[0], flat[1:-1]
                ok = isinstance(nop, int) and nop in vm.entry and all(isinstance(x, int) and 0 <= x < 256 for x in operands) and len(operands) == eff.length(nop)
                got = sorted(i for _, i in vm_index(vm, nop, operands)) if ok else flat
                R.obligation(got == [want], "literal %d of %d %s" % (want, N, vm.codes[op]), "literal %d of a table of %d is encoded as %s for %s, from which the machine takes %s" % (want, la.n, operands, vm.codes[op], got), W, vm.f.name)
                R.obligation(la.get(want) == "other %d" % want, "stored %d of %d %s" % (want, N, vm.codes[op]), "literal %d of a table of %d is not stored at its index" % (want, la.n), W)
                R.count("literal table positions compared")
        R.obligation(forms >= 1, "literal forms %s" % vm.codes[op], "a literal operand of %s cannot be encoded" % vm.codes[op], W)
        R.obligation(op in wide, "literal wide %s" % vm.codes[op], "%s has no encoding for literals beyond the first 256" % vm.codes[op], W)
    R.floor("instructions with a literal operand", len(lit_ops), 4)
    disassembler(R, A, vm, eff, emitted, wide, rel_ops, D)
    R.assumptions += ["literal indices and jump distances are compared on representative values of every byte pattern class (sign, carry, both bytes)"]
    return R.finish()


def unks(xs):
    out = []
    def rec(x):
        if isinstance(x, Unk): out.append(x)
        elif isinstance(x, SymInt):
            if x.op in OPS:
                for y in x.a: rec(y)
    for x in xs: rec(x)
    return out


def sub(x, val):
    """value of an expression over one opaque integer (the literal array's length)"""
    if isinstance(x, int): return x
    if isinstance(x, SymInt):
        if x.op in OPS:
            if x.op == "-" and isinstance(x.a[0], SymInt) and x.a[0].op not in OPS: return val        # index of the literal just added
            a = [sub(y, val) for y in x.a]
            return None if None in a else OPS[x.op](*a)
        return val
    return None


def disassembler(R, A, vm, eff, emitted, wide, rel_ops, D):
    ln = local_fn(A, "disassemble", "disassemble/length"); op_ = local_fn(A, "disassemble", "disassemble/op")
    if not (ln and op_): raise AnalysisBroken("the disassembler's tables were not found")
    narrow = {v: k for k, v in wide.items()}
    n = 0
    for c in sorted(vm.entry):
        nm = vm.codes.get(c, str(c))
        r = A.paths(lambda: A.call(ln, [c]))
        R.obligation(all(x == 1 + eff.length(c) for x in r), "length %s" % nm, "the disassembler takes %s to be %s bytes long, it is %d" % (nm, ["unknown" if x is Thrown else x for x in r], 1 + eff.length(c)), D)
        def go():
            b = [Unk("b%d" % k, "value") for k in range(3)]
            a = Arr([0, c] + b); tr = []
            return A.call(op_, [a, 1, LitArr(tr)]), tr, b
        for r in A.paths(go):
            if r is Thrown: R.obligation(False, "mnemonic %s" % nm, "the disassembler fails on %s" % nm, D); continue
            code, tr, b = r
            its = items(code) if isinstance(code, Pair) else []
            if not its or not isinstance(its[0], Sym):
                R.obligation(False, "mnemonic %s" % nm, "the disassembler does not know %s" % nm, D); continue
            n += 1
            m = str(its[0])
            if m in emitted: R.obligation(c in emitted[m], "mnemonic %s" % nm, "%s is shown as %s, which assembles to %s" % (nm, m, sorted(vm.codes.get(x, x) for x in emitted[m])), D)
            else:
                base = m[:-1] if m.endswith("*") else m[:-4] if m.endswith("/ext") else None
                ok = base in emitted and (c in emitted[base] or narrow.get(c) in emitted[base])
                R.obligation(ok, "mnemonic %s" % nm, "%s is shown as %s, which the assembler does not know" % (nm, m), D)
            if eff.length(c) == 0: 
                R.obligation(len(its) == 1, "operands %s" % nm, "%s is shown with operands it does not have" % nm, D); continue
            if tr:
                # literal operand: same literal as the machine uses
                bad = None
                for v in ((3, 0), (0x12, 0x34), (0x80, 0xff), (0xff, 0x01)):
                    v = v[:eff.length(c)]
                    env = {x.id: y for x, y in zip(b, v)}
                    got = {ev(t, env) for t in tr}; want = {i for _, i in vm_index(vm, c, list(v))}
                    if got != want: bad = "bytes %s mean literal %s to the machine and %s to the disassembler" % (list(v), sorted(want), sorted(map(str, got))); break
                R.obligation(bad is None, "operand %s" % nm, "%s: %s" % (nm, bad), D, vm.f.name)
            elif c in rel_ops:
                bad = None; k = 0
                x = its[1] if len(its) > 1 else None
                for h in (0, 1, 0x7f, 0x80, 0xff):
                    for l in (0, 1, 0x80, 0xff):
                        w = (h << 8) | l; w = w - 65536 if w >= 32768 else w
                        got = A.paths(lambda: A.call(op_, [Arr([0, c, h, l, 0]), 1, LitArr([])]))
                        vals = {items(g)[1] if isinstance(g, Pair) and len(items(g)) > 1 else None for g in got if g is not Thrown}
                        if vals != {w}: bad = "offset bytes %s mean %d to the machine and %s to the disassembler" % ([h, l], w, sorted(map(str, vals))); break
                    if bad: break
                R.obligation(bad is None, "operand %s" % nm, "%s: %s" % (nm, bad), D, vm.f.name)
            else:
                for v in (0, 5, 127, 128, 255):
                    env = {x.id: v for x in b}
                    got = [ev(y, env) for y in its[1:]]
                    pushed = {e[3] for k, ip, sp, csp, q in vm.walk(c, [v]) if k == "next" and sp == 1 for e in q.ev if e[0] == "write" and e[1] == 1 and len(e) > 4 and e[4] == 8}
                    if eff.length(c) == 1 and len(pushed) == 1 and None not in pushed:
                        w = next(iter(pushed)); w = w - (1 << 64) if w >= 1 << 63 else w
                        R.obligation(got == [w], "operand %s %d" % (nm, v), "%s: byte %d means %d to the machine and %s to the disassembler" % (nm, v, w, got), D, vm.f.name)
                        R.count("immediate operands compared")
                R.obligation(len(its) == 1 + eff.length(c), "operands %s" % nm, "%s is shown with %d operands, it has %d" % (nm, len(its) - 1, eff.length(c)), D)
    R.floor("instructions disassembled", n, 50)


class LitArr(Arr):
    """the literals of the code being disassembled: remembers which index is asked for"""
    def __init__(s, tr): super().__init__(); s.tr = tr
    def get(s, k):
        s.tr.append(k)
        return "literal"       # a plain literal: code literals are disassembled in turn
