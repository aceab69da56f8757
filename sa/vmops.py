"""What each bytecode instruction does in the virtual machine: operand bytes read, where execution continues, and
what happens to the operand stack and the closure stack, on every path through its code."""
from .walk import Walker, Path, sgn
from .build import AnalysisBroken

IP0 = 1 << 46; VS = 1 << 44; CS = 1 << 43; SP0 = 10000; CSP0 = 500; LOC = 1 << 40
CLO = 1 << 42; IPV = 1 << 39; NEW = 1 << 41; BASE = 1 << 37; SPV = 20000


def clo(k): return CLO + (k + 100) * 4096     # the closure in the closure stack's slot csp+k before the instruction


def spv(k): return SPV + (k + 100) * 10       # the stack height saved in it


def ipv(k): return IPV + (k + 100) * 4096     # the place to continue saved in it


class OpWalk(Walker):
    limit = 400000; visits = 2; dedupe = True

    def __init__(s, vm, operands):
        super().__init__(vm.fa)
        s.vm = vm; s.operands = operands; s.argc = None; s.used = False

    def val(s, p, o):
        v = super().val(p, o)
        if v is not None: return v
        if o[0] == "ins":
            i = s.f.ins[o[1]]
            if i.op == "alloca": return LOC + i.id * 65536
        return None

    def history(s, p): return frozenset((e[0], e[1]) for e in p.ev if e[0] != "store?")

    def took(s, p, a, b): pass

    def addr(s, p, o):
        return s.val(p, o)

    def ev1(s, p, i):
        if i.op == "getelementptr":
            if i.off is None: return None
            b = s.val(p, i.base)
            if b is None: return None
            b += i.off
            for v, c in i.var:
                x = s.val(p, v)
                if x is None: return None
                b += x * c
            return b
        if i.op == "call" and i.ty == "ptr" and not (i.cname() or "").startswith("llvm."): return NEW + i.id * 4096
        if i.op in ("ptrtoint", "inttoptr"): return s.val(p, i.ops[0])
        return super().ev1(p, i)

    def load(s, p, i):
        vm = s.vm
        if i.id in vm.argc_loads:
            s.used = True
            return s.argc
        a = s.val(p, i.ops[0])
        if a is None: return None
        if a in p.mem: return p.mem[a]
        if a == vm.ctx + vm.o_sp: return SP0
        if a == vm.ctx + vm.o_csp: return CSP0
        if a == vm.ctx + vm.o_vs: return VS
        if a == vm.ctx + vm.o_cs: return CS
        if BASE <= a < BASE + (8 << 24): p.ev.append(("mem", a - BASE))
        if IP0 - 64 <= a < IP0 + 64 and i.ty == "i8":
            p.ev.append(("fetch", a - IP0))
            if 0 <= a - IP0 < len(s.operands): return sgn(s.operands[a - IP0], 8)
            return None
        if VS <= a < VS + 16 * 4 * SP0: p.ev.append(("read", (a - VS) // 16 - SP0, i))
        if CS <= a < CS + 8 * 2 * CSP0:
            k = (a - CS) // 8 - CSP0
            p.ev.append(("cread", k, i))
            return clo(k)
        if CLO <= a < CLO + 200 * 4096:
            k, o = divmod(a - CLO, 4096); k -= 100
            if o == vm.c_sp: return spv(k)
            if o == vm.c_ip: return ipv(k)
        return None

    def event(s, p, i):
        if i.op == "store":
            a = s.val(p, i.ops[1]); v = s.val(p, i.ops[0])
            if a is None:
                p.ev.append(("store?", i)); return
            if VS <= a < VS + 16 * 4 * SP0: p.ev.append(("write", (a - VS) // 16 - SP0, i, v, (a - VS) % 16))
            elif CS <= a < CS + 8 * 2 * CSP0: p.ev.append(("cwrite", (a - CS) // 8 - CSP0, i)); p.mem[a] = v
            else: p.mem[a] = v
        elif i.op == "call":
            c = i.cname() or "?"
            if c.startswith("llvm.memcpy"):
                d = s.val(p, i.ops[0]); r = s.val(p, i.ops[1])
                if r is not None and BASE <= r < BASE + (8 << 24): p.ev.append(("mem", r - BASE))
                n = i.ops[2][1] if i.ops[2][0] == "int" else 0
                if n != 6:
                    if r is not None and VS <= r < VS + 16 * 4 * SP0: p.ev.append(("read", (r - VS) // 16 - SP0, i))
                    if d is not None and VS <= d < VS + 16 * 4 * SP0: p.ev.append(("write", (d - VS) // 16 - SP0, i))
                if d is None: p.ev.append(("store?", i))
            elif not c.startswith("llvm."): p.ev.append(("call", c, i))


class Op:
    def __init__(s, code, name): s.code = code; s.name = name; s.paths = []


class VM:
    """the interpreter function: dispatch block, instruction pointer, table"""
    def __init__(s, P):
        m = P.m; s.P = P; s.m = m
        s.codes = {v: k for k, v in m.enum("lBytecodeOp").items()} if "lBytecodeOp" in m.enums else None
        if not s.codes:
            s.codes = {}
            for e in m.enums.values():
                if any(k.startswith("lop") for k in e): s.codes.update({v: k for k, v in e.items() if k.startswith("lop")})
        if not s.codes: raise AnalysisBroken("no instruction set enumeration found")
        cand = [f for f in m.defs.values() if any(i.op == "indirectbr" or i.op == "switch" and len(i.cases) >= 40 for i in f.instrs())]
        if len(cand) != 1: raise AnalysisBroken("interpreter loop not found (%s)" % [f.name for f in cand])
        f = s.f = cand[0]; fa = s.fa = P.f(f.name)
        s.disp = None; s.entry = {}
        for i in f.instrs():
            if i.op == "indirectbr": s.disp = i
            elif i.op == "switch" and len(i.cases) >= 40 and s.disp is None: s.disp = i
        s.db = s.disp.blk
        s.tables = set()
        if s.disp.op == "indirectbr":
            for i in f.instrs():
                if i.op == "getelementptr" and i.base and i.base[0] == "glob":
                    g = m.globals.get(i.base[1])
                    if g and g["init"] and g["init"][0] == "agg" and g["init"][1] and g["init"][1][0][0] == "blk": s.tables.add(i.base[1])
            if len(s.tables) != 1: raise AnalysisBroken("dispatch table not found")
            s.table = next(iter(s.tables))
            for n, b in enumerate(m.globals[s.table]["init"][1]): s.entry[n] = b[2]
        else:
            for v, b in s.disp.cases: s.entry[v] = b
        # the instruction pointer: the phi of the dispatch block whose bytes are fetched
        score = {}
        for i in f.blocks[s.db]:
            if i.op != "phi": break
            if i.ty != "ptr": continue
            n = 0
            for v, b in i.inc:
                d = f.define(v)
                if d is not None and d.op == "getelementptr" and d.sty == "i8": n += 1
            if s.disp.op == "switch": n += sum(1 for j in f.instrs() if j.op == "load" and j.ty == "i8" and j.ops[0] == ("ins", i.id))
            score[i.id] = n
        if not score: raise AnalysisBroken("instruction pointer not found")
        s.ip = max(score, key=lambda k: score[k])
        st = m.struct("lThread")
        off = {x["n"]: x["o"] for x in st["fields"]}
        try: s.o_sp, s.o_csp, s.o_vs, s.o_cs = off["sp"], off["csp"], off["valueStack"], off["closureStack"]
        except KeyError: raise AnalysisBroken("lThread fields not found")
        off = {x["n"]: x["o"] for x in m.struct("lClosure")["fields"]}
        try: s.c_sp, s.c_ip = off["sp"], off["ip"]
        except KeyError: raise AnalysisBroken("lClosure fields not found")
        s.ctx = None
        for i in f.instrs():
            if i.op in ("load", "store"):
                a = fa.access(i)
                if a.st == "lThread" and fa.local_root(a.root): s.ctx = LOC + a.root[1] * 65536; break
        if s.ctx is None: raise AnalysisBroken("thread record not found")
        from .checks.c09 import throw_block
        cnt = {}
        ph = {i.id for i in f.blocks[s.db] if i.op == "phi" and i.ty == "ptr"} - {s.ip}
        for i in f.instrs():
            if i.op in ("load", "store"):
                a = fa.access(i)
                if a.st == "lClosure" and a.root and a.root[0] == "ins" and a.root[1] in ph: cnt[a.root[1]] = cnt.get(a.root[1], 0) + 1
        if not cnt: raise AnalysisBroken("current closure not found")
        s.cur = max(cnt, key=lambda k: cnt[k])
        ao = [x["o"] for x in m.struct("lNFunc")["fields"] if x["n"] == "argCount"]
        if not ao: raise AnalysisBroken("lNFunc.argCount not found")
        s.argc_loads = {i.id for i in f.instrs() if i.op == "load" and (lambda a: a.st == "lNFunc" and a.so == ao[0])(fa.access(i))}
        s.bases = {k: BASE + n * (1 << 24) for n, k in enumerate(sorted(ph - {s.cur}))}      # other pointers the loop carries (literals, code)
        h = throw_block(fa)
        if h is None: raise AnalysisBroken("throw code not found")
        s.throw = h.blk

    def walk(s, code, operands, argc=None):
        """paths of an instruction: [(end kind, ip delta, sp delta, csp delta, path)]; where native functions are called, for every arity"""
        w = OpWalk(s, operands); w.argc = argc
        r = s.walk1(w, code, operands)
        if argc is None and w.used:
            r = []
            for k in range(18):
                w.argc = k
                for x in s.walk1(w, code, operands): x[4].argc = k; r.append(x)
        return r

    def walk1(s, w, code, operands):
        p = Path()
        if s.disp.op == "indirectbr": p.env[s.ip] = IP0
        else: p.env[s.ip] = IP0 - 1
        p.env[s.cur] = clo(0)
        for k, b in s.bases.items(): p.env[k] = b
        out = []
        start = s.entry[code]
        if s.disp.op == "switch":
            for i in s.f.blocks[s.db]:
                if i.op == "phi": continue
                if i.op in ("switch",): break
                w.event(p, i); p.env[i.id] = w.ev1(p, i)
            # curOp is re-read through ip[-1]
        w.operands = operands
        p.mem[IP0 - 1] = code
        return s.ends(w, w.run(start, {s.db, s.throw}, s.db, p))

    def walk_throw(s):
        """paths of the code that looks for a handler, entered from the throw instruction with nothing popped"""
        w = OpWalk(s, [])
        pred = [b for b in range(len(s.f.blocks)) if s.throw in s.f.succ[b]]
        p = Path(); p.env[s.cur] = clo(0); p.env[s.ip] = IP0
        out = []
        w.visits = 2
        for q in w.run(s.throw, {s.db}, s.throw_pred(), p): out.append(q)
        return s.ends(w, out)

    def throw_pred(s):
        # a predecessor that passes the current closure unchanged
        for i in s.f.blocks[s.throw]:
            if i.op != "phi": break
            for v, b in i.inc:
                if v == ("ins", s.cur): return b
        for b in range(len(s.f.blocks)):
            if s.throw in s.f.succ[b]: return b

    def ends(s, w, paths):
        out = []
        for q in paths:
            sp = q.mem.get(s.ctx + s.o_sp, SP0)
            csp = q.mem.get(s.ctx + s.o_csp, CSP0)
            dsp = None if sp is None else sp - SP0
            dcsp = None if csp is None else csp - CSP0
            if isinstance(q.end, tuple):
                a, b = q.end
                if b == s.throw: out.append(("throw", None, dsp, dcsp, q)); continue
                v = [x for x, pb in s.f.ins[s.ip].inc if pb == a]
                ip = w.val(q, v[0])
                if ip is not None and s.disp.op == "indirectbr": ip -= 1
                out.append(("next", None if ip is None else ip - IP0, dsp, dcsp, q))
            else:
                out.append(("ret" if q.end.op == "ret" else "exit", None, dsp, dcsp, q))
        return out
