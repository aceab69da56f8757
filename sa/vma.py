"""The virtual machine's instruction handlers under the abstract interpreter: the operand stack, the closure stack and the
thread record are known regions, everything else is named by the place it is read from."""
from .absint import *
from .vmops import VM, SP0, CSP0, LOC


class VMA(Abs):
    limit = 20000; visits = 9; name = "the virtual machine"
    into_names = {"lClosureNewFunCall", "funCallClosure", "lStackBuildList", "lClosureNew"}

    def __init__(s, vm):
        super().__init__(vm.P); s.vm = vm; s.f = vm.f
        m = s.m
        s.T = m.enum("lType")
        s.ctx = Ptr(("al", 0, (vm.ctx - LOC) // 65536), (vm.ctx - LOC) % 65536)
        s.fo = {}
        for st in ("lThread", "lClosure", "lNFunc", "lPair", "lBytecodeArray", "lArray"):
            s.fo[st] = {x["n"]: x["o"] for x in m.struct(st)["fields"]}
        s.allocs = {i.id for i in s.f.instrs() if i.op == "alloca"}
        s.new = {"lPairAllocRaw": None, "lClosureAllocRaw": "lClosure"}
        s.raw = s.allocators()

    def allocators(s):
        """functions that return a fresh object: name -> size of the structure"""
        out = {}
        for n, f in s.m.defs.items():
            if n.endswith("AllocRaw"): out[n] = s.m.structs.get(n[:-8], {}).get("size") or s.m.struct(n[:-8])["size"]
        return out

    def setup(s):
        o = s.fo["lThread"]; c = s.ctx
        s.store(Ptr(c.b, c.o + o["sp"]), SP0, 4); s.store(Ptr(c.b, c.o + o["csp"]), CSP0, 4)
        s.store(Ptr(c.b, c.o + o["valueStack"]), Ptr(("VS",)), 8); s.store(Ptr(c.b, c.o + o["closureStack"]), Ptr(("CS",)), 8)

    def init(s, b, o, n):
        if b == ("VS",): return S(("slot", o // 16 - SP0, o % 16), 8 * n)
        if b == ("CS",): return Ptr(("clo", o // 8 - CSP0))
        if b == ("code",): return S(("code", o), 8 * n)
        r = super().init(b, o, n)
        if r is None and isinstance(b, tuple) and b[0] == "g" and b[1] == "lGCShouldRunSoon": return 0
        return r

    def into(s, n): return n in s.into_names

    def model(s, F, i, n, args):
        if n in s.raw:
            b = ("new", s.fresh(), n); s.mem[b] = {}
            s.zero(Ptr(b), s.raw[n])
            return (Ptr(b),)
        return None

    def slot(s, rel, tag=None, val=None):
        """(tag, payload) of an operand stack slot"""
        p = Ptr(("VS",), (SP0 + rel) * 16)
        if tag is not None:
            s.store(p, tag, 2); s.store(Ptr(p.b, p.o + 8), val, 8)
        return s.lval(p)

    def lval(s, p):
        return (s.load(p, 2), s.load(Ptr(p.b, p.o + 8), 8))

    def sp(s): return s.load(Ptr(s.ctx.b, s.ctx.o + s.fo["lThread"]["sp"]), 4)
    def csp(s): return s.load(Ptr(s.ctx.b, s.ctx.o + s.fo["lThread"]["csp"]), 4)

    def begin(s, code, operands):
        env = {k: Ptr(("al", 0, k)) for k in s.allocs}
        ip = Ptr(("code",), 1000)
        for k, b in enumerate([code] + list(operands)): s.store(Ptr(("code",), 999 + k), sgn(b, 8) if b is not None else S(("operand", k - 1), 8), 1)
        env[s.vm.ip] = ip if s.vm.disp.op == "indirectbr" else Ptr(("code",), 999)
        env[s.vm.cur] = Ptr(("clo", 0))
        for k in s.vm.bases: env[k] = S(("loop", k))
        for i in s.f.blocks[s.vm.db]:
            if i.op == "phi": env.setdefault(i.id, S(("loop", i.id), width(i.ty)))
        return env

    def run(s, code, operands, prev=None):
        """follow one instruction on the current path: (end kind, values of the loop-carried variables)"""
        vm = s.vm; env = s.begin(code, operands)
        start = vm.entry[code]
        if vm.disp.op == "switch": raise AnalysisBroken("switch dispatch is not supported here")
        return s.finish(lambda: s.frame(s.f, [S(("arg", k)) for k in range(len(s.f.argtys))], start, vm.db, env, {vm.db, vm.throw}))

    def run_throw(s):
        vm = s.vm; env = s.begin(0, [])
        for i in s.f.blocks[vm.throw]:
            if i.op == "phi":
                p = [v for v, b in i.inc if v == ("ins", vm.cur)]
                q = [v for v, b in i.inc if v == ("ins", vm.ip)]
                env[i.id] = Ptr(("clo", 0)) if p else Ptr(("code",), 1000) if q else S(("thrown", i.id), width(i.ty))
        return s.finish(lambda: s.frame(s.f, [S(("arg", k)) for k in range(len(s.f.argtys))], vm.throw, None, env, {vm.db, vm.throw}))

    def havoc(s, v, callee=None):
        """what is called with the thread record may move the stacks, but keeps what is on them; it changes how much is on
        them only if it, or something it hands the record to, stores to those fields"""
        p = s.ptr(v)
        if p is None or p.b != s.ctx.b or callee is None: return super().havoc(v, callee)
        o = s.fo["lThread"]; mod = s.argwrites(callee)
        keep = ["valueStack", "closureStack"] + [k for k in ("sp", "csp", "text", "valueStackSize", "closureStackSize") if None not in mod and o[k] not in mod]
        d = s.mem.get(p.b, {}); have = {s.ctx.o + o[k]: d.get(s.ctx.o + o[k]) for k in keep}
        s.mem[p.b] = {k: x for k, x in have.items() if x}

    def argwrites(s, name, seen=()):
        """offsets in a structure a function receives by address that it may store to; None for anywhere"""
        memo = s.__dict__.setdefault("_aw", {})
        if name in memo: return memo[name]
        f = s.m.defs.get(name); out = set()
        if f is None or name in seen: return {None} if f is None else out
        off = {("arg", k): 0 for k, t in enumerate(f.argtys) if t == "ptr"}
        get = lambda o: off.get(o[:2] if o[0] in ("ins", "arg") else None)
        for b in f.rpo:
            for i in f.blocks[b]:
                if i.op == "getelementptr":
                    x = get(i.base) if i.base else None
                    if x is not None or i.base and (i.base[:2] if i.base[0] in ("ins", "arg") else None) in off:
                        off[("ins", i.id)] = None if i.var or i.off is None or x is None else x + i.off
                elif i.op == "phi":
                    if any(o[0] in ("ins", "arg") and o[:2] in off for o, _ in i.inc): off[("ins", i.id)] = None
                elif i.op in ("select", "bitcast", "freeze"):
                    if any(o[0] in ("ins", "arg") and o[:2] in off for o in i.ops): off[("ins", i.id)] = None
                elif i.op == "store":
                    if i.ops[1][0] in ("ins", "arg") and i.ops[1][:2] in off: out.add(off[i.ops[1][:2]])
                elif i.op == "call":
                    c = i.cname()
                    hit = [o for o in i.ops if o[0] in ("ins", "arg") and o[:2] in off]
                    if not hit: continue
                    if c and c.startswith(("llvm.lifetime", "llvm.dbg")): continue
                    if c in s.m.defs and all(off[o[:2]] == 0 for o in hit): out |= s.argwrites(c, seen + (name,))
                    else: out.add(None)
        memo[name] = out
        return out

    def finish(s, go):
        vm = s.vm
        try:
            r = go()
            return "ret", {}, r
        except Done as d:
            if d.kind != "stop": return d.kind, {}, None
            b, n, F = d.v
            out = {}
            for i in s.f.blocks[n]:
                if i.op != "phi": break
                v = [x for x, pb in i.inc if pb == b]
                out[i.id] = s.val(F, v[0]) if v else None
            return ("next" if n == vm.db else "throw"), out, None
