"""Path-sensitive ownership analysis of memory blocks and operating system resources.

Every acquiring call creates a token on the path on which it succeeds (and the null pointer, -1 or an error code on the
path on which it fails). Tokens are followed through SSA values, local variables, fields of objects and calls; a path
keeps for each token whether it is owned here (L), handed on (E), released (R) or held by something else (O)."""
from .cg import liveness
from .build import AnalysisBroken

MEM, FILE_, PIPE, DIR, FD, ADDR = "memory", "file", "process", "directory", "socket", "address list"
ACQUIRE = {"malloc": MEM, "calloc": MEM, "fopen": FILE_, "popen": PIPE, "opendir": DIR, "strdup": MEM, "strndup": MEM, "tmpfile": FILE_}
FDS = {"socket": FD, "open": FD, "accept": FD}
RELEASE = {"free": (0, (MEM,)), "fclose": (0, (FILE_,)), "pclose": (0, (PIPE,)), "closedir": (0, (DIR,)), "close": (0, (FD,)), "freeaddrinfo": (0, (ADDR,))}
# results of library calls that may be the null pointer without owning anything
NULLABLE = {"getenv", "strchr", "strrchr", "strstr", "localtime", "gmtime", "fgets", "strpbrk", "memchr"}
NONNULL_OK = {"free": (0,), "realloc": (0,), "fflush": (0,), "time": (0,), "setvbuf": (1,), "freeaddrinfo": (), "getaddrinfo": (0, 1, 2)}
LIMIT = 120000


class Finding(Exception): pass


class Own:
    """analysis of one function; out: {(kind, site id, detail): instruction}"""

    def __init__(s, A, name, params=(), nulls=()):
        s.nulls = nulls; s.owners = []; s.A = A; s.P = A.P; s.f = A.m.fns[name]; s.name = name; s.params = params
        s.out = {}; s.exits = set(); s.rets = set(); s.sites = {}
        s.li, s.lo = A.live(name)
        s.torelease = s._torelease()
        s.finalizer = s._finalizer()
        s.n = 0

    def _torelease(s):
        """SSA values that reach a releasing call"""
        out = set(); todo = [i.ops[RELEASE[i.cname()][0] if i.cname() in RELEASE else 0] for i in s.f.instrs() if i.op == "call" and (i.cname() in RELEASE or i.cname() == "realloc")]
        while todo:
            o = todo.pop()
            if o[0] != "ins" or o[1] in out: continue
            out.add(o[1]); d = s.f.ins[o[1]]
            if d.op == "phi": todo += [x for x, _ in d.inc]
            elif d.op in ("bitcast", "inttoptr", "ptrtoint", "select", "extractvalue", "insertvalue"): todo += list(d.ops)
        return out

    def _finalizer(s):
        """the object of the first parameter goes back to the free list"""
        return any(i.op == "store" and i.ops[0] == ("arg", 0) and i.ops[1][0] == "glob" for i in s.f.instrs())

    # state: (env: {ssa: val}, mem: {loc: val}, tok: {tid: (state, kind, origin, site)})
    def run(s):
        env = {}; tok = {}
        for k in s.params:
            env[("arg", k)] = ("r", ("p", k)); tok[("p", k)] = ("L", None, None, None)
        for k in s.nulls: env[("arg", k)] = ("z", "arg")
        todo = [(0, None, env, {}, tok)]; seen = set()
        while todo:
            b, prev, env, mem, tok = todo.pop()
            env2 = {}
            for i in s.f.blocks[b]:
                if i.op != "phi": break
                v = [x for x, y in i.inc if y == prev][0]
                env2[("ins", i.id)] = s.val(v, env)
            env = {k: v for k, v in env.items() if k in s.li[b]}
            env.update({k: v for k, v in env2.items() if v is not None})
            used = {v[1] for v in list(env.values()) + list(mem.values()) if v[0] in "rd"}
            tok = {t: x for t, x in tok.items() if t in used or x[0] in "LF" or x[0] == "R" and x[2]}
            k = (b, tuple(sorted(env.items(), key=repr)), tuple(sorted(mem.items(), key=repr)), tuple(sorted(tok.items(), key=repr)))
            if k in seen: continue
            seen.add(k); s.n += 1
            if s.n > LIMIT: raise AnalysisBroken("%s: too many paths" % s.name)
            s.block(b, 0, env, mem, tok, todo)
        return s

    def val(s, o, env):
        if o[0] == "int": return ("c", o[1])
        if o[0] in ("ins", "arg"): return env.get(o[:2] if o[0] == "ins" else ("arg", o[1]))
        if o[0] == "glob": return ("g",)
        return None

    def find(s, kind, i, tid, tok):
        st = tok.get(tid) if tid else None
        site = st[3] if st else None
        s.out.setdefault((kind, site, st[1] if st else None), i)

    # ------------------------------------------------------------------ locations
    def loc(s, p, env):
        """(base, offset) of an address"""
        off = 0; f = s.f
        for _ in range(40):
            if p[0] != "ins": break
            d = f.ins[p[1]]
            if d.op == "getelementptr" and not d.var: off += d.off; p = d.base
            elif d.op == "bitcast": p = d.ops[0]
            elif d.op == "inttoptr" and d.ops[0][0] == "ins" and f.ins[d.ops[0][1]].op == "ptrtoint": p = f.ins[d.ops[0][1]].ops[0]
            elif d.op == "phi" and len({x for x, _ in d.inc}) == 1: p = d.inc[0][0]
            else: break
        if p[0] == "glob": return (("glob", p[1]), off + (p[2] if len(p) > 2 else 0))
        if p[0] == "ins" and f.ins[p[1]].op == "getelementptr": return None
        return (tuple(p[:2]), off)

    def local(s, loc): return loc and loc[0][0] == "ins" and s.f.ins[loc[0][1]].op == "alloca"

    # ------------------------------------------------------------------ transfer
    def block(s, b, pos, env, mem, tok, todo):
        f = s.f; bl = f.blocks[b]
        env = dict(env); mem = dict(mem); tok = dict(tok)
        while pos < len(bl):
            i = bl[pos]; pos += 1; me = ("ins", i.id)
            if i.op == "phi": continue
            if i.op == "call":
                alts = s.call(i, env, mem, tok)
                if alts is None: return                      # does not return
                if len(alts) == 1: env, mem, tok = alts[0]; continue
                for e, m, t in alts: s.block(b, pos, e, m, t, todo)
                return
            if i.op == "load":
                v = s.val(i.ops[0], env)
                s.use(i, v, tok)
                l = s.loc(i.ops[0], env)
                if l in mem: env[me] = mem[l]
                elif l and i.id in s.torelease: env[me] = ("o", l)
                continue
            if i.op == "store":
                s.use(i, s.val(i.ops[1], env), tok)
                v = s.val(i.ops[0], env); l = s.loc(i.ops[1], env)
                if v and v[0] in "rd" and tok[v[1]][0] == "R": s.find("used after its release", i, v[1], tok)
                if i.ops[0][0] != "int" and not s.local(l): s.owners.append((i, "owned" if v and v[0] == "r" and tok[v[1]][0] == "L" and tok[v[1]][1] in (MEM, None) else "null" if v and v[0] in "cz" else "other"))
                if l is not None:
                    s.settle(l, tok)
                    if v is not None and v[0] in ("r", "d", "z"): mem[l] = v
                    else: mem.pop(l, None)
                    if v and v[0] == "r" and not s.local(l): s.escape(v[1], tok)
                elif v and v[0] == "r": s.escape(v[1], tok)
                continue
            if i.op in ("bitcast", "inttoptr", "ptrtoint", "freeze", "trunc", "zext", "sext"):
                v = s.val(i.ops[0], env)
                if v is not None:
                    if v[0] == "c" and i.op in ("zext", "sext", "trunc"):
                        w = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}.get(i.ty, 64); x = v[1]
                        if i.op == "zext": x = x & ((1 << s.width(i.ops[0])) - 1)
                        elif i.op == "sext" and s.width(i.ops[0]) == 1: x = -1 if x & 1 else 0
                        elif i.op == "trunc": x &= (1 << w) - 1; x -= (1 << w) if w > 1 and x >> (w - 1) else 0
                        v = ("c", x)
                    env[me] = v
                continue
            if i.op == "getelementptr":
                v = s.val(i.base, env)
                if v and v[0] == "b" and not i.var and not i.off: env[me] = v
                elif v and v[0] in "rd": env[me] = v if not i.var and not i.off else ("d", v[1])
                elif v and v[0] in ("z", "nd"): env[me] = ("nd", v[1])
                continue
            if i.op == "insertvalue":
                x, y = s.val(i.ops[0], env), s.val(i.ops[1], env)
                v = y if y and y[0] in "rdbz" else x if x and x[0] in "rdbz" else None
                if v: env[me] = v
                continue
            if i.op == "extractvalue":
                v = s.val(i.ops[0], env)
                if v: env[me] = v
                continue
            if i.op == "icmp":
                v = s.cmp(i, env)
                if v is not None: env[me] = ("c", v)
                continue
            if i.op in ("xor", "and", "or"):
                x, y = s.val(i.ops[0], env), s.val(i.ops[1], env)
                if x and y and x[0] == y[0] == "c":
                    r = {"xor": x[1] ^ y[1], "and": x[1] & y[1], "or": x[1] | y[1]}[i.op]
                    env[me] = ("c", r & 1 if i.ty == "i1" else r)
                continue
            if i.op == "select":
                c = s.val(i.ops[0], env)
                if c and c[0] == "c": v = s.val(i.ops[1 if c[1] & 1 else 2], env)
                else:
                    vs = [s.val(i.ops[1], env), s.val(i.ops[2], env)]
                    if vs[0] == vs[1]: v = vs[0]
                    elif any(x and x[0] in "rd" for x in vs):
                        for x in vs:
                            e = dict(env)
                            if x: e[me] = x
                            s.block(b, pos, e, mem, tok, todo)
                        return
                    else: v = None
                if v: env[me] = v
                continue
            if i.op == "br":
                if len(i.ops) == 1: ts = [i.ops[0][1]]
                else:
                    c = s.val(i.ops[0], env)
                    ts = [i.ops[2][1] if c[1] & 1 else i.ops[1][1]] if c and c[0] == "c" else [i.ops[2][1], i.ops[1][1]]
                for t in ts: todo.append((t, b, env, mem, tok))
                return
            if i.op == "switch":
                c = s.val(i.ops[0], env)
                if c and c[0] == "c": ts = [dict(map(tuple, i.cases)).get(c[1], i.default)]
                else: ts = f.succ[b]
                for t in ts: todo.append((t, b, env, mem, tok))
                return
            if i.op == "indirectbr":
                for t in f.succ[b]: todo.append((t, b, env, mem, tok))
                return
            if i.op == "ret":
                s.ret(i, env, mem, tok); return
            if i.op == "unreachable": return

    def width(s, o):
        if o[0] == "int": return o[2]
        if o[0] == "arg": t = s.f.argtys[o[1]]
        else: t = s.f.ins[o[1]].ty
        return int(t[1:]) if t and t[0] == "i" and t[1:].isdigit() else 64

    def cmp(s, i, env):
        x, y = s.val(i.ops[0], env), s.val(i.ops[1], env)
        if x is None or y is None: return None
        if x[0] == "z": x = ("c", 0)
        if y[0] == "z": y = ("c", 0)
        if x[0] == y[0] == "c":
            a, b = x[1], y[1]; w = s.width(i.ops[0])
            u = lambda v: v & ((1 << w) - 1)
            return int({"eq": u(a) == u(b), "ne": u(a) != u(b), "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b, "ult": u(a) < u(b), "ugt": u(a) > u(b), "ule": u(a) <= u(b), "uge": u(a) >= u(b)}[i.pred])
        if ("nz",) in (x, y) and ("c", 0) in (x, y): return {"eq": 0, "ne": 1, "ugt": int(x == ("nz",))}.get(i.pred)
        if y[0] != "c": x, y = y, x; sw = True
        else: sw = False
        if y[0] == "c" and x[0] in "rdg":
            fd = x[0] in "rd" and str(x[1][0]) == "fd"
            if fd:                                         # a valid descriptor is not negative
                p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(i.pred, i.pred) if sw else i.pred
                if y[1] <= 0 and p == "slt": return 0
                if y[1] <= 0 and p == "sge": return 1
                if y[1] < 0: return {"eq": 0, "ne": 1, "sle": 0, "sgt": 1}.get(p)
                return None
            if y[1] == 0: return {"eq": 0, "ne": 1}.get(i.pred)
        if x[0] == y[0] == "r" and i.pred in ("eq", "ne"): return int((x[1] == y[1]) == (i.pred == "eq"))
        return None

    def use(s, i, v, tok):
        """memory is accessed through v"""
        if v is None: return
        if v[0] in "rd":
            if tok.get(v[1], ("",))[0] == "R": s.find("used after its release", i, v[1], tok)
        elif v[0] in ("z", "nd"): s.null(i, v)

    def null(s, i, v):
        s.out.setdefault(("used without having checked for failure", v[1], None), i)

    def escape(s, t, tok):
        if tok[t][0] == "L": tok[t] = ("E",) + tok[t][1:]

    def settle(s, l, tok):
        """location l is overwritten: a released pointer kept there is gone"""
        for t, x in list(tok.items()):
            if x[2] == l: tok[t] = x[:2] + (None,) + x[3:]

    def fresh(s, kind, i, tok, fd=False):
        """a new token for an acquiring call"""
        t = ("fd" if fd else "a", i.id)
        return t

    def rename(s, t, env, mem, tok):
        """the token of an earlier turn of a loop"""
        if t not in tok: return
        st = tok.pop(t); n = t + ("old",)
        if n in tok and tok[n][0] == "L" and st[0] == "L": pass
        if n not in tok or st[0] == "L": tok[n] = st
        for d in (env, mem):
            for k, v in list(d.items()):
                if v[0] in "rd" and v[1] == t: d[k] = (v[0], n)

    def acquire(s, i, kind, env, mem, tok, fail=None, fd=False):
        me = ("ins", i.id); t = s.fresh(kind, i, tok, fd)
        e1, m1, t1 = dict(env), dict(mem), dict(tok)
        s.rename(t, e1, m1, t1)
        site = (i.cname(), s.A.nth(s.f, i)); s.sites[site] = i
        e1[me] = ("r", t); t1[t] = ("L", kind, None, site)
        e2 = dict(env); e2[me] = fail or ("z", site)
        t2 = dict(tok); t2[("failed",)] = ("F", None, None, None)
        if i.cname() in ("malloc", "calloc"):                 # asking for nothing does not fail
            for o in i.ops:
                while o[0] in ("ins", "arg"):
                    e2.setdefault(tuple(o[:2]), ("nz",))
                    d = s.f.ins.get(o[1]) if o[0] == "ins" else None
                    if d is None or d.op not in ("sext", "zext", "trunc"): break
                    o = d.ops[0]
        return [(e1, m1, t1), (e2, dict(mem), t2)]

    def release(s, i, v, o, kinds, env, mem, tok):
        """True when something was released"""
        if v is None or v[0] in "ob":
            # held by a field or by the caller: whoever holds it must not be left with it
            l = v[1] if v and v[0] == "o" else None
            if l is None:
                p = o
                while p[0] == "ins" and s.f.ins[p[1]].op in ("inttoptr", "ptrtoint", "bitcast"): p = s.f.ins[p[1]].ops[0]
                if p[0] == "ins" and s.f.ins[p[1]].op == "load": l = s.loc(s.f.ins[p[1]].ops[0], env)
                elif p[0] == "arg": l = ("caller", p[1])
                if l is None: return
            t = ("o", l)
            tok[t] = ("R", kinds[0], l, (i.cname(), s.A.nth(s.f, i)))
            for k, x in list(env.items()):
                if x == ("o", l): env[k] = ("r", t)
            env[tuple(o[:2])] = ("r", t)
            return
        if v[0] in "cz": return
        if v[0] == "d": s.find("released through a pointer into it", i, v[1], tok); return
        if v[0] != "r": return
        st = tok[v[1]]
        if st[0] == "R": s.find("released twice", i, v[1], tok); return
        if st[1] and st[1] not in kinds: s.find("released as a %s" % kinds[0], i, v[1], tok)
        org = None
        if st[0] == "E":
            ls = [l for l, x in mem.items() if x == v and not s.local(l)]
            org = ls[0] if ls else ("elsewhere",)
        tok[v[1]] = ("R", st[1], org, st[3])

    def call(s, i, env, mem, tok):
        c = i.cname(); me = ("ins", i.id)
        if c is None: s.args(i, env, mem, tok, None); return [(env, mem, tok)]
        if c.startswith("llvm."):
            if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                for k in (0, 1) if "memset" not in c else (0,):
                    s.use(i, s.val(i.ops[k], env), tok)
            if c.startswith("llvm.expect"): 
                v = s.val(i.ops[0], env)
                if v: env[me] = v
            return [(env, mem, tok)]
        if c in ("exit", "abort", "_exit", "longjmp"): return None
        g = s.A.m.fns.get(c)
        if g is not None and g.noreturn: return None
        if c in RELEASE:
            k, kinds = RELEASE[c]; v = s.val(i.ops[k], env)
            if v and v[0] == "z" and c not in ("free", "freeaddrinfo"): s.null(i, v)
            s.release(i, v, i.ops[k], kinds, env, mem, tok)
            return [(env, mem, tok)]
        if c == "realloc":
            v = s.val(i.ops[0], env)
            if v and v[0] == "d": s.find("released through a pointer into it", i, v[1], tok)
            if v and v[0] == "r" and tok[v[1]][0] == "R": s.find("used after its release", i, v[1], tok)
            ok, fail = s.acquire(i, MEM, env, mem, tok)
            # on success the old block is gone
            e, m, t = ok
            if v and v[0] == "r":
                old = ("a", i.id, "old") if v[1] == ("a", i.id) else v[1]
                s.release(i, ("r", old), i.ops[0], (MEM,), e, m, t)
            else: s.release(i, v, i.ops[0], (MEM,), e, m, t)
            return [ok, fail]
        if c in ACQUIRE:
            s.args(i, env, mem, tok, c)
            return s.acquire(i, ACQUIRE[c], env, mem, tok)
        if c in FDS: return s.acquire(i, FD, env, mem, tok, ("c", -1), True)
        if c == "fdopen":
            v = s.val(i.ops[0], env); e2 = dict(env); e2[me] = ("z", (c, s.A.nth(s.f, i)))
            e1, m1, t1 = dict(env), dict(mem), dict(tok)
            if v and v[0] == "r":
                a = s.acquire(i, FILE_, env, mem, tok)
                a[0][2][v[1]] = ("E",) + a[0][2][v[1]][1:]
                return a
            else:
                return s.acquire(i, FILE_, env, mem, tok)
            return [(e1, m1, t1), (e2, dict(mem), dict(tok))]
        if c == "getaddrinfo":
            l = s.loc(i.ops[3], env); t = ("a", i.id)
            e1, m1, t1 = dict(env), dict(mem), dict(tok); s.rename(t, e1, m1, t1)
            site = (c, s.A.nth(s.f, i)); s.sites[site] = i
            e1[me] = ("c", 0); m1[l] = ("r", t); t1[t] = ("L", ADDR, None, site)
            e2 = dict(env); e2[me] = ("c", 1)
            return [(e1, m1, t1), (e2, dict(mem), dict(tok))]
        if c in NULLABLE:
            s.args(i, env, mem, tok, c)
            e2 = dict(env); e2[me] = ("z", (c, s.A.nth(s.f, i))); e1 = dict(env); e1[me] = ("g",)
            return [(e1, dict(mem), dict(tok)), (e2, dict(mem), dict(tok))]
        if g is None or g.decl:
            s.args(i, env, mem, tok, c); return [(env, mem, tok)]
        return s.internal(i, c, g, env, mem, tok)

    def args(s, i, env, mem, tok, c):
        ok = NONNULL_OK.get(c, ())
        for k, o in enumerate(i.ops):
            v = s.val(o, env)
            if v is None: continue
            if v[0] in "rd" and tok.get(v[1], ("",))[0] == "R": s.find("used after its release", i, v[1], tok)
            if v[0] == "nd" or v[0] == "z" and c is not None and k not in ok: s.null(i, v)

    def isptr(s, o):
        if o[0] == "int": return False                       # a literal null is deliberate
        if o[0] == "arg": return s.f.argtys[o[1]] == "ptr"
        return o[0] == "ins" and s.f.ins[o[1]].ty == "ptr"

    def internal(s, i, c, g, env, mem, tok):
        me = ("ins", i.id)
        if g.ret == "ptr": env[me] = ("b", me)
        alts = [(env, mem, tok)]
        for k, o in enumerate(i.ops):
            v = s.val(o, env)
            if v is None: continue
            if v[0] in "rd" and tok.get(v[1], ("",))[0] == "R": s.find("used after its release", i, v[1], tok)
            elif v[0] == "r" and tok[v[1]][0] in "L":
                st = s.A.param(c, k); new = []
                for e, m, t in alts:
                    for x in sorted(st):
                        t2 = dict(t)
                        t2[v[1]] = (x,) + t2[v[1]][1:]
                        new.append((dict(e), dict(m), t2))
                alts = new or alts
            elif v[0] == "nd" or v[0] == "z" and s.A.derefs(c, k): s.null(i, v)
        for k, o in enumerate(i.ops):                         # memory the callee leaves in a local object
            if not s.isptr(o): continue
            l = s.loc(o, env)
            if not s.local(l): continue
            for off in sorted(s.A.fills(c, k)):
                l2 = (l[0], l[1] + off); t = ("f", l2)
                for e, m, tk in alts:
                    v = m.get(l2)
                    if v and v[0] == "r" and tk[v[1]][0] == "L": continue
                    site = (c, s.A.nth(s.f, i)); s.sites[site] = i
                    m[l2] = ("r", t); tk[t] = ("L", MEM, None, site)
        rs = s.A.returns(c)
        if "r" in rs:
            out = []
            for e, m, t in alts:
                a = s.acquire(i, MEM, e, m, t)
                out.append(a[0])
                if "n" in rs: out.append(a[1])
            alts = out
        elif g.ret == "ptr" and "z" in rs and "g" in rs and s.A.osfail(c):
            out = []
            for e, m, t in alts:
                e1 = dict(e); e1[me] = ("g",); e2 = dict(e); e2[me] = ("z", (c, s.A.nth(s.f, i)))
                out += [(e1, m, t), (e2, dict(m), dict(t))]
            alts = out
        return alts

    def ret(s, i, env, mem, tok):
        v = None
        for o in i.ops:
            v = v or s.val(o, env)
        tok = dict(tok)
        if v and v[0] in "rd":
            st = tok.get(v[1])
            if st and st[0] == "R": s.find("used after its release", i, v[1], tok)
            if st and st[0] == "L":
                s.rets.add("r"); tok[v[1]] = ("E",) + st[1:]
            else: s.rets.add("g")
        elif v and v[0] == "z" and s.f.ret != "ptr": s.out.setdefault(("failure becomes part of a value", v[1], None), i); s.rets.add("g")
        elif v and (v == ("c", 0) or v[0] == "z"): s.rets.add("n"); s.rets |= {"z"} if ("failed",) in tok else set()
        else: s.rets.add("g")
        for t, x in tok.items():
            if t[0] == "p": s.exits.add((t[1], x[0]))
            elif x[0] == "L": s.find("not released", i, t, tok)
            elif x[0] == "R" and x[2] and not s.finalizer and not s.local(x[2]): s.find("released, but still referred to", i, t, tok)
        for l, x in mem.items():
            if x[0] == "z" and not s.local(l) and (l[0][0] in ("glob", "arg", "caller") or v == ("b", l[0])): s.out.setdefault(("failure stored in an object", x[1], None), i)


class Analysis:
    def __init__(s, P):
        s.P = P; s.m = P.m; s._live = {}; s._fn = {}; s._par = {}; s._nth = {}; s._der = {}; s._osf = {}; s._fill = {}

    def live(s, n):
        if n not in s._live: s._live[n] = liveness(s.m.fns[n])
        return s._live[n]

    def nth(s, f, i):
        """ordinal of a call among the calls of the same function"""
        if f.name not in s._nth:
            d = s._nth[f.name] = {}; c = {}
            for j in f.instrs():
                if j.op == "call":
                    c[j.cname()] = c.get(j.cname(), 0) + 1; d[j.id] = c[j.cname()]
        return s._nth[f.name][i.id]

    def fn(s, n):
        if n not in s._fn:
            s.fills("", 0)
            s._fn[n] = None                                   # recursion: nothing known yet
            s._fn[n] = Own(s, n).run()
        return s._fn[n]

    def interesting(s, n):
        """functions worth analysing: they acquire, release or allocate something, directly"""
        return any(i.op == "call" and (i.cname() in ACQUIRE or i.cname() in RELEASE or i.cname() in FDS or i.cname() in NULLABLE or i.cname() in ("realloc", "getaddrinfo", "fdopen"))
                   for i in s.m.fns[n].instrs())

    def osfail(s, n):
        if n not in s._osf:
            s._osf[n] = False
            s._osf[n] = s.m.fns[n].ret == "ptr" and s.interesting(n)
        return s._osf[n]

    def resourceful(s, n):
        return s.interesting(n) or any(i.op == "call" and i.cname() in s.m.defs and ("r" in s.returns(i.cname()) or any(s.fills(i.cname(), k) for k in range(len(i.ops)))) for i in s.m.fns[n].instrs())

    def fills(s, n, k):
        """offsets of fields of the object argument k points to that are given memory to own"""
        if not s._fill:
            s._fill = {("", 0): set()}                       # results obtained meanwhile are provisional
            kept = s._fn, s._par, s._der, s._osf
            s._fn, s._par, s._der, s._osf = {}, {}, {}, {}
            for g, f in s.m.defs.items():
                if any(i.op == "call" and (i.cname() == "realloc" or i.cname() in ACQUIRE) for i in f.instrs()):
                    r = s.fn(g)
                    for i, how in r.owners:
                        l = r.loc(i.ops[1], {}) if how == "owned" else None
                        if l and l[0][0] == "arg": s._fill.setdefault((g, l[0][1]), set()).add(l[1])
            ch = True
            while ch:
                ch = False
                for g, f in s.m.defs.items():
                    for i in f.instrs():
                        if i.op != "call" or i.cname() not in s.m.defs: continue
                        for j, o in enumerate(i.ops):
                            add = s._fill.get((i.cname(), j))
                            if not add: continue
                            l = Own.loc(s.at(f), o, {})
                            if l is None or l[0][0] != "arg": continue
                            x = s._fill.setdefault((g, l[0][1]), set()); n0 = len(x)
                            x |= {l[1] + q for q in add}
                            ch |= len(x) != n0
            s._fn, s._par, s._der, s._osf = kept
        return s._fill.get((n, k), ())

    class at:
        def __init__(s, f): s.f = f

    def returns(s, n):
        f = s.m.fns[n]
        if f.decl or f.ret != "ptr" or not s.interesting(n): return set()
        r = s.fn(n)
        return r.rets if r else set()

    def param(s, n, k):
        """states of an owned resource passed as argument k, after the call"""
        if (n, k) not in s._par:
            s._par[(n, k)] = {"L"}
            o = Own(s, n, (k,)).run()
            s._par[(n, k)] = {x for p, x in o.exits if p == k} or {"L"}
        return s._par[(n, k)]

    def derefs(s, n, k):
        """argument k is accessed without a test on some path"""
        if (n, k) not in s._der:
            s._der[(n, k)] = False
            o = Own(s, n, (), (k,)).run()
            s._der[(n, k)] = any(x[1] == "arg" for x in o.out)
        return s._der[(n, k)]
