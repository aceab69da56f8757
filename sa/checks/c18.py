"""C18: what a program asks of the operating system is done, and a failure shows."""
from ..report import Report, prog
from ..build import AnalysisBroken
from ..r_tags import setup
from ..absint import *
import re

RULE = ("The functions through which programs reach files, directories, processes, sockets and the environment are followed on every path through the compiled code, with the operating system's answers left open. "
        "Each call to the system is compared with what was asked: the file and mode it opens, the bytes it transfers (as linear expressions over what earlier calls returned), the fields it reports, "
        "and whether the outcome of a failing call can be told from success. An effect analysis over the call graph shows that no other built-in function reaches a call that changes the system.")

INT = (1 << 31) - 1
ZERO_OK = {"unlink": "rm", "rmdir": "rmdir", "mkdir": "mkdir", "chdir": "cd", "fflush": "file/flush*", "fclose": "file/close*", "fseek": "file/seek*", "remove": "rm", "rename": "", "fseeko": "file/seek*"}
CHANGES = {"unlink", "rmdir", "mkdir", "chdir", "remove", "rename", "popen", "system", "execve", "execvp", "execl", "fork", "kill", "chmod", "chown", "truncate", "ftruncate", "link", "symlink", "setenv", "putenv", "unsetenv",
           "fopen", "open", "creat", "freopen", "opendir", "socket", "connect", "exit", "_exit", "abort", "tcsetattr", "fwrite", "write", "send", "fputs", "fputc", "fclose", "close", "unlinkat", "mkfifo", "utime", "dup2"}
MAY = {"file/open-output*": {"fopen"}, "file/open-input*": {"fopen"}, "file/close*": {"fclose"}, "file/write*": {"fwrite"}, "rm": {"unlink", "remove"}, "rmdir": {"rmdir"}, "mkdir": {"mkdir", "opendir"}, "cd": {"chdir"},
       "ls": {"opendir"}, "popen": {"popen"}, "exit": {"exit"}, "socket/connect": {"socket", "connect", "close"}, "file/raw*": {"tcsetattr"}}
STAT = {"size": "st_size", "user-id": "st_uid", "group-id": "st_gid", "access-time": "st_atim", "modification-time": "st_mtim"}
KINDS = {"regular-file?": 0o100000, "directory?": 0o040000, "character-device?": 0o020000, "block-device?": 0o060000, "named-pipe?": 0o010000}


class Sys(Abs):
    limit = 30000; visits = 4; steps = 400000

    def __init__(s, P, opaque):
        super().__init__(P); s.opaque = opaque; s.T = P.m.enum("lType"); s.calls = []; s.errs = None; s.entries = None; s.dname = 0; s.symbols = {}

    def setup(s): s.calls = []
    def snap(s): return dict(super().snap(), calls=s.calls, gen=s.gen)
    def into(s, n): return n in s.m.defs and n not in s.opaque

    def init(s, b, o, n):
        if isinstance(b, tuple) and b[0] == "dirent" and n == 1 and s.dname <= o <= s.dname + len(b[2]): return (b[2] + "\0").encode()[o - s.dname]
        if isinstance(b, tuple) and b[0] == "g" and o == 0 and n == 8 and b[1] in s.symbols: return Ptr(("symbol", s.symbols[b[1]]))
        if b == ("fun", "errno"): return S(("errno",), 32)
        if isinstance(b, tuple) and b[0] == "al" and b in s.gen: return S(("mem", b, o, s.gen[b]), 8 * n)
        return super().init(b, o, n)

    def model(s, F, i, n, args):
        if n in s.m.defs and s.into(n): return None
        args = [s.norm(a) for a in args]
        if n in ("fread", "fwrite", "fread_unlocked", "fwrite_unlocked"):
            g = S(("got", len(s.calls)), 32); s.setiv("s", g, 0, INT); s.setiv("u", g, 0, INT)
            r = S(("zext", g), 64); s.calls.append((n.split("_")[0], args, g, i)); return (r,)
        if n in ("malloc", "calloc", "realloc"):
            k = s.fresh()
            if n == "realloc": s.calls.append(("realloc", args, k, i))
            if s.choose(2): return (0,)
            return (Ptr(("heap", k)),)
        if n.startswith("readdir") and s.entries is not None:
            k = len([1 for c in s.calls if c[0].startswith("readdir")]); r = s.entries[k] if k < len(s.entries) else 0
            s.calls.append((n, args, r, i)); return (r,)
        if n in ("strcmp", "strncmp", "strlen", "strcasecmp"):
            x = [s.cstr(a) for a in args[:1 if n == "strlen" else 2]]
            if None not in x:
                if n == "strlen": return (len(x[0]),)
                if n == "strncmp" and isinstance(args[2], int): x = [y[:args[2]] for y in x]
                return ((x[0] > x[1]) - (x[0] < x[1]),)
        if n in ("strchr", "strchrnul", "strcspn", "rawmemchr", "memchr") and args and s.scanned(args):
            # the characters are looked at one after the other
            p = s.ptr(args[0]); stop = [args[1]] if isinstance(args[1], int) else [ord(c) for c in s.cstr(args[1])]
            for k in range(8):
                if n == "memchr" and isinstance(args[2], int) and k >= args[2]: return (0,)
                x = s.norm(s.load(Ptr(p.b, p.o + k), 1))
                if any(s.same(x, sgn(c, 8), 8) for c in stop): return (k if n == "strcspn" else Ptr(p.b, p.o + k),)
                if n not in ("rawmemchr", "memchr") and s.same(x, 0, 8): return ((Ptr(p.b, p.o + k), k, 0)[("strchrnul", "strcspn", "strchr").index(n)],)
            raise Cut()
        if n == "__errno_location": return (Ptr(("fun", "errno")),)
        if n == "exit": s.calls.append((n, args, None, i)); return None
        if n.endswith("AllocRaw"):
            b = ("new", s.fresh(), n); s.mem[b] = {}; return (Ptr(b),)
        if n.startswith("lValException"):
            s.calls.append((n, args, None, i)); return (Agg(((0, s.T["ltException"]), (1, S(("exc", s.fresh()), 64)))),)
        if i.ty == "void": s.calls.append((n, args, None, i)); return None
        if n.startswith("lValString") and i.ty.startswith("{"):
            s.calls.append((n, args, None, i)); return (Agg(((0, s.T["ltString"]), (1, S(("string", s.fresh(), *args), 64)))),)
        if i.ty.startswith("{") or n.startswith("lVal"):
            s.calls.append((n, args, None, i)); return None
        r = S(("ret", n, s.fresh()), width(i.ty))
        if n in ("pclose", "pclose_"): pass
        s.calls.append((n, args, r, i))
        f = s.m.fns.get(n)
        if f is not None and f.noreturn: s.ev.append(("call", n, args, i)); raise Done("exit", n)
        for a in args:
            if isinstance(a, Ptr) and isinstance(a.b, tuple) and a.b[0] == "al": s.havoc(a, n); s.gen[a.b] = s.fresh()
        if i.ty == "ptr" and n not in ("strerror",):
            if s.choose(2): s.sub[r] = 0; return (0,)
            s.ne.setdefault(r, set()).add(0)
        return (r,)

    def scanned(s, args):
        p = s.ptr(args[0])
        return p is not None and p.b == ("env",) and (isinstance(args[1], int) or s.cstr(args[1]) is not None)

    def cstr(s, a):
        if not isinstance(a, Ptr) or not isinstance(a.b, tuple): return None
        if a.b[0] == "g": return s.m.cstr(("glob", a.b[1], a.o))
        if a.b[0] == "dirent" and s.dname <= a.o <= s.dname + len(a.b[2]): return a.b[2][a.o - s.dname:]
        return None


def run():
    R = Report("C18", RULE)
    P, nats, par = setup(prog()); m = P.m; T = m.enum("lType")
    opaque = {"lGarbageCollect", "lTreeInsert", "lSymS", "lSymSL", "lSymSM", "lApply", "lBytecodeEval", "lDefineVal", "lGetClosureSym", "lNewRoot", "readImage", "findRoot", "lRedefineNativeFuncs", "lTreeRef"} | \
             {n for n in m.defs if n.endswith("AllocRaw") or n.startswith(("lValString", "lValException"))}
    A = Sys(P, opaque); A.name = "system functions"
    by = {n.name: m.defs[n.fn] for n in nats if n.kind == "func"}
    inv = {v: k for k, v in T.items()}
    where = lambda f: "%s:%d" % (f.file, f.line)
    np = [0]

    def args(f, fix):
        lv = P.lval_params(f); a = [None] * len(f.argtys)
        for k, (t, v, pos) in enumerate(lv):
            x = fix[k] if k in fix else (S(("tag", k), 16), S(("pay", k), 64))
            if v is None:
                b = ("al", 0, "byval%d" % k); A.store(Ptr(b, 0), x[0], 2); A.store(Ptr(b, 8), x[1], 8); a[t] = Ptr(b)
            else: a[t], a[v] = x
        return [S(("arg", k), width(f.argtys[k])) if x is None else x for k, x in enumerate(a)]

    def follow(f, fix={}, raw=None, pre=None):
        A.name = f.name
        def go():
            if pre: pre()
            return A.frame(f, raw or args(f, fix), 0, None, {}, ())
        ps = A.paths(go)
        np[0] += len(ps); R.functions.add(f.name)
        return ps

    def at(p): A.mem, A.sub, A.ne, A.cmp, A.iv, A.gen = (p.st[k] for k in ("mem", "sub", "ne", "cmp", "iv", "gen"))

    def outcome(p):
        if p.kind != "ret": return ("exit",)
        if not isinstance(p.ret, Agg): return ("value", p.ret)
        d = dict(p.ret); t = A.norm(d.get(0)); v = A.norm(d.get(1))
        if t == T["ltException"]: return ("exception",)
        if t == T["ltNil"]: return ("nil",)
        if t == T["ltBool"]: return ("bool", A.norm(A.un("trunc", v, 8, 64)))
        return ("value", t, v)

    def native(name):
        if name not in by: raise AnalysisBroken("C18: no built-in function %s" % name)
        return by[name]

    STR = lambda k: (T["ltString"], Ptr(("str", k)))
    HANDLE = (T["ltFileHandle"], Ptr(("FILE",)))
    isfile = lambda v: A.norm(v) == Ptr(("FILE",))
    def text(k): return A.load(Ptr(("str", k)), 8)                       # the characters of a string
    def istext(v, k): return A.norm(v) == A.norm(text(k))
    def sym(name):
        """global variable a symbol is kept in"""
        return symglob.get(name, ())
    symglob = {}
    for f in m.defs.values():
        for i in f.instrs():
            if i.op == "store" and i.ops[1][0] == "glob" and i.ops[0][0] == "ins":
                c = f.ins[i.ops[0][1]]
                if c.op == "call" and (c.cname() or "").startswith("lSymS") and c.ops:
                    t = m.cstr(c.ops[0])
                    if t: symglob.setdefault(t, set()).add(i.ops[1][1])
    R.floor("symbols", len(symglob), 20)
    for t, gs in symglob.items():                                          # symbols with different names are different
        for g in gs:
            if sum(g in x for x in symglob.values()) == 1: A.symbols[g] = t
    def symbol(name, v):
        v = A.norm(v)
        return any(v == A.norm(A.load(Ptr(("g", g)), 8)) for g in symglob.get(name, ()))

    def mode(v):
        v = A.norm(v)
        return m.cstr(("glob", v.b[1], v.o)) if isinstance(v, Ptr) and isinstance(v.b, tuple) and v.b[0] == "g" else None

    # --- opening
    f = native("file/open-output*"); nopen = 0
    for p in follow(f, {0: STR(0)}):
        at(p); w = where(f); opened = [c for c in p.st["calls"] if c[0] in ("fopen", "open", "freopen", "creat")]
        t = A.norm(S(("tag", 1), 16)); v = A.norm(S(("pay", 1), 64))
        asked = "error" if t == T["ltNil"] else [x for x in ("error", "replace", "append") if t in (T["ltSymbol"], T["ltKeyword"]) and symbol(x, v)]
        asked = asked if isinstance(asked, str) else asked[0] if asked else None
        o = outcome(p)
        R.obligation(len(opened) <= 1, "open-output: opens once", "several files are opened", w, f.name)
        if asked is None:
            R.obligation(not opened and o[0] == "exception", "open-output: unknown mode", "a mode that is none of :error, :replace and :append is not refused", w, f.name); continue
        for n, a, r, i in opened:
            nopen += 1
            R.obligation(istext(a[0], 0), "open-output: path", "another file is opened than the one named", i.where(), f.name)
            md = mode(a[1]) or "?"
            exists = [A.norm(c[2]) for c in p.st["calls"] if c[0] in ("access", "_access") and istext(c[1][0], 0)]
            free = [c for c in p.st["calls"] if c[0] == "access" and istext(c[1][0], 0) and A.norm(c[1][1]) == 0 and 0 in A.ne.get(c[2], ())]
            if asked == "error": ok = md[0] == "w" and ("x" in md or bool(free))
            elif asked == "replace": ok = md[0] == "w" and "x" not in md
            else: ok = md[0] == "a"
            R.obligation(ok, "open-output: :%s" % asked, "asked for :%s, the file is opened with mode \"%s\"%s" % (asked, md, " although it may exist" if asked == "error" and not free else ""), i.where(), f.name)
            if A.norm(r) == 0: R.obligation(o[0] in ("nil", "exception") or o == ("bool", 0), "open-output: failure", "a file that cannot be opened is not reported", i.where(), f.name)
            else: R.obligation(o == ("value", T["ltFileHandle"], A.norm(r)), "open-output: result", "the result is not the file opened", i.where(), f.name)
        if not opened: R.obligation(asked == "error" and o[0] in ("bool", "nil", "exception") and o[1:] != (1,), "open-output: not opened", "asked for :%s, no file is opened" % asked, w, f.name)
    f = native("file/open-input*")
    for p in follow(f, {0: STR(0)}):
        at(p); o = outcome(p); opened = [c for c in p.st["calls"] if c[0] in ("fopen", "open", "freopen", "creat")]
        R.obligation(len(opened) == 1, "open-input: opens once", "not exactly one file is opened", where(f), f.name)
        for n, a, r, i in opened:
            nopen += 1; md = mode(a[1]) or "?"
            R.obligation(istext(a[0], 0), "open-input: path", "another file is opened than the one named", i.where(), f.name)
            R.obligation(md[0] == "r" and "+" not in md, "open-input: mode", "a file opened for input is opened with mode \"%s\"" % md, i.where(), f.name)
            if A.norm(r) == 0: R.obligation(o[0] in ("nil", "exception") or o == ("bool", 0), "open-input: failure", "a file that cannot be opened is not reported", i.where(), f.name)
            else: R.obligation(o == ("value", T["ltFileHandle"], A.norm(r)), "open-input: result", "the result is not the file opened", i.where(), f.name)
    R.floor("files opened", nopen, 6)

    # --- transfers: every byte once, in order
    def asked(k, default):
        """the integer an argument stands for"""
        tag = A.norm(S(("tag", k), 16)); v = S(("pay", k), 64)
        if tag == T["ltFloat"]: return A.norm(S(("fptosi", A.norm(v)), 64))
        return A.norm(v) if tag == T["ltInt"] or isinstance(tag, S) and T["ltInt"] not in A.ne.get(tag, ()) else default

    nt = 0
    LB, LV = ({k: v for x in m.struct(n)["fields"] for k, v in ((x["n"], x["o"]), ("#" + x["n"], fsize(m, n, x)))} for n in ("lBuffer", "lBufferView"))
    views = sorted({(int(re.sub(r"\D", "", k)) // 8, v) for k, v in m.enum("lBufferViewType").items() if re.search(r"\d", k)})
    R.floor("kinds of view", len(views), 8)
    for name, what in (("file/read*", "fread"), ("file/write*", "fwrite")):
        f = native(name)
        for ty, vt in [("ltBuffer", None), ("ltString", None)] + [("ltBufferView", v) for v in views]:
            fix = {0: HANDLE, 1: (T[ty], Ptr(("target",)))}
            for p in follow(f, fix, pre=(lambda: A.store(Ptr(("target",), LV["type"]), vt[1], 4 if LV["#type"] > 1 else 1)) if vt else None):
                at(p); o = outcome(p); w = where(f)
                if p.kind != "ret": continue
                calls = [c for c in p.st["calls"] if c[0] == what]
                if o[0] == "exception" and not calls: continue
                if what == "fread" and ty == "ltString": R.obligation(False, name + ": into strings", "%s reads into a string" % name, w, f.name); continue
                if vt:
                    b = A.ptr(A.load(Ptr(("target",), LV["buf"]), 8)); base = A.lin(A.load(Ptr(b.b, b.o), 8))
                    A.lin(A.load(Ptr(("target",), LV["offset"]), LV["#offset"]), base, vt[0])
                    length = A.lin(A.load(Ptr(("target",), LV["length"]), LV["#length"]), {}, vt[0])
                else: base = A.lin(A.load(Ptr(("target",)), 8)); length = A.lin(A.load(Ptr(("target",), LB["length"]), LB["#length"]))
                off = asked(3, 0); size = asked(2, None)
                if size is not None and what == "fwrite" and (not isinstance(A.norm(size), int) and A.rng(A.norm(size), "s", 64)[1] < 0 or isinstance(A.norm(size), int) and A.norm(size) < 0): size = None
                total = A.lin(size) if size is not None else A.minus(length, off)
                done = 0; n = 0
                for c, a, g, i in calls:
                    n += 1
                    if A.norm(a[1]) != 1 and A.norm(a[2]) == 1: R.obligation(False, "%s: unit" % name, "%s transfers in one unit: a part of it is not accounted for" % name, i.where(), f.name); break
                    R.obligation(isfile(a[3]), "%s: file" % name, "%s uses another file than the one given" % name, i.where(), f.name)
                    d = A.minus(A.minus(A.minus(A.lin(a[0]), done), off), 0)
                    for k, x in base.items(): d[k] = d.get(k, 0) - x
                    d = {k: x for k, x in d.items() if x}
                    R.obligation(not d, "%s: place" % name, "%s transfers part %d from/to another place than where the previous one ended (%s)" % (name, n, d), i.where(), f.name)
                    d = A.minus(A.lin(A.bin("mul", A.norm(a[1]), A.norm(a[2]), 64)), done, -1)
                    for k, x in total.items(): d[k] = d.get(k, 0) - x
                    d = {k: x for k, x in d.items() if x}
                    R.obligation(not d, "%s: amount" % name, "%s transfers another number of bytes than remains (%s)" % (name, d), i.where(), f.name)
                    done = A.bin("add", done, S(("zext", g), 64), 64)
                else:
                    nt += n
                    err = any(c[0] == "ferror" and 0 in A.ne.get(c[2], ()) for c in p.st["calls"])
                    eof = any(c[0] == "feof" and 0 in A.ne.get(c[2], ()) for c in p.st["calls"])
                    if err: R.obligation(o[0] == "exception", "%s: error" % name, "%s does not report an error" % name, w, f.name); continue
                    R.obligation(o[0] == "value", "%s: succeeds" % name, "%s fails although there was no error" % name, w, f.name)
                    if n and not any(c[0] == "ferror" for c in p.st["calls"]): R.obligation(False, "%s: error" % name, "%s does not notice errors" % name, w, f.name)
                    if o[0] != "value": continue
                    if what == "fread": R.obligation(o[1] == T["ltInt"] and not A.minus(A.lin(o[2]), done), "%s: amount returned" % name, "%s does not return how many bytes it read" % name, w, f.name)
                    if not eof: R.obligation(reached(A, done, total), "%s: everything" % name, "%s stops before everything was transferred" % name, w, f.name)
    R.floor("transfers", nt, 20)

    # --- calls that only succeed or fail
    ns = 0
    for name, calls, fix in (("rm", ("unlink", "remove"), {0: STR(0)}), ("rmdir", ("rmdir",), {0: STR(0)}), ("mkdir", ("mkdir",), {0: STR(0)}), ("cd", ("chdir",), {0: STR(0)}),
                             ("file/flush*", ("fflush",), {0: HANDLE}), ("file/close*", ("fclose",), {0: HANDLE}), ("file/seek*", ("fseek", "fseeko"), {0: HANDLE, 1: (T["ltInt"], S(("pay", 1), 64)), 2: (T["ltInt"], S(("pay", 2), 64))})):
        f = native(name); yes, no = set(), set()
        for p in follow(f, fix):
            at(p); o = outcome(p); w = where(f)
            cs = [c for c in p.st["calls"] if c[0] in ZERO_OK]
            R.obligation(len(cs) <= 1, "%s: calls" % name, "%s makes several calls that change the system" % name, w, f.name)
            for n, a, r, i in cs:
                ns += 1
                R.obligation(n in calls, "%s: call" % name, "%s calls %s" % (name, n), i.where(), f.name)
                R.obligation(istext(a[0], 0) if fix[0][0] == T["ltString"] else isfile(a[0]), "%s: argument" % name, "%s calls %s with something else than it was given" % (name, n), i.where(), f.name)
                if n == "fseek":
                    wh = A.norm(a[2]); given = S(("pay", 2), 64); g = A.norm(given)
                    R.obligation(A.norm(a[1]) == A.norm(S(("pay", 1), 64)), "seek: offset", "file/seek* seeks to another offset", i.where(), f.name)
                    lo, hi = (g, g) if isinstance(g, int) else A.rng(g, "s", 64)
                    lo = max(lo, A.rng(g, "u", 64)[0]) if A.rng(g, "u", 64)[1] < 1 << 63 else lo; hi = min(hi, A.rng(g, "u", 64)[1])
                    R.obligation(lo >= 0 and hi <= 2, "seek: range", "file/seek* seeks although the place to seek from may be %s to %s" % (lo, hi), i.where(), f.name)
                    for v in range(max(lo, 0), min(hi, 2) + 1):
                        if v in A.ne.get(g, ()) or not feasible(A, p, given, v): continue
                        R.obligation(evalw(A, wh, {given: v}) == v, "seek: whence", "file/seek* seeks from %s when asked for %d" % (wh, v), i.where(), f.name)
                x = A.norm(r); k = o if o[0] != "value" else ("value",)
                if k[0] == "bool" and isinstance(k[1], S) and isinstance(x, S):
                    # the answer is computed from what the call returned
                    for rv, to in ((0, yes), (-1, no)):
                        if rv not in A.ne.get(r, ()): e = evalw(A, k[1], {r: rv}); to.add(("bool", e if e is None else int(bool(e))))
                    continue
                if x == 0: yes.add(k)
                elif 0 in A.ne.get(r, ()): no.add(k)
                else: yes.add(k); no.add(k)
            if not cs: R.obligation(o[0] in ("exception", "nil", "exit") or o == ("bool", 0), "%s: nothing done" % name, "%s succeeds without having done anything" % name, w, f.name)
        R.obligation(bool(yes) and not yes & no, "%s: failure shows" % name, "%s returns the same whether it succeeded or failed" % name, where(f), f.name)
        R.obligation(all(o[0] in ("exception", "nil") or o == ("bool", 0) for o in no), "%s: failure" % name, "%s succeeds although the system reported a failure" % name, where(f), f.name)
        R.obligation(not any(o[0] == "exception" or o == ("bool", 0) for o in yes), "%s: success" % name, "%s fails although the system reported success" % name, where(f), f.name)
    R.floor("calls that succeed or fail", ns, 10)

    # --- queries
    for name, call, ty in (("file/tell*", ("ftell", "ftello"), "ltInt"), ("file/eof*?", ("feof",), "ltBool"), ("file/error*?", ("ferror",), "ltBool")):
        f = native(name)
        for p in follow(f, {0: HANDLE}):
            at(p); o = outcome(p); cs = [c for c in p.st["calls"] if c[2] is not None]
            ok = len(cs) == 1 and cs[0][0] in call and isfile(cs[0][1][0])
            if ok:
                r = A.norm(cs[0][2])
                if ty == "ltInt": ok = o[:2] == ("value", T["ltInt"]) and not A.minus(A.lin(o[2]), r) or o[0] == "exception" and isinstance(r, int) and r < 0
                else: ok = o == ("bool", 0) if r == 0 else o == ("bool", 1) and 0 in A.ne.get(cs[0][2], ())
            R.obligation(ok, name, "%s does not return what the system says of that file" % name, where(f), f.name)
    f = native("cwd")
    for p in follow(f):
        at(p); o = outcome(p); cs = [c for c in p.st["calls"] if c[0] == "getcwd"]; mk = [c for c in p.st["calls"] if c[0].startswith("lValString")]
        if not R.obligation(len(cs) == 1, "cwd: call", "cwd does not ask for the directory", where(f), f.name): continue
        if A.norm(cs[0][2]) == 0: R.obligation(o[0] in ("nil", "exception"), "cwd: failure", "cwd does not report a failure", where(f), f.name)
        else: R.obligation(len(mk) == 1 and A.norm(mk[0][1][0]) in (A.norm(cs[0][1][0]), A.norm(cs[0][2])), "cwd: result", "cwd returns something else than the directory", where(f), f.name)

    # --- file/stat
    f = native("file/stat"); so = {x["n"]: x["o"] for x in m.struct("stat")["fields"]}; nst = 0
    for p in follow(f, {0: STR(0)}):
        at(p); cs = [c for c in p.st["calls"] if c[0] in ("stat", "stat64", "__xstat", "lstat")]
        if p.kind != "ret": continue
        if not R.obligation(len(cs) == 1 and istext(cs[0][1][0], 0), "stat: call", "file/stat does not ask for the file named", where(f), f.name): continue
        R.obligation(cs[0][0] != "lstat", "stat: links", "file/stat does not follow links", where(f), f.name)
        r = A.norm(cs[0][2]); buf = A.ptr(cs[0][1][1])
        got = {}
        for n, a, _, i in p.st["calls"]:
            if n != "lTreeInsert": continue
            key = [k for k, gs in symglob.items() for g in gs if A.norm(a[1]) == A.norm(A.load(Ptr(("g", g)), 8))]
            v = (A.norm(a[2]), A.norm(a[3])) if len(a) > 3 else A.lval(A.ptr(a[2])) if hasattr(A, "lval") else (A.load(A.ptr(a[2]), 2), A.load(Ptr(A.ptr(a[2]).b, A.ptr(a[2]).o + 8), 8))
            if not R.obligation(len(key) == 1, "stat: keys", "file/stat reports something under no name", i.where(), f.name): continue
            nst += 1
            if v[0] == T["ltBool"]: v = (v[0], A.norm(A.un("trunc", v[1], 8, 64)))
            R.obligation(key[0] not in got, "stat: %s once" % key[0], "file/stat reports %s twice" % key[0], i.where(), f.name)
            got[key[0]] = v
            if key[0] == "error?": R.obligation(v == (T["ltBool"], 0 if r == 0 else 1), "stat: error?", "file/stat says that the file %s although it %s" % (("is missing", "exists") if r == 0 else ("exists", "is missing")), i.where(), f.name)
            elif key[0] in STAT:
                o_ = so[STAT[key[0]]]; w_ = 4 if STAT[key[0]] in ("st_uid", "st_gid") else 8
                R.obligation(v[0] == T["ltInt"] and not A.diff(v[1], A.load(Ptr(buf.b, buf.o + o_), w_)), "stat: " + key[0], "file/stat reports something else as %s" % key[0], i.where(), f.name)
            elif key[0] in KINDS:
                md = A.norm(A.load(Ptr(buf.b, buf.o + so["st_mode"]), 4))
                b = A.norm(A.bin("and", md, 0o170000, 32))
                ok = v[0] == T["ltBool"] and (v[1] == 1 and b == KINDS[key[0]] or v[1] == 0 and b != KINDS[key[0]] and (isinstance(b, int) or KINDS[key[0]] in A.ne.get(b, ())))
                R.obligation(ok, "stat: " + key[0], "file/stat does not say whether it is a %s" % key[0][:-1], i.where(), f.name)
        want = {"error?"} | (set(STAT) | set(KINDS) if r == 0 else {"error-number", "error-text"})
        R.obligation(set(got) == want, "stat: complete %s" % (r == 0), "file/stat does not report %s" % ", ".join(sorted(want ^ set(got))), where(f), f.name)
    R.floor("properties of files reported", nst, 10)

    # --- popen: the whole output
    f = native("popen"); npo = 0
    for p in follow(f, {0: STR(0)}):
        at(p); o = outcome(p)
        op = [c for c in p.st["calls"] if c[0] == "popen"]
        for n, a, r, i in op: R.obligation(istext(a[0], 0) and (mode(a[1]) or "?") == "r", "popen: command", "another command is run", i.where(), f.name)
        if p.kind != "ret" or o[0] != "value": continue
        npo += 1
        R.obligation(len(op) == 1 and A.norm(op[0][2]) != 0, "popen: runs", "popen returns a result without having run the command once", where(f), f.name)
        # where the output is: the buffer moves when it grows
        base = None; done = 0; heap = None
        for c, a, g, i in p.st["calls"]:
            if c == "fread":
                b = A.norm(a[0]); root = b
                while isinstance(root, (Ptr, S)) and (isinstance(root, Ptr) or root.k[0] in ("idx", "add")): root = root.b if isinstance(root, Ptr) else A.norm(root.k[1])
                d = A.minus(A.minus(A.lin(a[0]), Ptr(root)), done)
                R.obligation(not d and A.norm(a[3]) == A.norm(op[0][2]), "popen: reading", "the output is put somewhere else than after what was already read (%s)" % d, i.where(), f.name)
                R.obligation(A.norm(a[1]) == 1, "popen: unit", "the output is not read byte by byte", i.where(), f.name)
                done = A.bin("add", done, S(("zext", g), 64), 64); heap = root
            elif c == "realloc":
                R.obligation(A.norm(a[0]) == Ptr(heap), "popen: growing", "another buffer than the one with the output grows", i.where(), f.name)
        mk = [c for c in p.st["calls"] if c[0].startswith("lValString")]
        ok = len(mk) == 1 and len(mk[0][1]) > 1 and not A.minus(A.lin(mk[0][1][1]), done)
        R.obligation(ok, "popen: output", "popen does not return the output as it was read", where(f), f.name)
        R.obligation(any(c[0] == "feof" and 0 in A.ne.get(c[2], ()) for c in p.st["calls"]) , "popen: end", "popen stops before the end of the output", where(f), f.name)
        pc = [c for c in p.st["calls"] if c[0] == "pclose"]
        if not R.obligation(len(pc) == 1, "popen: exit code", "the exit code is not asked for", where(f), f.name): continue
        # exit code
        car = None
        if o[1] == T["ltPair"] and isinstance(o[2], Ptr): car = (A.norm(A.load(Ptr(o[2].b, 0), 2)), A.norm(A.load(Ptr(o[2].b, 8), 8)))
        st = A.norm(pc[0][2])
        ok = car is not None and car[0] == T["ltInt"]
        if ok:
            v = car[1]
            while isinstance(v, S) and v.k[0] in ("zext", "sext", "trunc"): v = A.norm(v.k[1])
            for sv, want in ((0, lambda x: x == 0), (0x100, lambda x: x == 1), (0x7F00, lambda x: x == 127), (0xFF00, lambda x: x == 255), (9, lambda x: x != 0), (15, lambda x: x != 0), (0x8B, lambda x: x != 0)):
                if not feasible(A, p, pc[0][2], sv): continue
                x = evalw(A, v, {pc[0][2]: sv})
                R.obligation(x is not None and want(x), "popen: exit code %#x" % sv, "popen returns %s as exit code for the wait status %#x" % (x, sv), where(f), f.name)
        else: R.obligation(False, "popen: exit code", "popen does not return the exit code", where(f), f.name)
    R.floor("ways popen ends", npo, 2)

    # --- connecting
    f = native("socket/connect"); nco = 0; port = S(("pay", 1), 64); A.visits = 3
    ai = {x["n"]: x["o"] for x in m.struct("addrinfo")["fields"]}
    for p in follow(f, {0: STR(0), 1: (T["ltInt"], port)}):
        at(p); o = outcome(p); cs = p.st["calls"]; w = where(f)
        if p.kind != "ret": continue
        look = [c for c in cs if c[0] == "getaddrinfo"]; so_ = [c for c in cs if c[0] == "socket"]; con = [c for c in cs if c[0] == "connect"]; fd = [c for c in cs if c[0] == "fdopen"]
        if not look: R.obligation(o[0] == "exception" and not so_, "connect: refused", "socket/connect gives up without an exception before looking for the host", w, f.name); continue
        R.obligation(len(look) == 1 and istext(look[0][1][0], 0), "connect: host", "another host is looked up than the one named", look[0][3].where(), f.name)
        lo = max(A.rng(A.norm(port), "s", 64)[0], A.rng(A.norm(port), "u", 64)[0] if A.rng(A.norm(port), "u", 64)[1] < 1 << 63 else -1); hi = min(A.rng(A.norm(port), "s", 64)[1], A.rng(A.norm(port), "u", 64)[1])
        R.obligation(0 <= lo and hi <= 65535, "connect: port range", "a port that is no 16-bit number is not refused", w, f.name)
        closed = [A.norm(c[1][0]) for c in cs if c[0] == "close"]
        ok = [c for c in con if A.norm(c[2]) == 0]
        for n, a, r, i in con:
            nco += 1; k = next((c for c in so_ if A.norm(c[2]) == A.norm(a[0])), None)
            if not R.obligation(k is not None, "connect: socket", "something else than the new socket is connected", i.where(), f.name): continue
            fam = A.norm(k[1][0]); adr = A.norm(a[1])
            node = adr.k[1] if isinstance(adr, S) and adr.k[0] == "mem" and adr.k[2] == ai["ai_addr"] else None
            R.obligation(node is not None and A.norm(A.load(Ptr(node, ai["ai_family"]), 4)) == fam and A.norm(A.load(Ptr(node, ai["ai_addrlen"]), 4)) == A.norm(a[2]), "connect: address", "the socket is connected to an address of another kind or length than it was made for", i.where(), f.name)
            e = A.norm(A.load(Ptr(adr, 2), 2))
            good = all((evalw(A, e, {port: v, A.norm(port): v}) or 0) & 0xFFFF == (v >> 8 | (v & 255) << 8) for v in (0, 1, 80, 0x1234, 0x8000, 0xFF00, 65535) if feasible(A, p, port, v))
            R.obligation(good, "connect: port", "the socket is connected to another port than the one asked for", i.where(), f.name)
            R.obligation(A.norm(r) == 0 or A.norm(a[0]) in closed, "connect: leaks", "a socket that could not be connected stays open", i.where(), f.name)
        free = [k for k, c in enumerate(cs) if c[0] == "freeaddrinfo"]
        if A.norm(look[0][2]) == 0: R.obligation(len(free) == 1 and not any(c[0] in ("connect", "socket") for c in cs[free[0]:] ), "connect: addresses", "the list of addresses is not released once, after its last use", w, f.name)
        else: R.obligation(not free and o[0] in ("nil", "exception"), "connect: unknown host", "an unknown host is not reported", w, f.name)
        if ok:
            R.obligation(len(ok) == 1 and ok[0] is con[-1], "connect: once", "socket/connect goes on after it connected", w, f.name)
            R.obligation(len(fd) == 1 and A.norm(fd[0][1][0]) == A.norm(ok[0][1][0]) and "+" in (mode(fd[0][1][1]) or ""), "connect: stream", "the stream is not one for reading from and writing to the connected socket", w, f.name)
            if fd and A.norm(fd[0][2]) != 0: R.obligation(o == ("value", T["ltFileHandle"], A.norm(fd[0][2])) and A.norm(ok[0][1][0]) not in closed, "connect: result", "the result is not a stream on the open socket", w, f.name)
            else: R.obligation(o[0] in ("nil", "exception") and A.norm(ok[0][1][0]) in closed, "connect: no stream", "a stream that cannot be made is not reported, or its socket stays open", w, f.name)
        else: R.obligation(o[0] in ("nil", "exception"), "connect: failure", "a connection that failed is not reported", w, f.name)
    A.visits = Sys.visits
    R.floor("connections", nco, 4)

    # --- exit
    f = native("exit")
    for p in follow(f):
        at(p); cs = [c for c in p.st["calls"] if c[0] == "exit"]
        if p.kind == "ret": R.obligation(False, "exit: ends", "exit returns", where(f), f.name); continue
        R.obligation(len(cs) == 1, "exit: ends", "exit does not end the process once", where(f), f.name)
        if A.norm(S(("tag", 0), 16)) == T["ltInt"]: R.obligation(not A.diff(cs[0][1][0], S(("pay", 0), 64)), "exit: status", "exit ends the process with another status", where(f), f.name)
        if A.norm(S(("tag", 0), 16)) == T["ltNil"]: R.obligation(A.norm(cs[0][1][0]) == 0, "exit: default status", "exit without a status does not end with 0", where(f), f.name)

    # --- ls
    f = native("ls"); do = [x["o"] for x in m.struct("dirent")["fields"] if x["n"] == "d_name"][0]; nls = 0
    CAR, CDR = ([x["o"] for x in m.struct("lPair")["fields"] if x["n"] == n][0] for n in ("car", "cdr"))
    names = (".", "..", ".a", "a", "a.", "..a", "ab"); A.dname = do; A.visits = 8
    for seq in [()] + [(x,) for x in names] + [(x, y) for x in names for y in names] + [(".", "a", "..", "ab")]:
        for show, shown in (((T["ltBool"], 0), False), ((T["ltNil"], 0), False), ((T["ltBool"], 1), True), ((T["ltInt"], 5), True)):
            A.entries = [Ptr(("dirent", k, x)) for k, x in enumerate(seq)]; n = 0
            for p in follow(f, {0: STR(0), 1: show}):
                at(p); o = outcome(p); cs = p.st["calls"]
                if p.kind != "ret": continue
                od = [c for c in cs if c[0] == "opendir"]
                if not R.obligation(len(od) == 1 and istext(od[0][1][0], 0), "ls: directory", "another directory is listed", where(f), f.name): continue
                if A.norm(od[0][2]) == 0: R.obligation(o[0] in ("nil", "exception"), "ls: failure", "ls does not report a missing directory", where(f), f.name); continue
                n += 1
                rd = [c for c in cs if c[0].startswith("readdir")]
                R.obligation(bool(rd) and A.norm(rd[-1][2]) == 0 and all(A.norm(c[1][0]) == A.norm(od[0][2]) for c in rd), "ls: complete", "ls stops before the last entry", where(f), f.name)
                want = [Ptr(e.b, do) for e in A.entries if e.b[2] not in (".", "..") and (shown or e.b[2][0] != ".")]
                R.obligation(any(c[0] == "closedir" for c in cs), "ls: closes", "ls leaves the directory open", where(f), f.name)
                have = []; t, v = (o[1], o[2]) if o[0] == "value" else (0, 0)
                while t == T["ltPair"] and isinstance(v, Ptr) and len(have) <= len(seq):
                    x = A.norm(A.load(Ptr(v.b, v.o + CAR + 8), 8)); have.append(text_of(A, x))
                    c = v.o + CDR; t, v = A.norm(A.load(Ptr(v.b, c), 2)), A.norm(A.load(Ptr(v.b, c + 8), 8))
                R.obligation(sorted(map(repr, have)) == sorted(map(repr, want)), "ls: entries", "for the entries %s, ls %s returns %s" % (" ".join(seq), "showing hidden ones" if shown else "", [x.b[2] if x else x for x in have]), where(f), f.name)
                nls += 1
            R.obligation(n > 0, "ls: never completes", "ls never completes for the entries %s" % " ".join(seq), where(f), f.name)
    A.entries = None
    A.visits = Sys.visits
    R.floor("directory listings", nls, 100)

    # --- loading the image file
    loaders = [g for g in m.defs.values() if g.name == "loadFile" or any(i.cname() == "ftell" for i in g.calls()) and any(i.cname() == "fread" for i in g.calls())]
    for f in loaders:
        n = 0
        for p in follow(f, raw=[S(("arg", 0), 64), Ptr(("len",))]):
            at(p)
            if p.kind != "ret" or A.norm(p.ret) == 0 or p.ret is None: continue
            n += 1; done = 0; size = [c for c in p.st["calls"] if c[0] == "ftell"]; sk = [c for c in p.st["calls"] if c[0] == "fseek"]
            R.obligation(len(size) == 1 and [A.norm(c[1][2]) for c in sk] == [2, 0] and all(A.norm(c[1][1]) == 0 for c in sk), "load: size", "the size of the file is not determined from its end, or reading does not begin at its start", where(f), f.name)
            for c, a, g, i in p.st["calls"]:
                if c != "fread": continue
                R.obligation(not A.minus(A.minus(A.lin(a[0]), p.ret), done), "load: place", "a part of the file is put somewhere else than after what was already read", i.where(), f.name)
                done = A.bin("add", done, S(("zext", g), 64), 64)
            R.obligation(not A.diff(A.load(Ptr(("len",)), 8), size[0][2]), "load: length", "another length than the file's is returned", where(f), f.name)
            R.obligation(known_ge(A, done, size[0][2]), "load: everything", "less than the file is loaded", where(f), f.name)
        R.floor("ways to load a file", n, 1)

    # --- the environment
    env = [g for g in m.defs.values() if g.file.endswith("environment.c") and any(i.cname() == "lTreeInsert" for i in g.calls()) and len(g.argtys) == 2]
    if not env: raise AnalysisBroken("C18: the function that adds environment variables is not found")
    for f in env:
        ne = 0
        for p in follow(f, raw=[Ptr(("env",)), S(("arg", 1), 64)]):
            at(p)
            if p.kind != "ret": continue
            def byte(k): return A.norm(A.load(Ptr(("env",), k), 1))
            k = 0
            while byte(k) != 0x3D and byte(k) != 0 and k < 16: k += 1
            ins = [c for c in p.st["calls"] if c[0] == "lTreeInsert"]
            if byte(k) == 0: R.obligation(True, "environment: without =", "", where(f), f.name); continue
            if not R.obligation(byte(k) == 0x3D, "environment: end", "an entry without = is read beyond its end", where(f), f.name): continue
            ne += 1
            sy = [c for c in p.st["calls"] if c[0].startswith("lSymS")]; st = [c for c in p.st["calls"] if c[0].startswith("lValString")]
            ok = len(ins) == 1 and len(sy) == 1 and len(st) == 1 and A.norm(sy[0][1][0]) == Ptr(("env",)) and A.norm(sy[0][1][1]) == k and A.norm(st[0][1][0]) == Ptr(("env",), k + 1)
            ok = ok and (len(st[0][1]) < 2 or True) and A.norm(ins[0][1][0]) == S(("arg", 1), 64) and A.norm(ins[0][1][1]) == A.norm(sy[0][2])
            R.obligation(ok, "environment: variables", "an environment variable gets another name or value", where(f), f.name)
            # the name ends at the first =, wherever it is
        R.floor("environment entries", ne, 2)
        past = [p for p in follow(f, raw=[Ptr(("env",)), S(("arg", 1), 64)]) if any(past_end(A, p, at))]
        R.obligation(not past, "environment: end", "an entry without = is read beyond its end", where(f), f.name)

    # --- no other function changes the system
    reach = {}
    def effects(n):
        out = set(); seen = set(); work = [n]
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            g = m.defs.get(x)
            if g is None: out.add(x); continue
            if x in ("lApply", "lBytecodeEval", "lGarbageCollect") and x != n: continue
            work += [i.cname() for i in g.calls() if i.cname()]
        return out
    neff = 0; died = {"exit", "fprintf", "abort"}
    for n in nats:
        e = effects(n.fn) & CHANGES; neff += 1
        name = n.name if n.cls is None else "%s :%s" % (inv.get(n.cls, n.cls)[2:], n.name)
        over = e - MAY.get(n.name if n.kind == "func" else "", set()) - died
        R.obligation(not over, "effects: %s" % name, "%s reaches %s" % (name, ", ".join(sorted(over))), where(m.defs[n.fn]), n.fn)
    R.floor("built-in functions", neff, 150)
    R.count("paths followed", np[0])
    R.assumptions += ["the operating system's functions do what POSIX says", "transfers are followed for up to three partial results per call", "how the terminal is set up (file/raw*) is not covered",
                      "out-of-memory messages and the exit that follows them are not effects of the function that ran out"]
    return R.finish()


def fsize(m, st, x):
    fs = m.struct(st)["fields"]; end = min([y["o"] for y in fs if y["o"] > x["o"]] + [m.struct(st)["size"]])
    return max(w for w in (8, 4, 2, 1) if w <= end - x["o"] and x["o"] % w == 0)


def reached(A, done, total):
    """done >= total on this path, or there is nothing to transfer"""
    d = A.minus({k: -x for k, x in total.items()}, done, -1)
    if not d or list(d) == [1] and d[1] >= 0: return True
    for (q, x, y), r in A.cmp.items():
        if q not in ("slt", "ult"): continue
        e = A.diff(x, y)
        if not r and e == d: return True                    # not x < y
        if r and {k: -v for k, v in e.items()} == d: return True
    return A.rng_lin(total)[1] <= 0 if len(total) else True


def text_of(A, x):
    """the characters a string was made of"""
    x = A.norm(x)
    if isinstance(x, S) and x.k[0] == "string": return next((A.norm(y) for y in x.k[2:] if isinstance(A.norm(y), Ptr)), None)
    return None


def known_ge(A, a, b):
    """a >= b on this path"""
    if not A.diff(a, b): return True
    a, b = A.norm(a), A.norm(b)
    for q in ("slt", "ult"):
        if A.cmp.get((q, a, b)) is False: return True
        if A.known(q, a, b, 64) is False: return True
        for (qq, x, y), r in A.cmp.items():
            if qq == q and not r and not A.diff(S(("sub", S(("sub", x, y), 64), S(("sub", a, b), 64)), 64), 0): return True
            if qq == q and r and not A.diff(S(("sub", S(("sub", y, x), 64), S(("sub", a, b), 64)), 64), 0): return True
    return False


def past_end(A, p, at):
    """offsets read behind a terminator"""
    at(p); d = A.mem.get(("env",), {}); end = None
    for o in sorted(d):
        if end is not None: yield True
        if A.norm(d[o][1]) == 0: end = o


def feasible(A, p, sym, v):
    """the path is possible when the call returned v"""
    x = A.norm(sym)
    if isinstance(x, int): return (x ^ v) & 0xFFFFFFFF == 0
    for k, y in A.sub.items():
        r = evalw(A, k, {sym: v}, False)
        if r is not None and isinstance(y, int) and (r ^ y) & 0xFFFF: return False
    for k, ys in A.ne.items():
        r = evalw(A, k, {sym: v}, False)
        if r is not None and any(isinstance(y, int) and r == y for y in ys): return False
    for (q, a, b), t in A.cmp.items():
        x, y = evalw(A, a, {sym: v}, False), evalw(A, b, {sym: v}, False)
        if x is not None and y is not None and q == "slt" and (x < y) != t: return False
    return True


def evalw(A, v, env, norm=True):
    """value of an expression, given some of its parts"""
    if isinstance(v, S) and v in env: return env[v]
    if norm and isinstance(v, S): v = A.norm(v)
    if isinstance(v, S) and v in env: return env[v]
    if isinstance(v, int): return v
    if not isinstance(v, S): return None
    k = v.k
    if k[0] in ("zext", "sext", "trunc", "wide"):
        x = evalw(A, k[1], env, norm)
        if x is None: return None
        w = k[1].w if isinstance(k[1], S) else 64
        if k[0] == "zext": return x & ((1 << w) - 1)
        return sgn(x, v.w)
    if k[0] == "icmp":
        a, b = evalw(A, k[2], env, norm), evalw(A, k[3], env, norm)
        if a is None or b is None: return None
        u = [x & ((1 << k[4]) - 1) for x in (a, b)] if k[1][0] == "u" else [a, b]
        return int({"eq": u[0] == u[1], "ne": u[0] != u[1], "lt": u[0] < u[1], "le": u[0] <= u[1], "gt": u[0] > u[1], "ge": u[0] >= u[1]}[k[1][1:] if len(k[1]) == 3 else k[1]])
    if k[0] == "not":
        a = evalw(A, k[1], env, norm)
        return None if a is None else int(not a)
    if len(k) == 3:
        a, b = evalw(A, k[1], env, norm), evalw(A, k[2], env, norm)
        if a is None or b is None: return None
        r = A.bin(k[0], a, b, v.w)
        return r if isinstance(r, int) else None
    return None
