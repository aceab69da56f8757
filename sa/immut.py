"""What code may change: abstract objects whose immutability flags are all set, and the kind of thing every address lies in."""
from .vma import *
from .r_tags import PTRTAGS, base_type

STRUCTS = ("lPair", "lArray", "lTree", "lTreeRoot", "lBuffer", "lBufferView", "lBytecodeArray", "lClosure", "lNFunc", "lSymbol", "lClass")
# what external functions write through which pointer arguments; None: whatever else is not listed only reads
WRITES = {"fread": (0,), "read": (0,), "recv": (1 - 1,), "memcpy": (0,), "memmove": (0,), "memset": (0,), "bzero": (0,), "snprintf": (0,), "strncpy": (0,), "strcpy": (0,), "strcat": (0,), "strncat": (0,),
          "realloc": (0,), "free": (0,), "fgets": (0,), "getcwd": (0,), "sprintf": (0,), "vsnprintf": (0,), "stat": (1,), "qsort": (0,), "getline": (0, 1), "fscanf": None, "sscanf": None}
READS = {"fwrite", "fprintf", "printf", "puts", "fputs", "strlen", "strnlen", "strcmp", "strncmp", "memcmp", "bcmp", "strchr", "strrchr", "memchr", "strstr", "fopen", "popen", "access", "unlink", "rmdir", "mkdir",
         "chdir", "opendir", "getenv", "getaddrinfo", "rename", "strtol", "strtod", "atof", "atoi", "fdopen", "setenv", "symlink", "link", "open", "write", "send", "system", "putenv", "remove", "fputc", "putchar",
         "fclose", "pclose", "fflush", "feof", "ferror", "fileno", "fseek", "ftell", "setvbuf", "readdir", "closedir", "exit", "atexit", "connect", "freeaddrinfo", "strdup", "strndup"}
STRTAGS = {"ltString": "lBuffer", "ltBuffer": "lBuffer"}


class Imm(VMA):
    """config: which of 'buffer', 'view', 'array', 'tree' are flagged immutable"""
    limit = 30000; visits = 3; steps = 400000

    def __init__(s, vm, opaque):
        super().__init__(vm); s.opaque = opaque; s.config = {"lBuffer": 1, "lBufferView": 1, "lArray": 1, "lTree": 1}
        s.ptag = {}
        for st, tags in PTRTAGS.items():
            for t in tags: s.ptag[s.T[t]] = "lBuffer" if st == "lString" else st
        s.ptag[s.T["ltTree"]] = "lTreeRoot"
        s.fields = {st: {x["o"]: x for x in sorted(s.m.struct(st)["fields"], key=lambda x: x["n"] == "nextFree", reverse=True)} for st in STRUCTS}
        s.flagoff = {st: [x["o"] for x in s.m.struct(st)["fields"] if x["n"] == "flags"][0] for st in s.config}
        s.rootoff = s.m.struct("lTreeRoot")["fields"][0]["o"]
        s.ptypes = {}; s.hits = []; s.effects = {}

    def setup(s): super().setup(); s.hits = []

    def into(s, n): return n in s.m.defs and n not in s.opaque

    # --- what lies at an address
    def fresh_region(s, b):
        while isinstance(b, S) and b.k[0] == "idx": b = b.k[1]
        if isinstance(b, tuple): return b and b[0] in ("al", "new", "fresh")
        if isinstance(b, S):
            if b.k[0] == "ret": return b.k[1] in ("malloc", "calloc", "realloc", "strdup")
            if b.k[0] == "mem": return False
        return False

    def kind(s, b):
        """(what the memory is, object it belongs to, parameter it was reached through) or None when it is no value of the language"""
        b = s.norm(b)
        while isinstance(b, S) and b.k[0] in ("idx", "add", "sub", "zext", "sext") or isinstance(b, Ptr):
            b = b.b if isinstance(b, Ptr) else s.norm(b.k[1])
        if isinstance(b, tuple):
            if b == ("VS",) or b == ("CS",) or b == ("code",): return None
            if b and b[0] == "clo": return ("lClosure", b, None)
            return None
        if not isinstance(b, S): return None
        if b in s.ptypes: return (s.ptypes[b][0], b, s.ptypes[b][1])
        t = s.tagof(b)
        if t is not None:
            t = s.norm(t)
            if isinstance(t, int): return (s.ptag[t], b, None) if t in s.ptag else None
            return ("?", b, None)
        if b.k[0] == "mem":
            up = s.kind(b.k[1])
            if up is None:
                g = b.k[1]
                return None
            st, obj, par = up; o = b.k[2]
            if st in s.fields:
                f = s.fields[st].get(o)
                if st == "lBuffer" and f and o == 0: return ("bytes", obj, par)
                if st == "lArray" and f and f["n"] == "data": return ("elements", obj, par)
                if st not in ("lTree", "lTreeRoot") and f and f["t"] == "lTree*": return ("scope", b, par)
                if st in ("lTree", "scope") and f and f["t"] == "lTree*": return (st, b, par)
                if f:
                    t = base_type(f["t"])
                    if t in STRUCTS: return (t, b, par)
            elif st == "scope" and s.fields["lTree"].get(o, {}).get("t") == "lTree*": return ("scope", b, par)
        return None

    def tagof(s, b):
        """the tag that goes with a payload"""
        k = b.k
        if k[0] == "pay": return S(("tag",) + k[1:], 16)
        if k[0] == "slot" and k[2] == 8: return s.load(Ptr(("VS",), (k[1] + SP0) * 16), 2)
        if k[0] == "mem" and isinstance(k[2], int):
            up = s.kind(k[1]); o = k[2]
            if up is None: return None
            st = "lTree" if up[0] == "scope" else up[0]
            if st == "elements": return s.load(Ptr(k[1], o - 8), 2) if o % 16 == 8 else None
            if st in s.fields and o - 8 in s.fields[st] and s.fields[st][o - 8]["t"] in ("lVal", "const lVal"): return s.load(Ptr(k[1], o - 8), 2)
        if k[0] == "thrown" and b.w == 64:
            t = [S(("thrown", i.id), 16) for i in s.f.blocks[s.vm.throw] if i.op == "phi" and i.ty == "i16"]
            if len(t) == 1: return t[0]
        if k[0] == "ret" and len(k) == 4 and k[3] == 1: return S(k[:3] + (0,), 16)
        return None

    def init(s, b, o, n):
        if b == ("CS",) and o // 8 < CSP0 - 3: return 0              # the closure stack is shallow
        if isinstance(b, S):
            k = s.kind(b)
            if k is not None:
                st = k[0]
                if st in s.config and o == s.flagoff[st] and (k[2] is None): return s.config[st]
                if st == "lTreeRoot" and o == s.rootoff and s.config["lTree"]:
                    v = S(("mem", b, o), 64); s.ne.setdefault(v, set()).add(0); return v
        return super().init(b, o, n)

    # --- writes
    def wrote(s, p, i, how="store", off=None):
        if p is None: return
        k = s.kind(p.b)
        if k is None: return
        s.hits.append((k[0], k[1], k[2], i, how, off))

    def onstore(s, F, i, p, v, n):
        if p is None or s.kind(p.b) is None: return
        if s.norm(v) == s.load(p, n): return                     # what was there anyway
        s.wrote(p, i, "store", p.o)

    def docall(s, F, i):
        n = i.cname()
        if n is None:
            c = s.val(F, i.callee)
            if isinstance(c, Ptr) and isinstance(c.b, tuple) and c.b[0] == "fn": n = c.b[1]
        if n:
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): s.wrote(s.aptr(F, i, 0), i, n.split(".")[1])
            elif n.startswith("llvm."): pass
            elif n in s.effects:
                for k in s.effects[n]:
                    if k < len(i.ops): s.wrote(s.aptr(F, i, k), i, n)
            elif n not in s.m.defs:
                w = WRITES.get(n, () if n in READS else None)
                for k in range(len(i.ops)) if w is None else w:
                    if k < len(i.ops) and s.ty(F, i.ops[k]) == "ptr":
                        p = s.aptr(F, i, k)
                        if p is not None and not (isinstance(p.b, tuple) and p.b[:1] == ("abs",)): s.wrote(p, i, n)
        return super().docall(F, i)

    def aptr(s, F, i, k):
        v = s.norm(s.val(F, i.ops[k]))
        return v if isinstance(v, Ptr) else Ptr(v, 0) if isinstance(v, S) else None

    def model(s, F, i, n, args):
        r = super().model(F, i, n, args)
        if r is not None: return r
        if n in ("malloc", "calloc", "realloc"):
            b = ("fresh", s.fresh()); s.mem[b] = {}
            return (Ptr(b),)
        return None

    # --- running functions
    def value(s, k, tags=None):
        """a value nothing is known of, of one of the given types"""
        t, v = S(("tag", k), 16), S(("pay", k), 64)
        if tags is not None:
            x = sorted(tags)[s.choose(len(tags))]
            s.sub[t] = x
        return t, v

    def tagsym(s, w):
        return S(("tag", w[1]), 16) if w[0] == "arg" else s.load(Ptr(("VS",), (w[1] + SP0) * 16), 2)

    def kindat(s, p, b):
        """kind of a region in the state a path ended in"""
        old = s.mem, s.sub, s.gen
        s.mem, s.sub, s.gen = p.st["mem"], p.st["sub"], p.st.get("gen", {})
        try: return s.kind(b)
        finally: s.mem, s.sub, s.gen = old
