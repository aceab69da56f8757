"""C12: built-ins change only what it is their task to change; what is declared pure is pure."""
from ..report import Report, prog
from ..r_tags import setup
from ..effects import Effects

RULE = ("For every built-in function and method the summary of the function behind it (stores, calls, results: a fixpoint over the call graph, with what is reachable from each parameter, from globals and from new "
        "objects kept apart by where it is stored) must show that it changes nothing but objects it made itself, unless its task is to change the object it is called on (names ending in !, and a short list), and that outside of bin/ "
        "it asks nothing of the operating system. Every registration of a built-in function or method is read with its flags. For each one declared pure it "
        "must moreover call nothing of the "
        "operating system or the C library beyond computing and memory (diagnostics on stderr excepted), and reads no global that anything changes while a program runs. One that chains of arguments are folded with must be declared pure, "
        "and take two arguments (or one).")


# built-ins whose task it is to change the object they are given first; names that end in ! say so themselves
CHANGE = {"nreverse", "buffer/copy", "add-method"}
# ... another of their arguments, or state of the runtime
ALSO = {"bytecode-array": ("arg", 1), "file/read*": ("arg", 1), "file/raw*": ("glob", None)}
# built-ins that ask the system for something that is not a file, a process or a connection (those: bin/, C18)
ASK = {"time": {"time", "clock_gettime", "gettimeofday"}, "time/milliseconds": {"time", "clock_gettime", "gettimeofday"}}
# what they store into objects they made themselves cannot be told apart from what these hold
UNDECIDED = {"tree/new", "image/serialize", "image/deserialize"}


def run():
    m = prog(); P, nats, _ = setup(m); R = Report("C12", RULE)
    E = Effects(P, skip_glob=("NIL",))
    live = set(); work = [x.fn for x in nats] + ["lBytecodeEval"]       # indirect calls lead to natives, which are in
    while work:
        n = work.pop()
        if n in live or n not in m.defs: continue
        live.add(n); work += [c.cname() for c in m.fns[n].calls() if c.cname()]
    changes = {}
    for n in sorted(live):
        fa = P.f(n)
        for i in fa.f.instrs():
            if i.op == "store":
                a = fa.rawaddr(i.ops[1]); k = fa.klass(i)[:3]
                if a.root[0] == "glob" and not E.scratch(n, a.root[1]): changes.setdefault((a.root[1], k), "%s (%s)" % (fa.f.sname, i.where()))
                elif k[:2] == ("fld", "lClass"): changes.setdefault(k, "%s (%s)" % (fa.f.sname, i.where()))
    pure = fold = 0
    for x in sorted(nats, key=lambda x: (x.fn, x.name, str(x.cls))):
        if not x.flags & 3: continue
        what = "%s (%s)" % (x.name.lstrip("&"), x.fn); w = x.call.where()
        if x.flags & 1:
            fold += 1
            R.obligation(bool(x.flags & 2), "%s folded, not pure" % what, "%s is declared foldable but not pure" % what, w, x.fn)
            R.obligation(x.nv in (1, 2), "%s folded in pairs" % what, "%s is declared foldable, calls with more arguments are nested in pairs, but it takes %d" % (what, x.nv), w, x.fn)
        if not x.flags & 2: continue
        pure += 1
        mod, ret, world, reads = E.summary(x.fn)
        bad = {}
        for r, k, at in sorted(mod, key=str):
            d = "its arguments" if r[0] == "arg" else "global " + r[1]
            bad.setdefault("%s changes %s" % (what, d), "%s, declared pure, changes %s (%s)" % (what, d, at))
        for c, at in sorted(world):
            bad.setdefault("%s calls %s" % (what, c), "%s, declared pure, calls %s (%s)" % (what, c, at))
        for g, k, at in sorted(reads, key=str):
            c = changes.get((g, k)) or (changes.get(k) if k[:2] == ("fld", "lClass") else None)
            if c: bad.setdefault("%s reads %s" % (what, g), "%s, declared pure, reads %s, which %s changes (%s)" % (what, g, c, at))
        for kind in ("changes", "calls", "reads"):
            bs = {k: v for k, v in bad.items() if " %s " % kind in k}
            if not bs: R.obligation(True, "%s %s nothing" % (what, kind), "", w, x.fn)
            for k, v in bs.items(): R.obligation(False, k, v, w, x.fn)
    quiet = loud = 0
    for x in sorted(nats, key=lambda x: (x.fn, x.name, str(x.cls))):
        name = x.name.lstrip("&"); what = "%s (%s)" % (name, x.fn); w = x.call.where()
        if x.flags & 2 or name in UNDECIDED: continue
        mod, ret, world, reads = E.summary(x.fn)
        lv = P.lval_params(m.fns[x.fn]); may = set()
        if name.endswith("!") or name in CHANGE:
            loud += 1
            if lv: may |= {("arg", lv[0][0]), ("arg", lv[0][1])}
        else: quiet += 1
        if name in ALSO:
            k, n = ALSO[name]
            if k == "arg" and len(lv) > n: may |= {("arg", lv[n][0]), ("arg", lv[n][1])}
        bad = {}
        for r, k, at in sorted(mod, key=str):
            if r in may or ALSO.get(name, (0,))[0] == "glob" and r[0] == "glob": continue
            j = next((q for q, v in enumerate(lv) if r[0] == "arg" and r[1] in v[:2]), None)
            d = "argument %d" % (j + 1) if j is not None else "the scope it is called from" if r[0] == "arg" else "global " + r[1]
            bad.setdefault("%s changes %s" % (what, d), "%s changes %s, which is not its task (%s)" % (what, d, at))
        if not bad: R.obligation(True, "%s changes what it should" % what, "", w, x.fn)
        for k, v in bad.items(): R.obligation(False, k, v, w, x.fn)
        if not m.fns[x.fn].file.startswith("bin/"):
            odd = {c: at for c, at in world if c not in ASK.get(name, ())}
            if not odd: R.obligation(True, "%s keeps to itself" % what, "", w, x.fn)
            for c, at in sorted(odd.items()): R.obligation(False, "%s calls %s" % (what, c), "%s calls %s, which is not its task (%s)" % (what, c, at), w, x.fn)
    R.count("built-ins that change nothing", quiet); R.count("built-ins that change what they are given", loud)
    R.floor("built-ins not declared pure", quiet + loud, 30)
    R.count("built-ins declared pure", pure); R.count("built-ins declared foldable", fold); R.count("globals that change while a program runs", len(changes))
    R.count("functions summarised", len(E.sum))
    R.floor("built-ins declared pure", pure, 50)
    R.floor("built-ins declared foldable", fold, 5)
    R.floor("functions summarised", len(E.sum), 60)
    R.assumptions = ["tree/new, image/serialize and image/deserialize are left out: what they store into objects they made is not told apart from what these hold (C16 and C17 decide what they do)",
                     "which files, processes and connections the built-ins of bin/ touch is decided by C18",
                     "functions of the C library that compute do only that; running out of memory ends the process",
                     "turning text into a symbol and allocating are not observable (same text, same symbol: the symbol table is not otherwise visible)",
                     "parameters of type const char * are not written through (the compiler sees to that); static variables of the reader's functions are scratch memory"]
    return R.finish()
