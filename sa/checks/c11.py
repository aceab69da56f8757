"""C11: failing allocations and library calls are noticed."""
from ..report import Report, prog
from ..r_tags import setup
from ..own import Analysis

RULE = ("Every call whose result says that it failed (memory, files, directories, processes, sockets, address lookups and functions of the program handing on such results) is followed down both outcomes: on every path on "
        "which it failed, the missing result is not accessed, not passed to a function that accesses it, and not left behind in an object that is returned or was passed in.")


def run():
    m = prog(); P = setup(m)[0]; R = Report("C11", RULE); A = Analysis(P)
    n_sites = 0
    for n in sorted(m.defs):
        f = m.fns[n]
        if not (A.interesting(n) or any(i.op == "call" and i.cname() in m.defs and A.osfail(i.cname()) for i in f.instrs())): continue
        o = A.fn(n)
        bad = {}
        for (k, site, kind), i in o.out.items():
            if k.startswith(("used without", "failure")): bad.setdefault(site, []).append((k, i))
        calls = {}
        for i in f.instrs():
            if i.op == "call" and i.cname(): calls[(i.cname(), A.nth(f, i))] = i
        for site, i in sorted(o.sites.items()):
            n_sites += 1
            b = bad.pop(site, [])
            R.obligation(not b, "%s: %s #%d" % (f.sname, site[0], site[1]), "%s: result of %s %s" % (f.sname, site[0], "; ".join(k for k, _ in b)), i.where() + "".join(" -> " + j.where() for _, j in b), n)
        for site, b in bad.items():
            i = calls.get(site) if isinstance(site, tuple) else None
            R.obligation(False, "%s: %s" % (f.sname, "%s #%d" % site if isinstance(site, tuple) else site), "%s: result of %s %s" % (f.sname, site and site[0], "; ".join(k for k, _ in b)), (i.where() if i else "?") + "".join(" -> " + j.where() for _, j in b), n)
    R.floor("calls that may fail", n_sites, 20)
    R.assumptions = ["fprintf, fseek and the like report nothing useful on failure and are not followed"]
    return R.finish()
