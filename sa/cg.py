"""Call graph over the resolved program (indirect calls resolved by arity to address-taken functions)."""


class CG:
    def __init__(s, m):
        s.m = m; s.out = {}; s.site = {}
        taken = {}
        for n, f in m.defs.items():
            if f.taken: taken.setdefault(len(f.argtys), []).append(n)
        for n, f in m.defs.items():
            o = s.out[n] = {}
            for i in f.calls():
                c = i.cname()
                if c is None:
                    for t in taken.get(len(i.ops), []): o.setdefault(t, i)
                else: o.setdefault(c, i)

    def reach(s, start):
        """{function: (predecessor, call instruction)} reachable from start"""
        seen = {start: None}; work = [start]
        while work:
            n = work.pop()
            for c, i in s.out.get(n, {}).items():
                if c not in seen:
                    seen[c] = (n, i); work.append(c)
        return seen

    @staticmethod
    def path(seen, to):
        out = [to]
        while seen[out[-1]] is not None: out.append(seen[out[-1]][0])
        return " -> ".join(reversed(out))


def liveness(f):
    """(live-in, live-out) sets of SSA values per block"""
    n = len(f.blocks)
    use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; ph = [set() for _ in range(n)]
    for b, bl in enumerate(f.blocks):
        for i in bl:
            if i.op == "phi":
                for v, pb in i.inc:
                    if v[0] in ("ins", "arg"): ph[pb].add(v)
            else:
                for o in uses_of(i):
                    if o not in de[b]: use[b].add(o)
            de[b].add(("ins", i.id))
    li = [set() for _ in range(n)]; lo = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set(ph[b])
            for s in f.succ[b]: o |= li[s]
            i = use[b] | (o - de[b])
            if o != lo[b] or i != li[b]: lo[b] = o; li[b] = i; ch = True
    return li, lo


def uses_of(i):
    out = []
    def add(o):
        if o[0] in ("ins", "arg"): out.append(o)
        elif o[0] == "agg":
            for x in o[1]: add(x)
    for o in i.ops: add(o)
    if i.base: add(i.base)
    if i.callee and i.callee[0] in ("ins", "arg"): out.append(i.callee)
    return out


def live_across(f, i, lo):
    """values live right after instruction i (other than its own result)"""
    live = set(lo[i.blk])
    for j in reversed(f.blocks[i.blk][i.pos + 1:]):
        live.discard(("ins", j.id))
        if j.op != "phi":
            live.update(uses_of(j))
    live.discard(("ins", i.id))
    return live
