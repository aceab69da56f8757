"""Linear forms of integers and pointers, and the index range a counted loop covers."""

NEG = {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "eq": "ne", "ne": "eq"}
SWAP = {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle", "ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "eq": "eq", "ne": "ne"}


def lin(fa, o, depth=0):
    """(constant, {atom: coefficient}) of an integer or pointer operand; loop counters are assumed not to wrap"""
    o = fa.canon(o) if o[0] == "ins" else o
    if o[0] == "int": return o[1], {}
    if o[0] == "glob": return o[2], {("glob", o[1]): 1}
    if o[0] == "ins" and depth < 10:
        i = fa.f.ins[o[1]]
        if i.op in ("sext", "zext", "trunc") and not (i.ops[0][0] == "ins" and fa.f.ins[i.ops[0][1]].ty == "i1"):
            return lin(fa, i.ops[0], depth + 1)
        if i.op in ("add", "sub"):
            k1, t1 = lin(fa, i.ops[0], depth + 1); k2, t2 = lin(fa, i.ops[1], depth + 1)
            return comb(k1, t1, k2, t2, 1 if i.op == "add" else -1)
        if i.op in ("mul", "shl"):
            y = fa.canon(i.ops[1])
            if y[0] == "int":
                c = y[1] if i.op == "mul" else 1 << y[1]
                k, t = lin(fa, i.ops[0], depth + 1)
                return k * c, {x: n * c for x, n in t.items()}
        if i.op in ("sdiv", "udiv", "ashr", "lshr"):
            y = fa.canon(i.ops[1])
            if y[0] == "int" and y[1] > 0:
                c = y[1] if i.op.endswith("div") else 1 << y[1]
                k, t = lin(fa, i.ops[0], depth + 1)
                if t and k % c == 0 and all(n % c == 0 for n in t.values()) and all(x[0] == "ins" for x in t): return k // c, {x: n // c for x, n in t.items()}
        if i.op == "getelementptr" and i.off is not None:
            k, t = lin(fa, i.base, depth + 1)
            k += i.off; t = dict(t)
            for v, c in i.var:
                k2, t2 = lin(fa, v, depth + 1)
                k, t = comb(k, t, k2, t2, c)
            return k, t
        if i.op in ("inttoptr", "ptrtoint", "bitcast", "freeze"): return lin(fa, i.ops[0], depth + 1)
    return 0, {o: 1}


def comb(k1, t1, k2, t2, f):
    t = dict(t1)
    for x, n in t2.items():
        t[x] = t.get(x, 0) + f * n
        if not t[x]: del t[x]
    return k1 + f * k2, t


def eqlin(a, b):
    return a[0] == b[0] and a[1] == b[1]


class Counted:
    """header phi running by a constant step under the loop condition"""
    def __init__(s, phi, step, init, bound, incl, header, body):
        s.phi = phi; s.step = step; s.init = init; s.bound = bound; s.incl = incl; s.header = header; s.body = body

    def first_last(s, val):
        """inclusive first and last value (linear forms) of an expression val = phi + d (linear form) inside the body"""
        k, t = val
        me = ("ins", s.phi.id)
        if t.get(me) is None: return None
        c = t[me]
        rest = (k, {x: n for x, n in t.items() if x != me})
        f = comb(rest[0], rest[1], s.init[0], s.init[1], c)
        last = s.bound if s.incl else (s.bound[0] - s.step, s.bound[1])
        l = comb(rest[0], rest[1], last[0], last[1], c)
        return (f, l) if s.step * c > 0 else (l, f)


def counted(fa, header):
    """Counted loops at a header: all phis with constant step, with the header's continue condition as bound"""
    f = fa.f
    body = f.loops().get(header)
    if not body: return []
    out = []
    t = f.blocks[header][-1]
    # the exit test may sit in the header or in the latch; only loops with one exit test on the counter are handled
    for p in f.blocks[header]:
        if p.op != "phi": break
        me = ("ins", p.id)
        ini = [v for v, b in p.inc if b not in body]; nxt = [v for v, b in p.inc if b in body]
        if len(ini) != 1 or not nxt: continue
        steps = set()
        for v in nxt:
            k, tt = lin(fa, v)
            k, tt = comb(k, tt, 0, {me: 1}, -1)
            if tt: steps = None; break
            steps.add(k)
        if not steps or len(steps) != 1: continue
        step = steps.pop()
        if step == 0: continue
        for b in f.succ[header]:
            if b not in body: continue
            for a in fa.edge(header, b):
                if a[0] not in NEG: continue
                pr, x, y = a
                lx = lin(fa, x); ly = lin(fa, y)
                if lx[1].get(me) is None and ly[1].get(me) is not None: lx, ly = ly, lx; pr = SWAP[pr]
                if lx[1].get(me) is None: continue
                if lx[1].get(me) != 1:
                    continue
                # me + r  pr  ly   =>  me pr ly - r
                r = (lx[0], {q: n for q, n in lx[1].items() if q != me})
                bd = comb(ly[0], ly[1], r[0], r[1], -1)
                if step > 0 and pr in ("slt", "ult", "ne"): out.append(Counted(p, step, lin(fa, ini[0]), bd, False, header, body))
                elif step > 0 and pr in ("sle", "ule"): out.append(Counted(p, step, lin(fa, ini[0]), bd, True, header, body))
                elif step < 0 and pr in ("sgt", "ugt", "ne"): out.append(Counted(p, step, lin(fa, ini[0]), bd, False, header, body))
                elif step < 0 and pr in ("sge", "uge"): out.append(Counted(p, step, lin(fa, ini[0]), bd, True, header, body))
    return out


def only_exit(fa, header, body):
    """the loop is only left through the header's own test (or by not returning)"""
    f = fa.f
    for b in body:
        for s in f.succ[b]:
            if s not in body and b != header and not dead_end(f, s): return False
    return True


def dead_end(f, b, seen=None):
    seen = seen or set()
    if b in seen: return True
    seen.add(b)
    t = f.blocks[b][-1]
    if t.op == "unreachable": return True
    if t.op == "ret": return False
    return all(dead_end(f, s, seen) for s in f.succ[b])


def every_iteration(fa, ins, header, body):
    """ins is executed in every complete iteration"""
    f = fa.f
    return ins.blk in body and all(f.dominates(ins.blk, b) for b in body if header in f.succ[b])


def path_avoiding(f, start, goal, at, edge=None):
    """a way from start to goal (block, position; or a predicate on instructions) meeting none of the positions in at
    (edges for which edge(a, b) is false are not taken); returns the goal reached or None"""
    work = [start]; seen = set()
    while work:
        b, p = work.pop()
        stop = min([x for x in at.get(b, []) if x >= p], default=None)
        if callable(goal):
            for i in f.blocks[b][p:stop if stop is None else stop]:
                if goal(i): return i
        elif b == goal[0] and goal[1] >= p and (stop is None or goal[1] < stop): return f.blocks[b][goal[1]]
        if stop is None:
            for s in f.succ[b]:
                if s not in seen and (edge is None or edge(b, s)): seen.add(s); work.append((s, 0))
    return None
