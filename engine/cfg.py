"""Control-flow graph utilities over parsed MIR."""


def succs(term, unwind=False):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        out = [t for _, t in term[2]]
        if term[3] is not None:
            out.append(term[3])
        return out
    if k in ("drop", "call", "assert"):
        d = {"drop": 2, "call": 4, "assert": 5}[k]
        t = term[d]
        out = [v for n, v in t.items() if isinstance(v, int) and (n in ("return", "success") or (unwind and n == "unwind"))]
        return out
    return []


def reachable(mir, unwind=False):
    seen, work = {0}, [0]
    while work:
        b = work.pop()
        for s in succs(mir.blocks[b].term, unwind):
            if s not in seen:
                seen.add(s)
                work.append(s)
    return seen


def rpo(mir):
    seen, order = set(), []
    stack = [(0, iter(succs(mir.blocks[0].term)))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(mir.blocks[s].term))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    return order


def dominators(mir):
    order = rpo(mir)
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(mir.blocks[b].term):
            preds[s].append(b)
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom, preds


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        if b == 0:
            return False
        b = idom[b]


def loop_headers(mir):
    """{header: set(blocks of its natural loop)}"""
    idom, preds = dominators(mir)
    out = {}
    for b in idom:
        for s in succs(mir.blocks[b].term):
            if dominates(idom, s, b):
                body = out.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work += preds[x]
    return out
