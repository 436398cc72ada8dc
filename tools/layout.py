"""Puts a goto function's basic blocks into loop-nested topological order.

CBMC's symbolic execution joins paths only at later program locations and counts loop iterations per
backward jump.  MIR order breaks both: a `break` of an inner loop is compiled to a jump straight back to
the head of the outer one, so each of them starts its own exploration of the rest.  Here every loop
becomes a contiguous range that ends in its only backward jump, and every other edge goes forward.
Only the order of blocks changes; the control flow graph is the same.
"""
import heapq

GOTO, END = 1, 9
NONE = 0xffffffff
PLAIN = {2, 3, 4, 5, 8, 10, 11, 12, 13, 14, 15, 16}


def is_true(c):
    return c.id == b'constant' and any(k == b'value' and v.id == b'true' for k, v in c.named)


def sccs(nodes, succ):
    """Strongly connected components, in reverse topological order (iterative Tarjan)."""
    index, low, on, stack, out, n = {}, {}, set(), [], [], 0
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = n
        n += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            w = next(it, None)
            if w is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = set()
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        comp.add(x)
                        if x == v:
                            break
                    out.append(comp)
            elif w not in index:
                index[w] = low[w] = n
                n += 1
                stack.append(w)
                on.add(w)
                work.append((w, iter(succ(w))))
            elif w in on:
                low[v] = min(low[v], index[w])
    return out


def arrange(nodes, edges, entry, preds):
    """Items: block numbers and ('latch', head)."""
    nodes = set(nodes)

    def succ(v):
        return [w for w in edges[v] if w in nodes]
    comps = sccs(sorted(nodes), succ)
    of = {v: i for i, c in enumerate(comps) for v in c}
    need = [set() for _ in comps]
    out = [set() for _ in comps]
    for v in nodes:
        for w in succ(v):
            if of[v] != of[w]:
                need[of[w]].add(of[v])
                out[of[v]].add(of[w])
    left = [len(x) for x in need]
    heap = [(min(c), i) for i, c in enumerate(comps) if not left[i]]
    heapq.heapify(heap)
    res = []
    while heap:
        _, i = heapq.heappop(heap)
        c = comps[i]
        v = next(iter(c))
        if len(c) == 1 and v not in succ(v):
            res.append(v)
        else:
            heads = {v for v in c if v == entry or any(p not in c for p in preds[v])}
            # a coroutine is also entered at its suspension points, inside its loops: the loop
            # proper starts at the first of the entries
            h = min(heads or c)
            body = c - {h}
            inner = {v: [w for w in edges[v] if w != h] for v in body}
            res.append(h)
            res += arrange(body, inner, None, preds)
            res.append(('latch', h))
        for j in out[i]:
            left[j] -= 1
            if not left[j]:
                heapq.heappush(heap, (min(comps[j]), j))
    return res


def relayout(ins, nil):
    """The instructions of a function in the new order, or None."""
    pos = {i[4]: k for k, i in enumerate(ins) if i[4] != NONE}
    if not any(i[2] == GOTO and any(pos[t] <= k for t in i[5]) for k, i in enumerate(ins)):
        return None
    if ins[-1][2] != END or any(i[2] not in PLAIN and i[2] != GOTO for i in ins[:-1]):
        return None
    if any(i[2] == GOTO and len(i[5]) != 1 for i in ins):
        return None
    lead = {0, len(ins) - 1}
    for k, i in enumerate(ins):
        if i[2] == GOTO:
            lead.add(pos[i[5][0]])
            if k + 1 < len(ins):
                lead.add(k + 1)
    lead = sorted(lead)
    block = {k: n for n, k in enumerate(lead)}
    code = [ins[a:b] for a, b in zip(lead, lead[1:] + [len(ins)])]
    edges = []
    for n, c in enumerate(code):
        last = c[-1]
        if last[2] == GOTO:
            t = block[pos[last[5][0]]]
            edges.append([t] if is_true(last[3]) else [t, n + 1])
        elif last[2] == END:
            edges.append([])
        else:
            edges.append([n + 1])
    seen, todo = {0}, [0]
    while todo:
        for w in edges[todo.pop()]:
            if w not in seen:
                seen.add(w)
                todo.append(w)
    end = len(code) - 1
    seen.add(end)
    preds = {v: [p for p in seen if v in edges[p]] for v in seen}
    order = arrange(seen - {end}, {v: list(edges[v]) for v in seen}, 0, preds)
    order.append(end)
    if order[0] != 0:
        return None
    true = next(i[3] for i in ins if i[2] == GOTO and is_true(i[3])) if any(i[2] == GOTO and is_true(i[3]) for i in ins) else None
    if true is None:
        return None
    place = {x: k for k, x in enumerate(order)}

    def goal(src, dst):
        """The item an edge has to point to: a backward edge goes to the latch of its loop."""
        return dst if place[dst] > place[src] else ('latch', dst)
    number = {x: k + 1 for k, x in enumerate(order)}
    back = {}
    for v in seen:
        for w in edges[v]:
            if place[w] <= place[v]:
                back[w] = code[v][-1]
    out = []
    for k, x in enumerate(order):
        if isinstance(x, tuple):
            old = back[x[1]]
            out.append((nil, old[1], GOTO, true, number[x], [number[x[1]]], []))
            continue
        nxt = order[k + 1] if k + 1 < len(order) else None
        c = code[x]
        for j, i in enumerate(c):
            i = list(i)
            i[4] = number[x] if j == 0 else NONE
            if j == len(c) - 1 and i[2] == GOTO:
                i[5] = [number[goal(x, edges[x][0])]]
            out.append(tuple(i))
        last = c[-1]
        if last[2] == END or (last[2] == GOTO and is_true(last[3])):
            continue
        g = goal(x, edges[x][-1])
        if g != nxt:
            out.append((nil, last[1], GOTO, true, NONE, [number[g]], []))
    # only instructions that are jumped to keep a number
    used = {t for i in out for t in i[5]}
    return [i if i[4] in used else i[:4] + (NONE,) + i[5:] for i in out]
