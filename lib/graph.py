"""Behaviours of a specification turned into tests: TLC's labelled state graph
(-dump dot,actionlabels) is walked so that every transition is taken."""
import re
from collections import deque


def load_dot(path):
    """Returns (initial nodes, edges: node -> [(label, node)])."""
    edges, init, nodes = {}, [], set()
    ed = re.compile(r'^(-?\d+) -> (-?\d+) \[label="([^"]*)"')
    nd = re.compile(r'^(-?\d+) \[label="((?:[^"\\]|\\.)*)"(.*)\]')
    labels = {}
    with open(path) as f:
        for line in f:
            m = ed.match(line)
            if m:
                edges.setdefault(m.group(1), []).append((m.group(3), m.group(2)))
                continue
            m = nd.match(line)
            if m:
                labels[m.group(1)] = m.group(2)
                if "style = filled" in m.group(3) or "style=filled" in m.group(3):
                    init.append(m.group(1))
    return init, edges, labels


def walks(init, edges, maxlen=400):
    """Walks from the initial state that together take every transition."""
    done = set()
    total = sum(len(v) for v in edges.values())
    start = init[0]
    res = []
    nxt = {u: 0 for u in edges}

    def untaken(u):
        es = edges.get(u, [])
        i = nxt.get(u, 0)
        while i < len(es) and (u, i) in done:
            i += 1
        nxt[u] = i
        return i if i < len(es) else None
    while len(done) < total:
        walk, u = [], start
        progress = False
        while len(walk) < maxlen:
            i = untaken(u)
            if i is not None:
                done.add((u, i))
                lab, v = edges[u][i]
                walk.append(lab)
                u = v
                progress = True
                continue
            # nearest state with an untaken transition
            prev, q, goal = {u: None}, deque([u]), None
            while q:
                x = q.popleft()
                if untaken(x) is not None:
                    goal = x
                    break
                for j, (lab, y) in enumerate(edges.get(x, [])):
                    if y not in prev:
                        prev[y] = (x, lab)
                        q.append(y)
            if goal is None:
                break
            path = []
            y = goal
            while prev[y]:
                x, lab = prev[y]
                path.append(lab)
                y = x
            path.reverse()
            if walk and len(walk) + len(path) > maxlen:
                break
            walk += path
            u = goal
        res.append(walk)
        if not progress:
            raise RuntimeError("unreachable transitions")
    return res, total
