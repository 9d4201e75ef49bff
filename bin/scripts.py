"""TLC state graph (dot, actionlabels) -> walks covering every edge."""
import re, random
from collections import deque

def graph(path):
    edges, init, nodes = {}, None, {}
    for line in open(path):
        m = re.match(r'^(-?\d+) -> (-?\d+) \[label="([^"]*)"', line)
        if m:
            edges.setdefault(m.group(1), {}).setdefault((m.group(3), m.group(2)), None); continue
        m = re.match(r'^(-?\d+) \[label="', line)
        if m:
            if init is None and "style = filled" in line: init = m.group(1)
            nodes[m.group(1)] = 1
    return init, {k: list(v) for k, v in edges.items()}

def cover(init, edges, maxlen=50, seed=1, limit=None):
    """Walks from init; every reachable edge is used at least once."""
    rnd = random.Random(seed)
    todo = {(s, e) for s, es in edges.items() for e in es}
    total = len(todo); walks = []
    left = {s: set(es) for s, es in edges.items()}
    while todo and (limit is None or len(walks) < limit):
        cur, walk, new = init, [], 0
        while len(walk) < maxlen:
            if left.get(cur):
                e = rnd.choice(sorted(left[cur])); left[cur].discard(e); todo.discard((cur, e)); walk.append(e[0]); cur = e[1]; new += 1; continue
            prev, q, goal = {cur: None}, deque([cur]), None   # nearest node with uncovered edges
            while q:
                x = q.popleft()
                if left.get(x): goal = x; break
                for e in edges.get(x, []):
                    if e[1] not in prev: prev[e[1]] = (x, e); q.append(e[1])
            if goal is None: break
            path = []
            while prev[goal]: path.append(prev[goal]); goal = prev[goal][0]
            path.reverse()
            if len(walk) + len(path) >= maxlen and walk: break
            for _, e in path: walk.append(e[0]); cur = e[1]
        if new == 0: break
        walks.append(walk)
    return walks, total, total - len(todo)
