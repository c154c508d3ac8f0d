"""Sessions for the driver: seeded, with a small model that only serves to meet preconditions."""
import json, random
from fractions import Fraction

NA = -999999
COST, CAP, DEM, NOTE, X1, X2 = range(1, 7)
NUMSTYLES = ['int0', 'int1', 'big', 'neg', 'rev', 'str', 'odd', 'long', 'tuple', 'tup3', 'float', 'mixed', 'fset']
POOLS = [['cost', 'capacity', 'demand', 'note', 'x1', 'x2'],
         ['cost', 'label', 'weight', 'note', 'color', 'shape'],
         ['flow', 'length', 'demand', 'the key', 'Cost', 'cost '],
         ['a', 'b', 'ab', 'attr', 'attributes', 'g'],
         ['priority', 'distance', 'pred', 'component', 'potential', 'level']]


# ----------------------------------------------------------------------------- families of graphs
def family(rng, n, t, dense=None):
    """a list of pairs over 1..n without repetition"""
    V = list(range(1, n + 1))
    rng.shuffle(V)
    kind = rng.choice(['random'] * 6 + ['path', 'cycle', 'tree', 'star', 'complete', 'two', 'layers', 'dag'])
    E = []
    if kind == 'random':
        d = dense if dense is not None else rng.choice([0.1, 0.2, 0.35, 0.5, 0.8] if n < 12 else [0.04, 0.06, 0.1, 0.15])
        E = [(a, b) for a in V for b in V if a != b and rng.random() < d]
    elif kind == 'path':
        E = list(zip(V, V[1:]))
    elif kind == 'cycle':
        E = list(zip(V, V[1:] + V[:1])) if n > 1 else []
    elif kind == 'tree':
        E = [(V[rng.randrange(i)], V[i]) for i in range(1, n)]
    elif kind == 'star':
        E = [(V[0], v) for v in V[1:]]
    elif kind == 'complete':
        E = [(a, b) for a in V for b in V if a != b and (t == 'D' and rng.random() < 0.9 or a < b)]
    elif kind == 'two':
        k = n // 2
        E = [(a, b) for H in (V[:k], V[k:]) for a in H for b in H if a != b and rng.random() < 0.6]
    elif kind == 'layers':
        L, i = [], 0
        while i < n:
            w = rng.randint(1, 3)
            L.append(V[i:i + w])
            i += w
        E = [(a, b) for A, B in zip(L, L[1:]) for a in A for b in B if rng.random() < 0.8]
    elif kind == 'dag':
        E = [(V[i], V[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < 0.5]
    if kind in ('path', 'cycle', 'tree', 'star', 'layers') and rng.random() < 0.6:
        for _ in range(rng.randint(0, n)):
            a, b = rng.choice(V), rng.choice(V)
            if a != b:
                E.append((a, b))
    if t == 'D' and rng.random() < 0.3:
        E = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in E]
    return uniq(E, t)


def uniq(E, t):
    seen, out = set(), []
    for a, b in E:
        k = (min(a, b), max(a, b)) if t == 'U' else (a, b)
        if k not in seen:
            seen.add(k)
            out.append((a, b))
    return out


class B:
    """the operations of one session on one graph, and the graph they should give"""

    def __init__(self, rng, ops, gid, kind, k, eat=None, nat=None):
        self.rng, self.ops, self.gid, self.k = rng, ops, gid, k
        self.t = 'D' if kind in 'Dd' else 'U'
        self.eat = eat or (lambda: [])
        self.nat = nat or (lambda: [])
        self.N, self.E = {}, {}
        self.univ = False
        ga = [] if rng.random() < 0.6 else rng.sample([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 101, 101], 3)
        ops.append(['new', gid, kind, ga])

    def key(self, a, b):
        return (min(a, b), max(a, b)) if self.t == 'U' else (a, b)

    def has(self, a, b):
        return self.key(a, b) in self.E

    def node(self, a, at=None):
        at = self.nat() if at is None else at
        self.ops.append(['add_node', self.gid, a, at])
        if a not in self.N:
            self.N[a] = dict(at)

    def edge(self, a, b, at=None):
        at = self.eat() if at is None else at
        self.ops.append(['add_edge', self.gid, a, b, at])
        if not self.has(a, b):
            for v in (a, b):
                self.N.setdefault(v, {})
            self.E[self.key(a, b)] = dict(at)

    def deledge(self, a, b):
        self.ops.append(['del_edge', self.gid, a, b])
        self.E.pop(self.key(a, b), None)

    def delnode(self, a):
        self.ops.append(['del_node', self.gid, a])
        if a in self.N:
            del self.N[a]
            self.E = {e: v for e, v in self.E.items() if a not in e}

    def delnodes(self, L):
        self.ops.append(['del_nodes', self.gid, L])
        self.N = {v: x for v, x in self.N.items() if v not in L}
        self.E = {e: v for e, v in self.E.items() if not set(e) & set(L)}

    def deledges(self, L):
        self.ops.append(['del_edges', self.gid, [list(e) for e in L]])
        self.E = {e: v for e, v in self.E.items() if e not in {self.key(*x) for x in L}}

    def setnode(self, a, x, v):
        self.ops.append(['set_node', self.gid, a, x, v, self.rng.randrange(2)])
        if a in self.N:
            self.N[a][x] = v

    def setedge(self, a, b, x, v):
        if self.t == 'U' and self.rng.random() < 0.5:
            a, b = b, a
        self.ops.append(['set_edge', self.gid, a, b, x, v])
        if self.has(a, b):
            self.E[self.key(a, b)][x] = v

    def alg(self, name, **p):
        self.ops.append(['alg', self.gid, name, p])

    def anynode(self):
        return self.rng.choice(sorted(self.N))

    def anyedge(self):
        return self.rng.choice(sorted(self.E))

    # ------------------------------------------------------------------ putting a graph together
    def build(self, n, pairs, nodes=True, allnodes=False, detour=0.25):
        rng = self.rng
        todo = [('e', a, b) for a, b in pairs]
        rng.shuffle(todo)
        if allnodes:
            for v in rng.sample(range(1, n + 1), n):
                self.node(v)
        elif nodes:
            iso = set(range(1, n + 1)) - {v for e in pairs for v in e}
            pre = [v for v in range(1, n + 1) if v in iso or rng.random() < 0.4]
            rng.shuffle(pre)
            for v in pre:
                todo.insert(rng.randint(0, len(todo)), ('n', v, 0))
        for what, a, b in todo:
            if what == 'n':
                if a not in self.N:
                    self.node(a)
            else:
                if self.t == 'U' and rng.random() < 0.5:
                    a, b = b, a
                self.edge(a, b)
                if rng.random() < 0.06 * (detour > 0):
                    self.deledge(a, b)
                    self.edge(a, b)
        if allnodes is False and nodes is False and n and not self.N:
            self.node(rng.randint(1, n))
        if detour and rng.random() < detour and self.E:
            # something that is gone again
            for _ in range(rng.randint(1, 2)):
                v = self.anynode()
                old = dict(self.N[v])
                inc = [(e, dict(x)) for e, x in self.E.items() if v in e]
                self.delnode(v)
                if rng.random() < 0.7:
                    self.node(v, sorted(old.items()))
                    for e, x in inc:
                        if rng.random() < 0.9:
                            self.edge(e[0], e[1], sorted(x.items()))
                elif not self.N:
                    self.node(v, sorted(old.items()))


def base(rng, sid, **kw):
    s = {'sid': sid, 'kind': 'graph', 'seed': rng.randrange(10**6), 'style': rng.choice(NUMSTYLES), 'quiet': True,
         'unit': rng.choice([[1, 1]] * 5 + [[1, 4], [1, 8], [1000003, 1], [7, 1], [10000, 1], [2500, 1]]), 'vals': 'num',
         'float': rng.random() < 0.15, 'display': rng.choice([None, None, None, 'off', 'file'])}
    s.update(kw)
    return s


def kindof(rng, t=None):
    return rng.choice({'D': ['D', 'D', 'd'], 'U': ['U', 'U', 'u', 'default']}[t or rng.choice('DU')])


def size(rng, big=False, huge=0):
    r = rng.random()
    if huge and rng.random() < 0.004:
        return rng.randint(25, huge)
    if big and r > 0.98:
        return rng.randint(12, 24)
    if big and r > 0.9:
        return rng.randint(8, 11)
    return rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7])


def loops(rng, n, E, p=0.25):
    if rng.random() < p and n:
        E = E + [(v, v) for v in rng.sample(range(1, n + 1), rng.randint(1, min(2, n)))]
    return E


# ----------------------------------------------------------------------------- noise between the calls judged
def noise(b, rng, count=1, only=None):
    for _ in range(count):
        if not b.N:
            return
        c = ['search', 'search', 'bfs', 'degrees', 'render', 'ham1']
        if b.t == 'D':
            c += ['strong', 'kosaraju', 'residual', 'dfs', 'maxflow', 'pagerank', 'in_degrees', 'fifo', 'fw', 'negcycle', 'mcf']
        else:
            c += ['label_components', 'label_components', 'diameter', 'prim', 'kruskal']
        alg(b, rng, rng.choice(only or c))


def alg(b, rng, name):
    if name == 'search':
        b.alg('search', **searchp(b, rng, rng.choice(['DFS', 'BFS', 'UnweightedSPT'] + (['Dijkstra'] if costs(b) else []))))
    elif name == 'bfs':
        b.alg('bfs', src=b.anynode(), comp=rng.choice([NA, NA, 0, 5]))
    elif name in ('degrees', 'in_degrees', 'out_degrees', 'diameter', 'label_components', 'fw', 'negcycle'):
        if name in ('fw', 'negcycle') and not costs(b):
            return
        b.alg(name)
    elif name == 'render':
        b.alg('render', how=rng.randrange(3))
    elif name == 'strong':
        b.alg('strong', direct=rng.randrange(2))
    elif name == 'kosaraju':
        b.alg('kosaraju', rot=rng.randrange(5), useorder=rng.randrange(2))
    elif name == 'residual':
        if caps(b) and costs(b):
            b.alg('setflow', flow=[[a, c, rng.randint(0, max(0, b.E[a, c].get(CAP, 0)))] for a, c in sorted(b.E)])
            b.alg('residual')
            if rng.random() < 0.4:
                b.alg('basis')
    elif name == 'dfs':
        b.alg('dfs', root=b.anynode(), first=1, d0=0, f0=1, counters=0, order=0, pred=0, comp=NA, transpose=0, clean=0)
    elif name == 'maxflow':
        if caps(b) and antifree(b) and len(b.N) > 1:
            s, t = rng.sample(sorted(b.N), 2)
            a = rng.choice(['preflow', 'aug'])
            b.alg('maxflow', s=s, t=t, algo=a, rule=rng.choice(['FIFO', 'SAP', 'HighestLabel'] if a == 'preflow' else ['DFS', 'BFS']))
    elif name == 'mcf':
        if caps(b) and costs(b) and antifree(b) and len(b.N) <= 6 and connected(b) and \
                all(v.get(DEM, NA) != NA for v in b.N.values()):
            b.alg('mincost', **mincostp(b, rng))
    elif name == 'pagerank':
        b.alg('pagerank', d=85, iter=rng.choice([3, 100]), delta=1e-5, exact=0, tol=0)
    elif name == 'fifo':
        if costs(b):
            b.alg('fifo', src=b.anynode())
    elif name == 'prim':
        if costs(b):
            b.alg('prim', src=b.anynode())
    elif name == 'kruskal':
        if costs(b):
            b.alg('kruskal', ds=rng.randrange(3))
    elif name == 'ham1':
        if len(b.N) <= 6:
            b.alg('ham', src=b.anynode(), dst=rng.choice([0, b.anynode()]), **{'pass': rng.randrange(2)})


def costs(b):
    return not b.univ and all(e.get(COST, NA) != NA for e in b.E.values())


def caps(b):
    return not b.univ and all(e.get(CAP, NA) != NA and e[CAP] >= 0 for e in b.E.values())


def antifree(b):
    return all(a != c and (c, a) not in b.E for a, c in b.E)


def connected(b, E=None, N=None):
    E = list(b.E if E is None else E)
    N = set(b.N if N is None else N)
    if not N:
        return False
    seen = {min(N)}
    todo = list(seen)
    while todo:
        v = todo.pop()
        for a, c in E:
            for x, y in ((a, c), (c, a)):
                if x == v and y not in seen:
                    seen.add(y)
                    todo.append(y)
    return seen == N


def searchp(b, rng, algo):
    p = {'src': b.anynode(), 'dst': 0 if rng.random() < 0.45 else b.anynode(), 'algo': algo, 'rev': 0,
         'comp': NA, 'explicit': rng.randrange(2)}
    if b.t == 'D' and rng.random() < 0.3:
        p['rev'] = 1
    if algo in ('DFS', 'BFS', 'UnweightedSPT') and rng.random() < 0.3:
        p['comp'] = rng.choice([0, 1, 7])
    if rng.random() < 0.15:
        p['display'] = rng.choice(['off', 'file'])
    if rng.random() < 0.2:
        p['q'] = {'DFS': 'S', 'BFS': rng.choice('QQP'), 'UnweightedSPT': rng.choice('QP')}.get(algo, 'P')
    return p


def mincostp(b, rng, algo=None):
    algo = algo or rng.choice(['cycle_canceling', 'simplex'])
    p = {'algo': algo, 'how': rng.choice([0, 0, 1]), 'pivot': '', 'root': 0, 'explicit': rng.randrange(2)}
    if algo == 'simplex':
        p['pivot'] = rng.choice(['', 'dantzig', 'first_eligible'])
        p['root'] = rng.choice([0, b.anynode(), b.anynode()]) if p['how'] == 0 else b.anynode()
    if rng.random() < 0.1:
        p['display'] = 'file'
    return p


# ----------------------------------------------------------------------------- the abstract graph object
def adt(rng, sid, prop, tier):
    s = base(rng, sid, k=rng.choice([4, 5, 6]), vals='univ', quiet=False, attrs=rng.choice(POOLS),
             others=0.35, unit=[1, 1], float=False)
    algs = rng.random() < 0.6 or prop in ('C02', 'C24')
    if algs:
        s['attrs'] = rng.choice([POOLS[0], POOLS[0], POOLS[3]])
    k, ops = s['k'], []
    nv = 19
    # attribute values: a few, so that equal values recur
    pool = rng.sample(range(1, nv + 1), rng.randint(3, 8))

    def at():
        if rng.random() < 0.4:
            return []
        return [[x, rng.choice(pool)] for x in rng.sample(range(1, 7), rng.randint(1, 3))]
    gs = [B(rng, ops, 0, kindof(rng), k, at, at)]
    nops = rng.randint(25, 45) if prop != 'C24' else rng.randint(15, 25)
    late = rng.randint(0, nops)
    for i in range(nops):
        if i == late or (len(gs) < 3 and rng.random() < 0.02):
            gs.append(B(rng, ops, len(gs), kindof(rng), k, at, at))
        b = rng.choice(gs)
        b.univ = True
        step(b, rng, k, pool, wrong={'C02': 0.5}.get(prop, 0.2))
        r = rng.random()
        if prop == 'C24' and b.N and r < 0.5:
            b.alg(rng.choice(['degrees', 'in_degrees', 'out_degrees'] if b.t == 'D' else ['degrees', 'diameter', 'diameter']))
        elif algs and b.N and r < 0.08:
            c = ['search', 'bfs', 'degrees', 'render', 'ham1'] + \
                (['strong', 'kosaraju', 'dfs', 'pagerank'] if b.t == 'D' else ['diameter', 'label_components'])
            noise(b, rng, 1, c)
        elif prop == 'C02' and r < 0.2 and b.t == 'D':
            b.alg('label_components')
        elif prop == 'C02' and r < 0.2 and b.t == 'U':
            b.alg('residual')
    s['ops'] = ops
    return s


def step(b, rng, k, pool, wrong=0.2):
    """one operation, valid or not"""
    V = range(1, k + 1)
    bad = rng.random() < wrong
    absent = [v for v in V if v not in b.N]
    op = rng.choice(['add_node', 'add_edge', 'add_edge', 'add_edge', 'add_edge', 'del_node', 'del_edge', 'set', 'set', 'set'])
    if op == 'add_node':
        if bad and b.N:
            b.node(b.anynode())
        elif absent:
            b.node(rng.choice(absent))
        else:
            op = 'del_node'
    if op == 'add_edge':
        if bad and b.E:
            e = b.anyedge()
            if rng.random() < 0.5 and b.t == 'U':
                e = (e[1], e[0])
            b.edge(*e)
        else:
            for _ in range(6):
                a, c = rng.choice(V), rng.choice(V)
                if rng.random() < 0.12:
                    c = a
                elif rng.random() < 0.3 and b.E:
                    c, a = b.anyedge()
                if not b.has(a, c):
                    b.edge(a, c)
                    break
    if op == 'del_node':
        if bad:
            b.delnode(rng.choice(absent)) if absent else None
        elif b.N and rng.random() < 0.7:
            b.delnode(b.anynode())
    if op == 'del_edge':
        if bad:
            for _ in range(6):
                a, c = rng.choice(V), rng.choice(V)
                if rng.random() < 0.5 and b.E:
                    c, a = b.anyedge()
                if not b.has(a, c):
                    b.deledge(a, c)
                    break
        elif b.E:
            e = b.anyedge()
            if rng.random() < 0.5 and b.t == 'U':
                e = (e[1], e[0])
            b.deledge(*e)
    if rng.random() < 0.06:
        op = rng.choice(['del_nodes', 'del_edges', 'scribble'])
        if op == 'del_nodes':
            b.delnodes(rng.sample(V, min(k, rng.choice([1, 2, 2, 3, k // 2]))))
        elif op == 'del_edges':
            L = [e if b.t == 'D' or rng.random() < 0.5 else (e[1], e[0]) for e in sorted(b.E) if rng.random() < 0.5]
            b.deledges(L)
        else:
            b.ops.append(['scribble', b.gid])
    if op == 'set':
        if b.N and rng.random() < 0.45:
            b.setnode(b.anynode(), rng.randint(1, 6), rng.choice(pool + [NA] if False else pool))
        elif b.E:
            e = b.anyedge()
            b.setedge(e[0], e[1], rng.randint(1, 6), rng.choice(pool))


# ----------------------------------------------------------------------------- algorithms
def weights(rng, lo, hi):
    r = rng.random()
    if r < 0.25:
        hi = min(hi, max(lo, 0) + 1)
    elif r < 0.5:
        hi = min(hi, max(lo, 0) + 3)
    return lambda: rng.randint(lo, hi)


def full(rng, lo=0, hi=9, cap=(0, 6), dem=None, label=False):
    """edge attributes: cost and capacity and sometimes more"""
    w = weights(rng, lo, hi)
    extra = rng.random() < 0.4

    def eat():
        r = [[COST, w()]]
        if cap:
            r.append([CAP, rng.randint(*cap)])
        if extra and rng.random() < 0.5:
            r.append([rng.choice([NOTE, X1, X2]), rng.randint(0, 5)])
        return r

    def nat():
        r = [[DEM, dem()]] if dem else []
        if extra and rng.random() < 0.5:
            r.append([rng.choice([NOTE, X1, X2]), rng.randint(0, 5)])
        return r
    return eat, nat


def edit(b, rng, n, ok=lambda b: True, allowloops=True, neg=None):
    """a change of the graph between two runs"""
    for _ in range(rng.randint(1, 2)):
        r = rng.random()
        if r < 0.35 and b.E:
            e = b.anyedge()
            b.setedge(e[0], e[1], COST, b.eat()[0][1])
        elif r < 0.55 and b.E:
            e = b.anyedge()
            b.deledge(*e)
        elif r < 0.85:
            a, c = rng.randint(1, n), rng.randint(1, n)
            if (a != c or allowloops) and not b.has(a, c):
                b.edge(a, c)
        elif r < 0.93 and len(b.N) > 1:
            b.delnode(b.anynode())
        else:
            free = [v for v in range(1, n + 1) if v not in b.N]
            if free:
                b.node(rng.choice(free))


def session(rng, sid, call, t=None, lo=0, hi=9, cap=(0, 6), calls=(3, 6), big=False, noisep=0.4, loop=0.25,
            editp=0.45, sizes=None, dense=None, empty=False, huge=0, **kw):
    """one or two graphs, calls of the algorithm with noise and changes between them"""
    s = base(rng, sid, **kw)
    ops, gs = [], []
    kmax = 1
    for gid in range(rng.choice([1, 1, 1, 2])):
        n = 0 if empty and rng.random() < 0.02 else sizes(rng) if sizes else size(rng, big, huge)
        eat, nat = full(rng, lo, hi, cap)
        b = B(rng, ops, gid, kindof(rng, t), n + 1, eat, nat)
        b.n = n
        if empty and rng.random() < 0.01:
            call(b)
        b.loop = loop
        E = loops(rng, n, family(rng, n, b.t, dense), loop)
        b.build(n, E)
        gs.append(b)
        kmax = max(kmax, n + 1)
    s['k'] = kmax
    for _ in range(rng.randint(*calls)):
        b = rng.choice(gs)
        if rng.random() < noisep:
            noise(b, rng, rng.choice([1, 1, 2]))
        if rng.random() < editp:
            edit(b, rng, b.n + 1, allowloops=loop > 0)
        if empty and rng.random() < 0.01:
            for v in sorted(b.N):
                b.delnode(v)
        if not b.N and not (empty and rng.random() < 0.5):
            b.node(1)
        call(b)
    s['ops'] = ops
    return s


def g_search(rng, sid, prop, tier):
    algos = {'C04': ['DFS', 'DFS', 'BFS', 'UnweightedSPT'], 'C05': ['BFS', 'UnweightedSPT'], 'C06': ['Dijkstra'], 'C07': ['Prim']}[prop]

    def call(b):
        if prop == 'C04' and rng.random() < 0.1:
            b.alg('bfs', src=b.anynode(), comp=rng.choice([NA, 0, 3]))
        else:
            b.alg('search', **searchp(b, rng, rng.choice(algos)))
    return session(rng, sid, call, big=True, hi=rng.choice([3, 9, 40]), calls=(4, 8), huge=28 if prop == 'C04' else 36)


def g_mst(rng, sid, prop, tier):
    def call(b):
        r = rng.random()
        if r < 0.4 or not b.N:
            b.alg('kruskal', ds=rng.randrange(3))
        elif r < 0.7:
            b.alg('prim', src=b.anynode(), q=rng.randrange(2))
        else:
            p = searchp(b, rng, 'Prim')
            p['dst'] = 0
            b.alg('search', **p)
    return session(rng, sid, call, t='U', lo=rng.choice([0, -5]), big=True, loop=0.2, calls=(4, 8), empty=True, huge=36)


def g_components(rng, sid, prop, tier):
    def call(b):
        if rng.random() < 0.25 and b.N:
            b.alg('clear', attrs=['component'], val=rng.choice([NA, NA, 0, 2]), only=rng.sample(sorted(b.N), rng.randint(1, len(b.N))))
        b.alg('label_components', **({'display': 'file'} if rng.random() < 0.1 else {}))
    return session(rng, sid, call, t='U', big=True, dense=rng.choice([None, 0.05, 0.12]), calls=(4, 8), editp=0.6, empty=True,
                   huge=36)


def g_strong(rng, sid, prop, tier):
    def call(b):
        r = rng.random()
        if r < 0.2:
            b.alg('clear', attrs=['component', 'disc_time', 'finish_time'], val=NA)
        if r < 0.6:
            b.alg('strong', direct=rng.randrange(2))
        else:
            b.alg('kosaraju', rot=rng.randrange(6), useorder=rng.randrange(2))
    return session(rng, sid, call, t='D', big=True, dense=rng.choice([None, None, 0.12, 0.2]), calls=(4, 8), editp=0.6,
                   empty=True, huge=28)


def g_dfs(rng, sid, prop, tier):
    s = base(rng, sid)
    ops = []
    kind = kindof(rng, rng.choice('DDU'))
    n = size(rng, True, 36)
    eat, nat = full(rng)
    b = B(rng, ops, 0, kind, n, eat, nat)
    b.n = n
    b.build(n, loops(rng, n, family(rng, n, b.t)))
    s['k'] = n + 1
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.4:
            noise(b, rng, 1)
        if rng.random() < 0.4:
            edit(b, rng, n + 1)
        if not b.N:
            b.node(1)
        b.alg('clear', attrs=['component', 'disc_time', 'finish_time'], val=NA)
        keep = dict(counters=1 if rng.random() < 0.85 else 0, order=rng.randrange(2), pred=rng.randrange(2))
        d0, f0 = rng.choice([(0, 1), (0, 1), (0, 1), (5, 3), (-1, 0)])
        comp = rng.choice([NA, NA, 0, 4])
        order = sorted(b.N)
        rng.shuffle(order)
        first = 1
        seen = set()
        for v in order[:rng.randint(1, len(order))]:
            if v in seen:
                continue
            seen |= reach(b, v, seen)
            b.alg('dfs', root=v, first=first, d0=d0, f0=f0, comp=comp, transpose=0,
                  clean=1 if keep['counters'] or first else 0, **keep)
            first = 0
            if comp != NA and rng.random() < 0.7:
                comp += 1
            if not keep['counters']:
                break
        if b.t == 'D' and len(seen) == len(b.N) and rng.random() < 0.6:
            b.alg('clear', attrs=['component'], val=NA)
            c, seen = rng.choice([0, 0, 2]), set()
            rng.shuffle(order)
            first = 1
            for v in order:
                if v in seen:
                    continue
                seen |= reach(b, v, seen, True)
                b.alg('dfs', root=v, first=first, d0=0, f0=1, comp=c, transpose=1, clean=first, counters=1, order=rng.randrange(2), pred=0)
                first = 0
                c += 1
    s['ops'] = ops
    return s


def reach(b, v, without=(), rev=False):
    seen, todo = {v}, [v]
    arcs = set(b.E)
    if b.t == 'U':
        arcs |= {(y, x) for x, y in arcs}
    if rev:
        arcs = {(y, x) for x, y in arcs}
    while todo:
        x = todo.pop()
        for a, c in arcs:
            if a == x and c not in seen and c not in without:
                seen.add(c)
                todo.append(c)
    return seen


def flownet(rng, n, dense=None):
    E = family(rng, n, 'D', dense)
    out, seen = [], set()
    for a, c in E:
        if a != c and (c, a) not in seen:
            seen.add((a, c))
            out.append((a, c))
    return out


def netedit(b, rng, keepconn=False):
    r = rng.random()
    n = b.n
    if r < 0.3 and b.E:
        e = b.anyedge()
        b.setedge(e[0], e[1], CAP, b.eat()[1][1])
    elif r < 0.5 and b.E:
        e = b.anyedge()
        if not keepconn or connected(b, [x for x in b.E if x != e]):
            b.deledge(*e)
    elif r < 0.8:
        a, c = rng.randint(1, n), rng.randint(1, n)
        if a != c and not b.has(a, c) and not b.has(c, a) and (not keepconn or (a in b.N and c in b.N)):
            b.edge(a, c)
    elif r < 0.9 and b.E:
        e = b.anyedge()
        b.setedge(e[0], e[1], COST, b.eat()[0][1])
    elif r < 0.95 and not keepconn and len(b.N) > 2:
        b.delnode(b.anynode())


def zigzag(rng):
    """a short path and longer detours around it: the later augmenting paths push flow back -> (pairs with capacity, s, t)"""
    E, have, count = [], set(), [0]

    def new():
        count[0] += 1
        return count[0]

    def arc(a, c, lo, hi):
        if a != c and (a, c) not in have and (c, a) not in have:
            have.add((a, c))
            E.append((a, c, rng.randint(lo, hi)))

    def way(a, c, length):
        p = [a] + [new() for _ in range(length - 1)] + [c]
        for x, y in zip(p, p[1:]):
            arc(x, y, 1 if rng.random() < 0.3 else hi // 2 + 1, hi + 2)
    m, hi = rng.randint(3, 5), rng.choice([3, 6, 9])
    main = [new() for _ in range(m + 1)]
    for a, c in zip(main, main[1:]):
        arc(a, c, 1, hi)
    for _ in range(rng.randint(1, 2)):
        i = rng.randint(1, m - 2)
        j = rng.randint(i + 1, m - 1)
        way(main[0], main[j], j + rng.randint(0, 1))
        way(main[i], main[m], m - i + rng.randint(0, 1))
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        arc(rng.randint(1, count[0]), rng.randint(1, count[0]), 1, hi)
    perm = rng.sample(range(1, count[0] + 1), count[0])
    E = [(perm[a - 1], perm[c - 1], u) for a, c, u in E]
    rng.shuffle(E)
    return E, perm[main[0] - 1], perm[main[m] - 1], count[0]


def g_zigzag(rng, sid, prop, tier):
    s = base(rng, sid)
    ops = []
    E, src, snk, n = zigzag(rng)
    eat, nat = full(rng, -3, 9, cap=(1, 9))
    b = B(rng, ops, 0, kindof(rng, 'D'), n, eat, nat)
    b.n = s['k'] = n
    for v in rng.sample(range(1, n + 1), rng.choice([0, 0, 2, n])):
        b.node(v)
    for a, c, u in E:
        b.edge(a, c, [(x, u if x == CAP else y) for x, y in eat()])
    for i in range(rng.choice([1, 1, 2])):
        if i:
            netedit(b, rng)
        if src in b.N and snk in b.N:
            p = {'s': src, 't': snk, 'explicit': rng.randrange(2)}
            p.update({'algo': 'preflow', 'rule': rng.choice(['FIFO', 'SAP', 'HighestLabel'])} if prop == 'C12' else
                     {'algo': 'aug', 'rule': rng.choice(['DFS', 'BFS'])})
            b.alg('maxflow', **p)
    s['ops'] = ops
    return s


def g_maxflow(rng, sid, prop, tier):
    if rng.random() < (0.25 if prop == 'C12' else 0.4):
        return g_zigzag(rng, sid, prop, tier)
    s = base(rng, sid)
    n = max(2, size(rng, True, 36 if prop == 'C11' else 0))
    rich = rng.random() < 0.03              # dense and with many different capacities: many augmentations
    if rich:
        n = rng.randint(10, 16)
    ops = []
    eat, nat = full(rng, -3, 9, cap=(1, 700) if rich else rng.choice([(0, 1), (1, 3), (0, 6), (0, 6), (1, 30)]))
    b = B(rng, ops, 0, kindof(rng, 'D'), n, eat, nat)
    b.n = n
    if rich:
        V = rng.sample(range(1, n + 1), n)
        back = rng.choice([0, 0.2, 0.5])
        b.build(n, [(V[i], V[j]) if rng.random() >= back else (V[j], V[i]) for i in range(n) for j in range(i + 1, n)
                    if rng.random() < 0.8])
    else:
        b.build(n, flownet(rng, n))
    s['k'] = n
    while len(b.N) < 2:
        b.node(next(v for v in range(1, n + 1) if v not in b.N))
    st = rng.sample(sorted(b.N), 2)
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.35:
            noise(b, rng, 1, ['search', 'strong', 'maxflow', 'maxflow', 'residual', 'bfs', 'degrees', 'dfs', 'kosaraju'])
        if rng.random() < 0.5:
            netedit(b, rng)
        while len(b.N) < 2:
            b.node(next(v for v in range(1, n + 1) if v not in b.N))
        if rng.random() < 0.5 or not set(st) <= set(b.N):
            st = rng.sample(sorted(b.N), 2)
        p = {'s': st[0], 't': st[1], 'explicit': rng.randrange(2)}
        if rng.random() < 0.1:
            p['display'] = rng.choice(['file', 'off'])
        if prop == 'C12':
            p.update(algo='preflow', rule=rng.choice(['FIFO', 'SAP', 'HighestLabel']))
        else:
            p.update(algo='aug', rule=rng.choice(['DFS', 'BFS']))
        b.alg('maxflow', **p)
    s['ops'] = ops
    return s


def g_mincost(rng, sid, prop, tier):
    s = base(rng, sid)
    # half of the networks are dense and carry flows between the bounds
    wide = rng.random() < 0.5
    n = rng.choice([5, 6, 7, 7, 8] if wide else [1, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7])
    if rng.random() < 0.06:
        n = rng.randint(9, 18)
    # a few with so many different numbers that the methods take several times as many steps as there are arcs
    rich = rng.random() < 0.02
    ops = []
    if rich:
        n, wide = rng.randint(11, 13), True
        eat, nat = full(rng, rng.choice([0, -300]), 600, cap=(1, 700))
    else:
        eat, nat = full(rng, rng.choice([0, 0, -5]), 9, cap=rng.choice([(2, 6), (3, 6), (3, 12)] if wide else
                                                                       [(0, 1), (1, 3), (0, 6), (0, 6), (2, 20)]))
    b = B(rng, ops, 0, kindof(rng, 'D'), n, eat, nat)
    b.n = n
    if wide:
        V = rng.sample(range(1, n + 1), n)
        q, back = rng.choice([1, 1, 0.9] if rich else [1, 1, 0.8, 0.6]), rng.choice([0, 0, 0.2, 0.5])
        E = [(V[i], V[j]) if rng.random() >= back else (V[j], V[i])
             for i in range(n) for j in range(i + 1, n) if j == i + 1 or rng.random() < q]
    else:
        E = flownet(rng, n)
    have = set(E)
    V = list(range(1, n + 1))
    rng.shuffle(V)
    while not connected(b, have, V):
        a, c = rng.choice(V), rng.choice(V)
        if a != c and (c, a) not in have:
            have.add((a, c))
    # demands are set afterwards
    b.nat = lambda: [[DEM, 0]] + ([[NOTE, 3]] if rng.random() < 0.3 else [])
    b.build(n, sorted(have), allnodes=rng.random() < 0.5, detour=0)
    s['k'] = n + 1
    for v in list(b.N):
        if b.N[v].get(DEM, NA) == NA:
            b.setnode(v, DEM, 0)
    for rnd in range(1 if rich else rng.randint(1, 3)):
        if rnd and rng.random() < 0.6:
            netedit(b, rng, True)
        if rnd == 0 or rng.random() < 0.5:
            r = rng.random()
            N = sorted(b.N)
            if r < 0.62 or rich:
                d = {v: 0 for v in N}
                for (a, c), x in b.E.items():
                    f = rng.choice([rng.randint(0, x[CAP])] if wide else [0, 0, x[CAP], rng.randint(0, x[CAP])])
                    d[a] += f
                    d[c] -= f
            else:
                d = {v: rng.choice([0, 0, rng.randint(-4, 4)]) for v in N}
                if r < 0.85:
                    d[rng.choice(N)] -= sum(d.values())
            for v in N:
                if b.N[v].get(DEM) != d[v]:
                    b.setnode(v, DEM, d[v])
        if rng.random() < 0.25:
            noise(b, rng, 1, ['search', 'strong', 'maxflow', 'residual', 'bfs', 'degrees', 'dfs', 'mcf', 'fifo', 'fw'])
        algo = 'cycle_canceling' if prop == 'C13' else 'simplex'
        p = mincostp(b, rng, algo)
        if prop == 'C13' and rng.random() < 0.15:
            p['how'] = 2
        b.alg('mincost', **p)
        if rng.random() < 0.3:
            b.alg('mincost', **mincostp(b, rng, algo))
    s['ops'] = ops
    return s


def g_fw(rng, sid, prop, tier):
    def call(b):
        b.alg('negcycle' if rng.random() < 0.25 else 'fw')
    lo = rng.choice([0, 0, -1, -2, -5])
    return session(rng, sid, call, t='D', lo=lo, calls=(2, 5), dense=rng.choice([None, 0.2, 0.3]), empty=True)


def g_fifo(rng, sid, prop, tier):
    def call(b):
        b.alg('fifo', src=b.anynode())
    lo = rng.choice([0, -1, -2, -5])
    return session(rng, sid, call, t='D', lo=lo, calls=(3, 6), big=True, dense=rng.choice([None, 0.2, 0.3]), huge=32)


def g_acyclic(rng, sid, prop, tier):
    s = base(rng, sid)
    n = size(rng, True)
    ops = []
    eat, nat = full(rng, rng.choice([0, -6]), 9)
    b = B(rng, ops, 0, kindof(rng, 'D'), n, eat, nat)
    b.n = n
    V = list(range(1, n + 1))
    rng.shuffle(V)
    rank = {v: i for i, v in enumerate(V)}
    E = uniq([(a, c) if rank[a] < rank[c] else (c, a) for a, c in family(rng, n, 'D')], 'D')
    b.build(n, E)
    s['k'] = n
    for _ in range(rng.randint(4, 8)):
        if rng.random() < 0.35:
            noise(b, rng, 1)
        r = rng.random()
        if r < 0.2 and b.E:
            e = b.anyedge()
            b.setedge(e[0], e[1], COST, b.eat()[0][1])
        elif r < 0.35 and b.E:
            b.deledge(*b.anyedge())
        elif r < 0.6 and n > 1:
            a, c = rng.sample(V, 2)
            if rank[a] > rank[c]:
                a, c = c, a
            if not b.has(a, c):
                b.edge(a, c)
        if not b.N:
            b.node(1)
        b.alg('acyclic', src=b.anynode(), dst=0 if rng.random() < 0.5 else b.anynode())
    s['ops'] = ops
    return s


def g_pagerank(rng, sid, prop, tier):
    def call(b):
        d = rng.choice([85, 85, 50, 20, 95, 0])
        r = rng.random()
        if r < 0.7:
            b.alg('pagerank', d=d, iter=2000, delta=1e-12, exact=1, explicit=rng.randrange(2), tol=0)
        elif r < 0.8:           # all defaults
            b.alg('pagerank', d=85, iter=0, delta=1e-5, exact=0, tol=10)
        else:                   # stopped by the tolerance
            e = rng.choice([1, 2, 3, 4])
            b.alg('pagerank', d=d, iter=2000, delta=10.0**-e, exact=0, explicit=rng.randrange(2), tol=10**(6 - e))
    return session(rng, sid, call, t='D', calls=(3, 6), big=True, empty=True)


def hampairs(rng, n, t):
    """graphs in which the search goes astray"""
    V = rng.sample(range(1, n + 1), n)
    kind = rng.choice(['planted', 'planted', 'planted', 'grid', 'blocks', 'legs', 'bipartite'])
    if kind == 'planted':
        E = list(zip(V, V[1:])) + [(a, b) for a in V for b in V if a != b and rng.random() < rng.choice([0.1, 0.2, 0.3])]
    elif kind == 'grid':
        E = [(V[i], V[j]) for i in range(n) for j in range(i + 1, n)
             if (j == i + 1 and j % 3) or j == i + 3]
    elif kind == 'blocks':
        k = rng.randint(2, n - 2)
        E = [(a, b) for H in (V[:k + 1], V[k:]) for a in H for b in H if a < b and rng.random() < 0.9]
    elif kind == 'legs':
        k = n - rng.randint(1, 3)
        E = [(a, b) for a in V[:k] for b in V[:k] if a < b and rng.random() < 0.7] + [(rng.choice(V[:k]), v) for v in V[k:]]
    else:
        k = n // 2
        E = [(a, b) for a in V[:k] for b in V[k:] if rng.random() < 0.8]
    if t == 'D' and kind != 'planted':
        E = [e for a, b in E for e in ([(a, b), (b, a)] if rng.random() < 0.7 else [(a, b)] if rng.random() < 0.5 else [(b, a)])]
    return uniq(E, t)


def g_bigham(rng, sid):
    s = base(rng, sid)
    n = rng.choice([6, 7, 7, 8, 8, 9])
    ops = []
    b = B(rng, ops, 0, kindof(rng), n, *full(rng))
    b.n = s['k'] = n
    b.build(n, hampairs(rng, n, b.t), allnodes=True)
    for _ in range(rng.randint(2, 4)):
        b.alg('ham', src=b.anynode(), dst=rng.choice([0, 0, b.anynode()]), **{'pass': 1 if rng.random() < 0.8 else 0})
        if rng.random() < 0.3:
            edit(b, rng, n)
        if not b.N:
            b.node(1)
    s['ops'] = ops
    return s


def g_ham(rng, sid, prop, tier):
    if rng.random() < 0.25:
        return g_bigham(rng, sid)

    def call(b):
        b.alg('ham', src=b.anynode(), dst=rng.choice([0, b.anynode()]), **{'pass': 1 if rng.random() < 0.8 else 0})
    return session(rng, sid, call, calls=(3, 7), sizes=lambda r: r.choice([1, 2, 3, 4, 4, 5, 5, 6, 6]), noisep=0.2,
                   dense=rng.choice([None, 0.3, 0.4]))


def g_residual(rng, sid, prop, tier):
    s = base(rng, sid)
    n = max(2, size(rng, True))
    ops = []
    eat, nat = full(rng, -4, 9, cap=rng.choice([(0, 3), (1, 6), (0, 12)]))
    b = B(rng, ops, 0, kindof(rng, 'D'), n, eat, nat)
    b.n = n
    anti = rng.random() < 0.15          # antiparallel arcs and loops: what is defined for these as well
    b.build(n, family(rng, n, 'D', rng.choice([0.3, 0.5, 0.8])) if anti else
            flownet(rng, n, rng.choice([None, 0.4, 0.6])))
    s['k'] = n

    def newflow():
        b.alg('setflow', flow=[[a, c, rng.choice([0, x[CAP], rng.randint(0, x[CAP])])] for (a, c), x in sorted(b.E.items())])
    newflow()
    for _ in range(rng.randint(4, 8)):
        r = rng.random()
        if r < 0.15:
            netedit(b, rng)
            newflow()
        elif r < 0.25:
            newflow()
        elif r < 0.32 and len(b.N) > 1:
            st = rng.sample(sorted(b.N), 2)
            b.alg('maxflow', s=st[0], t=st[1], algo='aug', rule='BFS')
        if not b.N:
            b.node(1)
        r = 0.4 + rng.random() * 0.22 if anti else rng.random()
        if r < 0.4:
            b.alg('residual')
        elif r < 0.5:
            b.alg('basis')
        elif r < 0.62:
            b.alg('cyclecap')
        else:
            b.alg('augment', full=rng.choice([0, 0, 0, 1, 1, 1, 2, 3]))
    s['ops'] = ops
    return s


def g_all(rng, sid, prop, tier):
    """C28: every method on one graph, with everything observed after each"""
    if rng.random() < 0.45:
        s = g_mincost(rng, sid, rng.choice(['C13', 'C14']), tier)
        return s
    t = rng.choice('DU')
    lo = rng.choice([0, 0, -2])

    def call(b):
        noise(b, rng, rng.randint(1, 3))
    s = session(rng, sid, call, t=t, lo=lo, calls=(4, 8), noisep=0.0, editp=0.25, loop=0.15)
    s['others'] = 0.5
    return s


def g_flowall(rng, sid, prop, tier):
    r = rng.random()
    if r < 0.3:
        return g_maxflow(rng, sid, rng.choice(['C11', 'C12']), tier)
    if r < 0.4:
        return g_residual(rng, sid, 'C29', tier)
    if r < 0.5:
        return g_acyclic(rng, sid, 'C17', tier)
    return g_all(rng, sid, prop, tier)


def g_reject(rng, sid, prop, tier):
    if rng.random() < 0.85:
        return adt(rng, sid, prop, tier)
    return g_fw(rng, sid, 'C15', tier)


def g_deg(rng, sid, prop, tier):
    if rng.random() < 0.5:
        return adt(rng, sid, prop, tier)

    def call(b):
        b.alg(rng.choice(['degrees', 'in_degrees', 'out_degrees'] if b.t == 'D' else ['degrees', 'diameter', 'diameter', 'diameter'] if b.N else ['degrees']))
    return session(rng, sid, call, big=True, calls=(5, 9), editp=0.6, noisep=0.25, empty=True, huge=26)


GRAPH = {'C01': adt, 'C02': g_reject, 'C03': adt, 'C04': g_search, 'C05': g_search, 'C06': g_search, 'C07': g_mst,
         'C08': g_components, 'C09': g_strong, 'C10': g_dfs, 'C11': g_maxflow, 'C12': g_maxflow, 'C13': g_mincost,
         'C14': g_mincost, 'C15': g_fw, 'C16': g_fifo, 'C17': g_acyclic, 'C24': g_deg, 'C25': g_pagerank,
         'C26': g_ham, 'C28': g_flowall, 'C29': g_residual}


# ----------------------------------------------------------------------------- disjoint sets
def unions(rng, items):
    """joins of sets of nearly the same size: the way to long links in small sets"""
    n = len(items)
    if n == 1:
        return []
    if n <= 6 and rng.random() < 0.35:
        return [(items[0], x) for x in items[1:]]
    k = min(n - 1, max(1, round(n * rng.choice([0.5, 0.5, 0.55, 0.6, 0.65]))))
    if rng.random() < 0.25:
        k = n - k
    a, b = items[:k], items[k:]
    return unions(rng, a) + unions(rng, b) + [(a[0], b[0]) if rng.random() < 0.8 else (b[0], a[0])]


def dset(rng, sid, prop, tier):
    k = rng.choice([2, 4, 6, 8, 10, 14]) if rng.random() < 0.8 else 24
    s = base(rng, sid, kind='dset', k=k, style=rng.choice(NUMSTYLES))
    s['ops'] = ops = [['new', int(rng.random() < 0.7)]]
    items, todo = [], list(range(1, k + 1))
    rng.shuffle(todo)
    first = rng.random() < 0.5      # everything is added first, one by one
    single = rng.random() < 0.6
    fav = None
    if rng.random() < 0.3:
        # representatives only, so that links become as long as they can
        s['k'] = k = rng.randint(6, 20)
        ops += [['add', [x]] for x in rng.sample(range(1, k + 1), k)]
        if rng.random() < 0.7:
            s['k'] = k = rng.choice([7, 15, 15, 15, 30, 31, 31, rng.randint(6, 30)])
            ops[1:] = [['add', [x]] for x in rng.sample(range(1, k + 1), k)]
            ops += [['unionroots', 0, a, b] for a, b in unions(rng, rng.sample(range(1, k + 1), k))]
            return s
        ops += [['unionroots', int(rng.random() < 0.5)] for _ in range(rng.randint(k // 2, k - 1))]
        ops.append(['findall', rng.sample(range(1, k + 1), k)])
        return s
    for _ in range(rng.randint(k, 3 * k) + 2):
        if todo and (first or not items or rng.random() < 0.3):
            m = 1 if single or rng.random() < 0.4 else rng.randint(1, min(5, len(todo)))
            l, todo = todo[:m], todo[m:]
            ops.append(['add', l])
            items += l
            continue
        first = False
        r = rng.random()
        if r < 0.55:
            a, b = rng.choice(items), rng.choice(items)
            if fav and rng.random() < 0.5:
                a = fav
            if rng.random() < 0.5:
                a, b = b, a
            ops.append(['union', a, b])
            fav = rng.choice([None, a, b])
        elif r < 0.85:
            ops.append(['find', rng.choice(items)])
        else:
            ops.append(['findall', rng.sample(items, rng.randint(1, len(items)))])
    ops.append(['findall', rng.sample(items, len(items))])
    return s


GRAPH['C18'] = dset


# ----------------------------------------------------------------------------- trees
class TreeModel:
    def __init__(self, k):
        self.k, self.root, self.par, self.side = k, 0, {}, {}

    def kids(self, p, s=None):
        return [n for n in self.par if self.par[n] == p and s in (None, self.side[n])]

    def leaves(self):
        return [n for n in self.par if not self.kids(n) and (self.k == 'B' or n != self.root)]

    def op(self, o):
        """applies what succeeds"""
        if o[0] == 'add_root':
            self.root = o[1]
            self.par[o[1]], self.side[o[1]] = 0, '-'
        elif o[0] == 'add_child':
            n, p, x = o[1:4]
            if n in self.par or p not in self.par or (x != '-' and self.kids(p, x)):
                return
            self.par[n], self.side[n] = p, x
        elif o[0] == 'del_leaf' and o[1] in self.par:
            del self.par[o[1]], self.side[o[1]]
            if o[1] == self.root:
                self.root = 0


def tree_step(rng, m, K, wrong):
    if not m.par:
        return ['add_root', rng.randint(1, K)]
    free = [n for n in range(1, K + 1) if n not in m.par]
    side = lambda: rng.choice('LR') if m.k == 'B' else '-'      # noqa: E731
    if rng.random() < wrong:
        r = rng.random()
        if r < 0.35:
            n, p = rng.choice(list(m.par)), rng.choice(list(m.par))
        elif r < 0.6 and free:
            n, p = rng.choice(free), rng.choice(free)
        elif r < 0.7 and free:
            return ['del_leaf', rng.choice(free)]
        elif m.k == 'B' and free:
            c = rng.choice([x for x in m.par if m.par[x]] or [0])
            if not c:
                return ['add_child', m.root, m.root, side()]
            return ['add_child', rng.choice(free), m.par[c], m.side[c]]
        else:
            n, p = m.root, rng.choice(list(m.par))
        return ['add_child', n, p, side()]
    lv = m.leaves()
    if lv and (rng.random() < 0.25 or not free):
        return ['del_leaf', rng.choice(lv)]
    if not free:
        return ['add_child', rng.choice(list(m.par)), rng.choice(list(m.par)), side()]
    p = rng.choice(list(m.par))
    if rng.random() < 0.4:
        p = max(m.par, key=lambda n: (m.side[n] != '-', n))
    return ['add_child', rng.choice(free), p, side()]


def treeattrs(rng, o):
    if o[0] in ('add_root', 'add_child') and rng.random() < 0.3:
        o = o + [[[rng.randint(1, 6), rng.randint(1, 8)]]]
    return o


def tree(rng, sid, prop, tier):
    k = rng.choice('TBBB')
    K = rng.choice([2, 3, 5, 7, 9]) if rng.random() < 0.95 else rng.randint(12, 24)
    s = base(rng, sid, kind='tree', k=K, style=rng.choice(NUMSTYLES), attrs=rng.choice(POOLS[:4]))
    m = TreeModel(k)
    s['ops'] = ops = [['new', k]]
    for _ in range(rng.randint(6, 26 + 2 * K * (K > 9))):
        o = tree_step(rng, m, K, 0.2)
        m.op(o)
        ops.append(treeattrs(rng, o))
    return s


def traverse_op(rng, m):
    root = rng.choice([0, 0] + list(m.par))
    first = rng.choice('LLR')
    mode = rng.choice([None, None, 'file', 'matplotlib'])
    if m.k == 'B' and rng.random() < 0.45:
        return ['print_nodes', rng.choice(['pre', 'in', 'post']), root, first, mode]
    how = rng.choice(['dfs', 'bfs'])
    return ['traverse', how, root, first, rng.choice([0, 0, 1, 2]), mode]


def traversal(rng, sid, prop, tier):
    k = rng.choice('TBBB')
    K = rng.choice([2, 4, 6, 9, 12]) if rng.random() < 0.95 else rng.randint(16, 30)
    s = base(rng, sid, kind='tree', k=K, style=rng.choice(NUMSTYLES), display='file')
    m = TreeModel(k)
    s['ops'] = ops = [['new', k]]
    for r in range(rng.randint(1, 4)):
        for _ in range(rng.randint(1, 2 * K)):
            o = tree_step(rng, m, K, 0.05)
            m.op(o)
            ops.append(o)
        for _ in range(rng.randint(2, 4)):
            if m.par:
                ops.append(traverse_op(rng, m))
    return s


# ----------------------------------------------------------------------------- expressions
def expression(rng, depth):
    if depth == 0 or rng.random() < 0.15:
        return ['n', rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 12, -1, -2, -5])]
    return [rng.choice('+-*/'), expression(rng, depth - 1), expression(rng, depth - 1)]


def evaluate(e, seen):
    """raises ZeroDivisionError; seen collects the values (to keep TLC's numbers small)"""
    if e[0] == 'n':
        v = Fraction(e[1])
    else:
        a, b = evaluate(e[1], seen), evaluate(e[2], seen)
        v = a + b if e[0] == '+' else a - b if e[0] == '-' else a * b if e[0] == '*' else a / b
    seen.append(v)
    return v


def defined(e):
    seen = []
    try:
        evaluate(e, seen)
    except ZeroDivisionError:
        return False
    return all(abs(v.numerator) < 20000 and v.denominator < 20000 for v in seen)


def positions(e, p=()):
    yield p
    if e[0] != 'n':
        yield from positions(e[1], p + (2,))
        yield from positions(e[2], p + (3,))


def sub(e, p):
    for i in p:
        e = e[i - 1]
    return e


def expr_ops(rng, e):
    P = list(positions(e))
    order, todo = [()], [p for p in P if p]
    while todo:         # parents first, otherwise any order
        ok = [p for p in todo if p[:-1] in order]
        p = rng.choice(ok)
        todo.remove(p)
        order.append(p)
    kinds = rng.choice([['label'], ['name'], ['int label'], ['int name'], ['label', 'name', 'int label', 'int name']])
    return ['expr', e, [list(p) for p in order], [[list(p), rng.choice(kinds)] for p in P]]


def expr(rng, sid, prop, tier):
    while True:
        e = expression(rng, rng.choice([1, 2, 2, 3, 3, 4]))
        if defined(e):
            break
    s = base(rng, sid, kind='tree', k=64, style=rng.choice(['tuple', 'tup3', 'fset', 'long', 'odd', 'str', 'mixed']))
    s['ops'] = ops = [expr_ops(rng, e)]
    e = json.loads(json.dumps(e))
    for _ in range(rng.randint(2, 6)):
        P = list(positions(e))
        r = rng.random()
        mode = rng.choice([None, None, None, 'file'])
        if r < 0.45:
            ops.append(['eval', list(rng.choice(P + [()] * len(P))), mode])
        elif r < 0.7:
            ops.append(['printexp', list(rng.choice(P + [()] * len(P))), mode])
        else:
            p = rng.choice([q for q in P if sub(e, q)[0] == 'n'])
            old = sub(e, p)[1]
            for _ in range(5):
                v = rng.choice([0, 1, 2, 3, -1, 6])
                sub(e, p)[1] = v
                if defined(e):
                    ops.append(['put', None, list(p), v, rng.randrange(2)])
                    ops.append(['eval', [], mode])
                    break
                sub(e, p)[1] = old
    return s


GRAPH['C19'] = tree
GRAPH['C20'] = traversal
GRAPH['C21'] = expr


# ----------------------------------------------------------------------------- DOT texts and clusters
WORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict', 'cluster', 'name', 'label', 'a', 'x', 'None', 'True', 'inf']
BITS = ['a', 'Z', '_', '0', '7', '42', '.', '-', ' ', '  ', '"', "'", '<', '>', '{', '}', '[', ']', ';', ',', '=', ':', '->', '--',
        '#', '//', '/*', '&', '%', '$', '@', '+', '\t', '\u00e9', '\u00c4', '\u4e2d', '\U0001f600', '\u00a0', '\u0391', '|', '(', ')', '*',
        '!', '?', '^', '~', '`', '\x7f', '\u0663', '\u00aa']


def case(rng, w):
    r = rng.randrange(5)
    return w if r < 2 else w.upper() if r == 2 else w.capitalize() if r == 3 else ''.join(rng.choice([c, c.upper()]) for c in w)


def text(rng, value=False):
    """a string that may need quotes; not one that is already in quotes or angle brackets, unless simple and a value"""
    r = rng.random()
    if r < 0.12:
        s = case(rng, rng.choice(WORDS))
    elif r < 0.2:
        s = case(rng, rng.choice(WORDS)) + rng.choice(BITS) if rng.random() < 0.5 else rng.choice(BITS) + case(rng, rng.choice(WORDS))
    elif r < 0.3:
        s = rng.choice(['0', '007', '12', '-3', '1.5', '.5', '2.', '-.5', '1e5', '1a', '3 4', '--', '1.2.3', '+1', '0x1', '1_0', '\u0663\u0664', '12\u00b2'])
    elif r < 0.34:
        s = ''
    elif r < 0.4 and value:
        return rng.choice(['<b>', '<<b>x</b>>', '"q"', '"a b"', '<>', '""', '<a<b>c>', '"Node"', '"<"'])
    elif r < 0.55:
        s = ''.join(rng.choice('abcxyz') for _ in range(rng.randint(1, 4)))
    else:
        s = ''.join(rng.choice(BITS) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])))
    if len(s) > 1 and (s[0], s[-1]) in (('<', '>'), ('"', '"')):
        s = 'x' + s
    return s


def plainval(rng):
    r = rng.random()
    if r < 0.15:
        return rng.choice([0, 1, -3, 17, 10**9])
    if r < 0.27:
        return rng.choice([0.5, -2.25, 1e-07, 3.0, 1e20])
    if r < 0.33:
        return rng.choice([True, False])
    if r < 0.36:
        return [1, 'a']
    return text(rng, True)


def distinct(rng, make, n, have=(), key=str):
    out, seen = list(have), set(key(x) for x in have)
    while len(out) < n:
        x = make(rng)
        if key(x) not in seen:
            seen.add(key(x))
            out.append(x)
    return out


def pystr(x):
    return str(tuple(x)) if isinstance(x, list) else str(x)


def nodename(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, 1, 2, 3, 10, -1, 70000])
    if r < 0.3:
        return rng.choice([0.5, -1.5, 2.25])
    if r < 0.36:
        return rng.choice([[1, 2], ['a', 1], [0, 'x y'], ['p']])
    return text(rng)


GZ = ['label', 'rankdir', 'size', 'bgcolor', 'splines', 'fontsize', 'ratio', 'rank', 'comment', 'K', 'layout', 'sep', 'overlap', 'center']
NOTGZ = ['foo', 'color', 'shape', 'mykey', 'pos_x', 'level', 'weight']
CKEYS = ['label', 'color', 'style', 'bgcolor', 'fontsize', 'pencolor']


def dotbase(rng, sid, names, keys, values, gz, cnames=()):
    return {'sid': sid, 'kind': 'dot', 'seed': rng.randrange(10**6), 'names': names, 'keys': keys, 'values': values, 'gz': gz,
            'cnames': list(cnames), 'ops': []}


class DotModel:
    """what a session has done so far, to choose sensible steps"""

    def __init__(self):
        self.N, self.E, self.cl, self.t, self.used = {}, {}, {}, {}, {}


ALGS = {'D': ['bfs', 'deep', 'path', 'dfs', 'strong', 'tarjan', 'preflow', 'flow', 'fw', 'weigh', 'weigh'],
        'U': ['bfs', 'deep', 'path', 'label', 'prim', 'kruskal', 'weigh', 'weigh'], 'T': ['bfs', 'walk', 'weigh', 'strong'], 'B': ['walk', 'bfs', 'weigh', 'strong']}


def dot(rng, sid, prop, tier):
    clusters = prop == 'C23' or rng.random() < 0.15
    hard = prop == 'C22' or rng.random() < 0.3
    n = rng.choice([1, 2, 3, 4, 6, 8]) if rng.random() < 0.96 else rng.randint(10, 14)
    names = distinct(rng, nodename, n, key=pystr) if hard else [STRN[i] for i in rng.sample(range(len(STRN)), n)] if rng.random() < 0.6 else list(range(n))
    # keys 1..3: used for clusters (identifiers), 4..8: graphs and nodes, 9..12: anything
    ck = rng.sample(CKEYS, 3)
    gk = rng.sample([k for k in GZ if k not in ck], 3) + rng.sample([k for k in NOTGZ if k not in ck], 2)
    if 'layout' not in gk and rng.random() < 0.4:
        gk[0] = 'layout'
    keys = distinct(rng, lambda r: text(r) or 'k', 12, ck + gk) if hard else ck + gk + ['w1', 'w2', 'w3', 'w4']
    gz = [i for i, k in enumerate(keys, 1) if k in GZ or k in ('label', 'bgcolor', 'fontsize') and i <= 3]
    values = [plainval(rng) for _ in range(12)] if hard else ['red', 'blue', 1, 'two words', '', 0, 'filled', '12', 'x', 'node', 2.5, 'a"b']
    values += ['dot', 'neato']
    cnames = distinct(rng, lambda r: (text(r) or 'k') if hard else r.choice(['left', 'right', 'c0', 'c1', 'c2', 'the north', 'c', 7, 'c10']), 4)
    s = dotbase(rng, sid, names, keys, values, gz, cnames)
    ops = s['ops']
    lay = [i for i, k in enumerate(keys, 1) if k == 'layout']
    graphs = rng.choice([1, 1, 2, 3])
    trees = rng.random() < 0.15
    algs = rng.random() < 0.3
    M = DotModel()
    at = lambda ks, p=0.5: [[k, rng.randint(1, 12)] for k in ks if rng.random() < p]        # noqa: E731
    for g in range(graphs):
        M.t[g] = rng.choice('TB' if trees else 'DU')
        ga = []
        for k in range(1, 9):
            if k not in lay and rng.random() < 0.3:
                ga.append([k, NA if rng.random() < 0.15 and k in gz else rng.randint(1, 12)])
        if lay and rng.random() < 0.3:
            ga.append([lay[0], rng.choice([13, 14])])
        ops.append(['new', g, M.t[g], rng.choice([None, None, text(rng), 'net', 5, 0]), ga])
        M.N[g], M.E[g], M.cl[g], M.used[g] = set(), set(), [], set()
    fixed = {}
    for k in range(rng.randint(4, 22)):
        g = rng.randrange(graphs)
        N, E, cl = M.N[g], M.E[g], M.cl[g]
        r = rng.random()
        ks = rng.sample(range(1, 13), rng.choice([0, 0, 1, 2, 4]))
        free = [i for i in range(1, n + 1) if i not in N]
        ks = [x for x in ks if not (M.t[g] in 'TB' and keys[x - 1] in ('root', 'n', 'parent'))]
        if algs and N and r > 0.85:
            for w in rng.sample(ALGS[M.t[g]], rng.choice([1, 1, 2])):
                a, b = rng.choice(sorted(N)), rng.choice(sorted(N))
                if w in ('flow', 'preflow') and a == b:
                    continue
                if w in ('flow', 'preflow', 'path', 'fw', 'prim', 'kruskal'):
                    ops.append(['alg', g, 'weigh', a, b])
                ops.append(['alg', g, w, a, b])
        elif M.t[g] in 'TB' and r < 0.6:
            if not N:
                a = rng.choice(free)
                ops.append(['root', g, a, at(ks, 0.8)])
                N.add(a)
            elif free:
                a, b = rng.choice(free), rng.choice(sorted(N))
                side = '' if M.t[g] == 'T' else rng.choice('LR')
                if side and (b, side) in E:
                    continue
                ops.append(['child', g, a, b, side, at(ks, 0.8)])
                N.add(a)
                E.add((b, side or a))
        elif M.t[g] in 'TB' and (r < 0.66 or 0.72 < r < 0.77):
            pass
        elif r < 0.28 and free:
            a = rng.choice(free)
            ops.append(['add_node', g, a, at(ks, 0.8)])
            N.add(a)
        elif r < 0.55 and (N or free):
            a, b = rng.randint(1, n), rng.randint(1, n)
            if not hard and a == b:
                continue
            ky = (min(a, b), max(a, b)) if M.t[g] == 'U' else (a, b)
            if ky in E:
                continue
            ops.append(['add_edge', g, a, b, at(ks, 0.8)])
            E.add(ky)
            N.update((a, b))
        elif r < 0.62 and N:
            a = rng.choice(sorted(N))
            if clusters and rng.random() < 0.6:
                inc = [x for c in cl for x in c]
                a = rng.choice(inc) if inc else a
            ops.append(['del_node', g, a])
            N.discard(a)
            M.E[g] = {e for e in E if a not in e}
            for c in cl:
                c.discard(a)
            if rng.random() < 0.5:
                ops.append(['add_node', g, a, []])
                N.add(a)
        elif r < 0.66 and E:
            e = rng.choice(sorted(E))
            ops.append(['del_edge', g] + (list(e) if M.t[g] == 'D' or rng.random() < 0.5 else [e[1], e[0]]))
            E.discard(e)
        elif r < 0.72 and N:
            ops.append(['set_node', g, rng.choice(sorted(N)), rng.randint(1, 12), rng.randint(1, 12)])
        elif r < 0.77 and E:
            e = rng.choice(sorted(E))
            ops.append(['set_edge', g, e[0], e[1], rng.randint(1, 12), rng.randint(1, 12)])
        elif r < 0.79 and lay:
            ops.append(['set_layout', g, lay[0], rng.choice([13, 14])])
        elif clusters and r < 0.92:
            rest = sorted(N - {x for c in cl for x in c})
            if not rest and rng.random() < 0.8:
                continue
            m = rng.sample(rest, rng.randint(0 if rng.random() < 0.1 else min(1, len(rest)), len(rest)))
            if rng.random() < 0.3 and g in fixed:
                m = [x for x in fixed[g] if x in rest]
            ca, na = at([1, 2, 3], 0.4), at([1, 2, 3], 0.35)
            if rng.random() < 0.35 and 'same' in fixed:
                ca, na = fixed['same']
            fixed['same'] = (ca, na)
            cn = 0
            if rng.random() < 0.35:
                # a name like c0 only before a name was generated: which one that is is not prescribed
                ok = [i for i, c in enumerate(cnames, 1) if 0 not in M.used[g] or not (isinstance(c, str) and c[:1] == 'c' and c[1:].isdigit())]
                dup = [i for i in M.used[g] if i]
                cn = rng.choice(ok) if ok else 0
                if dup and rng.random() < 0.4:
                    cn = rng.choice(dup)
            ops.append(['cluster', g, m, ca, na, cn, rng.choice([0, 0, 1, 1, 2])])
            if not (cn and cn in M.used[g]):
                cl.append(set(m))
            M.used[g].add(cn)
            for h in range(graphs):
                fixed.setdefault(h, m)
            if rng.random() < 0.5:
                ops.append(['render', g, rng.randrange(4)])
        else:
            ops.append(['render', g, rng.choice([0, 0, 0, 1, 2, 3])])
    for g in range(graphs):
        ops.append(['render', g, rng.choice([0, 0, 0, 1, 2, 3])])
    return s


STRN = ['a', 'b', 'c', 'd', 'e f', 'n1', 'n2', 'n10', 'node', 'x', 'y', 'cluster', '1', '2']
GRAPH['C22'] = dot
GRAPH['C23'] = dot


# ----------------------------------------------------------------------------- random graphs
def rparams(rng, **kw):
    t = rng.choice('DU')
    mode = rng.choice(['degree', 'density'])
    N = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10]) if rng.random() < 0.97 else rng.randint(11, 30)
    if mode == 'degree':
        N = max(N, 2)
    lo = rng.choice([0, 0, 1, 1, 2, 2, 3])
    lr = rng.choice([[], [1, 10], [1, 10], [5, 5], [-3, 4], [0, 100]])
    q = {'N': N, 't': t, 'mode': mode, 'lo': lo, 'hi': lo + rng.choice([0, 0, 1, 2, 5]), 'd': rng.choice([0, 100, 100, 20, 50, 90]),
         'par': int(t == 'D' and rng.random() < 0.4), 'eu': int(rng.random() < 0.4), 'lr': lr, 'lab': int(rng.random() < 0.6),
         'sel': rng.choice(['closest', 'random']), 'sc': rng.choice([10, 10, 1, 20, 5]), 'scc': rng.choice([5, 5, 1, 2])}
    if q['mode'] == 'degree' and rng.random() < 0.2:
        q['lo'], q['hi'] = 2, 4
    if q['t'] == 'U' and q['mode'] == 'degree':
        q['N'] = min(q['N'], 10)
    q.update(kw)
    return q


def formats(rng):
    r = rng.random()
    if r < 0.3:
        return [None, None]
    return [rng.choice([{}, {'color': 'red'}, {'shape': 'box', 'demand': 3}, {'x': 0, 'note': ''}, None]),
            rng.choice([{}, {'capacity': 7}, {'color': 'blue', 'flow': 0}, {'w': 1.5}, None])]


def randomgraph(rng, sid, prop, tier):
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.25:     # here different seeds hardly give the same graph
            q = rparams(rng, N=10, mode='density', d=50) if rng.random() < 0.5 else rparams(rng, N=10, mode='degree', lo=2, hi=4)
            ops.append(['random', q, rng.sample(range(1000), 5), formats(rng), 1])
        else:
            s = rng.choice([0, 1, 2, 13, 99999, -5, 'seed', 2.5])
            ops.append(['random', rparams(rng), rng.choice([[s, s], [s], [s, 'other', s]]), formats(rng), 0])
    return {'sid': sid, 'kind': 'random', 'seed': rng.randrange(10**6), 'ops': ops}


GRAPH['C27'] = randomgraph


# ----------------------------------------------------------------------------- pictures
SHOWS = {'D': ['BFS', 'DFS', 'Dijkstra', 'path', 'cheapest', 'back', 'bfs', 'dfs', 'ham', 'hamto', 'maxflow', 'maxflowb', 'fifo', 'sap',
               'highest', 'simplex', 'cycle', 'nsimplex'],
         'U': ['BFS', 'DFS', 'Dijkstra', 'Prim', 'path', 'cheapest', 'bfs', 'label', 'dfs', 'ham', 'hamto', 'prim', 'kruskal'],
         'T': ['dfs_t', 'bfs_t', 'traverse_s', 'traverse_q', 'BFS', 'Dijkstra', 'path'],
         'B': ['dfs_t', 'bfs_t', 'traverse_s', 'traverse_q', 'pre', 'in', 'post', 'exp', 'DFS']}
PROGRAMS = ['dot', 'neato', 'fdp', 'circo'] * 4 + ['nosuchprogram', 'failing']


class Pic:
    """a graph under construction in a session that draws"""

    def __init__(self, rng, s, g, t, n):
        self.rng, self.ops, self.g, self.t, self.n = rng, s['ops'], g, t, n
        self.N, self.E, self.sides, self.searched = [], set(), set(), False

    def grow(self):
        rng, g, t = self.rng, self.g, self.t
        free = [i for i in range(1, self.n + 1) if i not in self.N]
        if t in 'TB':
            if not self.N:
                self.root = rng.choice(free)
                self.ops.append(['root', g, self.root, []])
                self.N.append(self.root)
            elif free:
                a, b, side = rng.choice(free), rng.choice(self.N), '' if t == 'T' else rng.choice('LR')
                if (b, side) in self.sides and side:
                    return
                self.ops.append(['child', g, a, b, side, []])
                self.sides.add((b, side))
                self.N.append(a)
                self.E.add((b, a))
        elif free and (not self.N or rng.random() < 0.3):
            a = rng.choice(free)
            self.ops.append(['add_node', g, a, []])
            self.N.append(a)
        else:
            a, b = rng.randint(1, self.n), rng.randint(1, self.n)
            if a == b or (a, b) in self.E or (b, a) in self.E:      # flows want no arcs in both directions
                return
            self.ops.append(['add_edge', g, a, b, []])
            self.E.add((a, b))
            self.N += [x for x in (a, b) if x not in self.N]

    def connect(self):
        """simplex wants a connected network"""
        comp = {x: x for x in self.N}

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        for a, b in self.E:
            comp[find(a)] = find(b)
        for x in self.N:
            r = find(self.N[0])
            if find(x) != r:
                a, b = self.rng.choice([(x, self.N[0]), (self.N[0], x)])
                self.ops.append(['add_edge', self.g, a, b, []])
                self.E.add((a, b))
                comp[find(x)] = r

    def call(self, arg):
        rng = self.rng
        if not self.N:
            return
        w = rng.choice(SHOWS[self.t])
        a, b = rng.choice(self.N), rng.choice(self.N)
        walk = 0
        if w in ('maxflow', 'maxflowb', 'fifo', 'sap', 'highest', 'simplex', 'cycle', 'nsimplex'):
            if a == b:
                return
            if w in ('simplex', 'cycle', 'nsimplex'):
                self.connect()
            self.ops.append(['weigh', self.g, 1])
        elif w in ('Dijkstra', 'Prim', 'prim', 'kruskal', 'cheapest'):
            self.ops.append(['weigh', self.g, 0])
            self.searched = True
        elif w in ('dfs_t', 'bfs_t', 'traverse_s', 'traverse_q', 'pre', 'in', 'post', 'exp'):
            a = rng.choice([0, a]) if w != 'exp' else 0
            if w[:2] not in ('pr', 'in', 'po', 'ex'):
                walk = 0 if self.searched else a or self.root       # a search leaves colors
        else:
            self.searched = True
        self.ops.append(['show', self.g, w, a, b, arg, walk])

    def step(self, x):
        """one step of the owner, as in Display"""
        op, m, h = x['op'], x['m'], x['H']
        if op == 'mode':
            self.ops.append(['mode', self.g, m])
        elif op == 'call':
            self.call(None if m == 'none' else m)
        elif op == 'show':
            self.ops.append(['highlight', self.g, [self.N[i - 1] for i in h if i <= len(self.N)], self.rng.randrange(8)])


def showbase(rng, sid, n):
    names = distinct(rng, nodename, n, key=pystr) if rng.random() < 0.2 else list(range(n)) if rng.random() < 0.5 else rng.sample(STRN, n)
    return {'sid': sid, 'kind': 'show', 'seed': rng.randrange(10**6), 'names': names, 'ops': []}


def show(rng, sid, prop, tier):
    n = rng.choice([1, 2, 3, 4, 5, 6])
    s = showbase(rng, sid, n)
    P = []
    for g in range(rng.choice([1, 1, 2])):
        t = rng.choice('DDUUTB')
        s['ops'].append(['new', g, t, rng.choice([None, 'off', 'file', 'file', 'PIL', 'matplotlib', 'xdot']), rng.choice([None, None] + PROGRAMS)])
        P.append(Pic(rng, s, g, t, n))
        for _ in range(rng.randint(0, 10)):
            P[-1].grow()
    for _ in range(rng.randint(2, 5)):
        p = rng.choice(P)
        r = rng.random()
        if r < 0.55:
            p.call(rng.choice([None, None, 'off', 'off', 'file', 'file', 'PIL', 'matplotlib', 'xdot']))
        elif r < 0.7:
            p.step({'op': 'show', 'm': 'none', 'H': rng.sample(range(1, n + 1), rng.randint(0, min(n, 3)))})
        elif r < 0.78:
            p.step({'op': 'mode', 'm': rng.choice(['off', 'file', 'PIL', 'matplotlib', 'xdot']), 'H': []})
        elif r < 0.84:
            s['ops'].append(['lay', p.g, rng.choice(PROGRAMS)])
        elif r < 0.92:
            s['ops'].append(['write', p.g, rng.choice([None] + PROGRAMS), rng.choice(['png', 'svg', 'ps'])])
        else:
            p.grow()
    return s


GRAPH['C31'] = show


# ----------------------------------------------------------------------------- the same again
def g_twice(rng, sid, prop, tier):
    """C30: sessions of all kinds"""
    return GRAPH[(q := rng.choice(TWICE))](rng, sid, q, tier)


TWICE = [p for p in GRAPH if p not in ('C30', 'C31')] + ['C04', 'C06', 'C28']
GRAPH['C30'] = g_twice


def sessions(prop, count, seed, tier, start=0):
    for i in range(count):
        rng = random.Random('%s/%s/%s' % (prop, seed, start + i))
        yield GRAPH[prop](rng, start + i, prop, tier)
