"""The design models of each property, and how what TLC prints becomes sessions for the driver."""
import json, random

from gen import Pic, PROGRAMS, showbase, dotbase, formats, rparams, expr_ops, NA, COST, CAP, DEM, NUMSTYLES, base


# ------------------------------------------------------------------ what TLC printed
def printed(out, tag):
    for line in out.splitlines():
        if line.startswith('"' + tag):
            yield json.loads(json.loads(line)[len(tag):])


def instances(out):
    return list(printed(out, 'I|'))


def sample(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


# ------------------------------------------------------------------ instances to sessions
def make(rng, inst):
    """the graph of an instance as a 'make' operation; nodes and edges in random order"""
    n = inst['n']
    d = inst.get('d') or []
    V = list(range(1, n + 1))
    rng.shuffle(V)
    E = []
    for a, b, c, u in inst['e']:
        at = ([] if c == NA else [[COST, c]]) + ([] if u == NA else [[CAP, u]])
        if inst['t'] == 'U' and rng.random() < 0.5:
            a, b = b, a
        E.append([a, b, at])
    rng.shuffle(E)
    return ['make', 0, inst['t'], [[v, [[DEM, d[v - 1]]] if d else []] for v in V], E]


def calls(rng, prop, inst):
    """operations that run the real method on the instance"""
    op, p = inst['op'], inst['p']

    def alg(name, **q):
        return ['alg', 0, name, q]
    if op == 'search':
        algo = p['algo']
        if algo == 'BFS':
            algo = rng.choice(['BFS', 'UnweightedSPT'])
        return [alg('search', src=p['src'], dst=p['dst'], algo=algo, rev=p['rev'], explicit=rng.randrange(2),
                    comp=rng.choice([NA, NA, 3]) if algo not in ('Dijkstra', 'Prim') else NA)]
    if op == 'prim':
        return [alg('prim', src=p['src']),
                alg('search', src=p['src'], dst=0, algo='Prim', rev=0, comp=NA, explicit=1)]
    if op == 'kruskal':
        return [alg('kruskal', ds=rng.randrange(3))]
    if op == 'dfs':
        out = [alg('clear', attrs=['component', 'disc_time', 'finish_time'], val=NA)]
        V = list(range(1, inst['n'] + 1))
        rng.shuffle(V)
        o, q, c = rng.randrange(2), rng.randrange(2), rng.choice([NA, 0])
        for i, v in enumerate(V):   # calls from discovered nodes are not judged
            out.append(alg('dfs', root=v, first=int(i == 0), d0=0, f0=1, comp=c, transpose=0, clean=1, counters=1,
                           order=o, pred=q, iffree=1))
        return out
    if op == 'kosaraju':
        return [alg('kosaraju', rot=rng.randrange(4), useorder=rng.randrange(2))]
    if op == 'strong':
        out = [alg('strong', direct=rng.randrange(2))]
        if p['again']:
            now = {(a, b) for a, b, _, _ in inst['e']}
            then = {(a, b) for a, b, _, _ in p['again']}
            todo = [['del_edge', 0, a, b] for a, b in sorted(now - then)] + \
                   [['add_edge', 0, a, b, []] for a, b in sorted(then - now)]
            rng.shuffle(todo)
            out += todo + [alg('strong', direct=rng.randrange(2))]
        return out
    if op == 'label_components':
        out = []
        for v in sorted({x for x in p['left'] if x != NA}):
            out.append(alg('clear', attrs=['component'], val=v, only=[i + 1 for i, x in enumerate(p['left']) if x == v]))
        return out + [alg('label_components')]
    if op == 'maxflow':
        if prop == 'C12':
            return [alg('maxflow', s=p['s'], t=p['t'], algo='preflow', rule=r, explicit=rng.randrange(2))
                    for r in rng.sample(['FIFO', 'SAP', 'HighestLabel'], 3)]
        return [alg('maxflow', s=p['s'], t=p['t'], algo='aug', rule=r, explicit=rng.randrange(2))
                for r in rng.sample(['DFS', 'BFS'], 2)]
    if op == 'mincost':
        if prop == 'C29':
            return [alg('mincost', algo='cycle_canceling', how=2, pivot='', root=0), alg('residual'), alg('basis'),
                    alg('augment', full=rng.randrange(2)), alg('residual'), alg('augment', full=1)]
        if p['algo'] == 'cycle_canceling' and prop != 'C14':
            return [alg('mincost', algo='cycle_canceling', how=rng.choice([0, 0, 1, 2]), pivot='', root=0)]
        return [alg('mincost', algo='simplex', how=rng.randrange(2), pivot=pv, root=rng.randint(1, inst['n']),
                    explicit=rng.randrange(2)) for pv in rng.sample(['dantzig', 'first_eligible'], rng.choice([1, 2]))]
    if op == 'fw':
        return [alg('fw'), alg('negcycle')]
    if op == 'fifo':
        return [alg('fifo', src=p['src'])]
    if op == 'acyclic':
        return [alg('acyclic', src=p['src'], dst=p['dst'])]
    if op == 'ham':
        return [alg('ham', src=p['src'], dst=p['dst'], **{'pass': 1})]
    if op == 'pagerank':
        return [alg('pagerank', d=p['d'], iter=2000, delta=1e-12, exact=1, explicit=1, tol=0)]
    if op == 'degrees':
        if inst['t'] == 'D':
            return [alg('degrees'), alg('in_degrees'), alg('out_degrees')]
        return [alg('degrees')] + ([alg('diameter')] if inst['n'] else [])
    raise Exception('no calls for ' + op)


def replay_instances(prop, quick=1500, thorough=40000, per=6):
    def f(out, tier, rng):
        inst = sample(rng, instances(out), quick if tier == 'quick' else thorough)
        if not inst:
            return []
        rng.shuffle(inst)
        sess = []
        for i in range(0, len(inst), per):
            part = inst[i:i + per]
            s = base(rng, len(sess), style=rng.choice(NUMSTYLES), quiet=True,
                     k=max(1, max(x['n'] for x in part)) + 1, display=None, others=0)
            ops = []
            for x in part:
                ops.append(make(rng, x))
                ops += calls(rng, prop, x)
            s['ops'] = ops
            sess.append(s)
        return [('TraceGraph', sess, len(inst))]
    return f


# ------------------------------------------------------------------ transitions and behaviours of the graph object
def pairs(at):
    return [[x + 1, v] for x, v in enumerate(at) if v != NA]


def mutop(last):
    o = last['op']
    if o in ('del_nodes', 'del_edges'):
        return [o, 0, last['L']]
    if o == 'scribble':
        return [o, 0]
    a, b = last['a'], last.get('b')
    if o == 'add_node':
        return ['add_node', 0, a, pairs(last['at'])]
    if o == 'del_node':
        return ['del_node', 0, a]
    if o == 'add_edge':
        return ['add_edge', 0, a, b, pairs(last['at'])]
    if o == 'del_edge':
        return ['del_edge', 0, a, b]
    if o == 'set_node':
        return ['set_node', 0, a, last['x'], last['v'], (a + last['v']) % 2]
    if o == 'set_edge':
        return ['set_edge', 0, a, b, last['x'], last['v']]
    raise Exception(o)


def adtbase(rng, sid, k):
    return base(rng, sid, k=k, vals='univ', quiet=False, others=0, unit=[1, 1], float=False, display=None)


def replay_transitions(quick=2500, thorough=60000, per=12, degrees=False):
    def f(out, tier, rng):
        T = list(printed(out, 'T|'))
        count = len(T)
        T = sample(rng, T, quick if tier == 'quick' else thorough)
        rng.shuffle(T)
        sess = []
        for i in range(0, len(T), per):
            s = adtbase(rng, len(sess), 4)
            s['ops'] = ops = []
            for (t, N, E), last in T[i:i + per]:
                if t == 'U' and rng.random() < 0.5:
                    E = [[[e[1], e[0]], at] for e, at in E]
                nodes = [[n, pairs(at)] for n, at in N]
                edges = [[e[0], e[1], pairs(at)] for e, at in E]
                rng.shuffle(nodes)
                rng.shuffle(edges)
                ops.append(['make', 0, t, nodes, edges])
                ops.append(mutop(last))
                if degrees:
                    ops += calls(rng, 'C24', {'op': 'degrees', 't': t, 'p': {}, 'n': len(N)})
            sess.append(s)
        return [('TraceGraph', sess, len(T))] if count else []
    return f


def replay_behaviours(quick=300, thorough=6000):
    def f(out, tier, rng):
        seen, sess = set(), []
        for t, hist in printed(out, 'B|'):
            key = json.dumps([t, hist[:-1]])
            if key in seen:
                continue
            seen.add(key)
            s = adtbase(rng, len(sess), 5)
            s['ops'] = [['new', 0, t]] + [mutop(x) for x in hist]
            sess.append(s)
            if len(sess) >= (quick if tier == 'quick' else thorough):
                break
        return [('TraceGraph', sess, len(sess))] if sess else []
    return f


def replay_dset(quick=600, thorough=20000):
    def f(out, tier, rng):
        B = sample(rng, list(printed(out, 'B|')), quick if tier == 'quick' else thorough)
        sess = []
        for opt, hist in B:
            s = base(rng, len(sess), kind='dset', k=max([1] + [x for h in hist for x in h.get('l', [])]), style=rng.choice(NUMSTYLES))
            s['ops'] = [['new', int(opt)]] + [['add', h['l']] if h['op'] == 'add' else ['find', h['x']] if h['op'] == 'find' else
                                              ['union', h['x'], h['y']] for h in hist]
            items = [x for h in hist for x in h.get('l', [])]
            rng.shuffle(items)
            s['ops'].append(['findall', items])
            sess.append(s)
        return [('TraceDSet', sess, len(sess))] if sess else []
    return f


def treeop(h):
    return [h['op'], h['a']] + ([h['b'], h['side']] if h['op'] == 'add_child' else [])


def replay_tree(quick=1200, thorough=20000):
    def f(out, tier, rng):
        sess = []
        for k, hist in sample(rng, list(printed(out, 'B|')), quick if tier == 'quick' else thorough):
            s = base(rng, len(sess), kind='tree', k=5, style=rng.choice(NUMSTYLES))
            s['ops'] = [['new', k]] + [treeop(h) for h in hist]
            sess.append(s)
        return [('TraceTree', sess, len(sess))] if sess else []
    return f


def replay_traversal(quick=800, thorough=8000):
    def f(out, tier, rng):
        sess = []
        for x in sample(rng, instances(out), quick if tier == 'quick' else thorough):
            s = base(rng, len(sess), kind='tree', k=x['n'], style=rng.choice(NUMSTYLES), display='file')
            ops = [['new', x['k']], ['add_root', 1]] + [['add_child', i, x['par'][i - 1], x['side'][i - 1]] for i in range(2, x['n'] + 1)]
            first = 'L' if x['first'] == '-' else x['first']
            for root in (0, rng.randint(1, x['n'])):
                if x['how'] in ('dfs', 'bfs'):
                    ops.append(['traverse', x['how'], root, first, rng.choice([0, 1, 2]), None])
                else:
                    ops.append(['print_nodes', x['how'], root, first, rng.choice([None, 'file'])])
            s['ops'] = ops
            sess.append(s)
        return [('TraceTree', sess, len(sess))] if sess else []
    return f


def replay_expr(quick=900, thorough=20000):
    def f(out, tier, rng):
        sess = []
        for e in sample(rng, instances(out), quick if tier == 'quick' else thorough):
            s = base(rng, len(sess), kind='tree', k=64, style=rng.choice(['tuple', 'tup3', 'fset', 'long', 'odd', 'str', 'mixed']))
            s['ops'] = [expr_ops(rng, e), ['eval', [], None], ['printexp', [], None]]
            sess.append(s)
        return [('TraceTree', sess, len(sess))] if sess else []
    return f


def replay_quote(quick=6000, thorough=60000):
    """strings as names of nodes, of the graph, as keys and as values"""
    def f(out, tier, rng):
        S = [''.join(map(chr, x)) for x in instances(out)]
        wrapped = lambda x: len(x) > 1 and (x[0], x[-1]) in (('<', '>'), ('"', '"'))      # noqa: E731
        S = [x for x in S if not wrapped(x)]
        short = [x for x in S if len(x) <= 2 or x[:4].isalpha()]
        S = short + sample(rng, [x for x in S if x not in set(short)], (quick if tier == 'quick' else thorough))
        rng.shuffle(S)
        sess = []
        for i in range(0, len(S), 12):
            X = S[i:i + 12]
            n = len(X)
            s = dotbase(rng, len(sess), X, X, X, [])
            s['ops'] = [['new', 0, rng.choice('DU'), rng.choice(X), []]]
            perm = lambda: rng.sample(range(1, n + 1), n)       # noqa: E731
            for a, k, v in zip(perm(), perm(), perm()):
                s['ops'].append(['add_node', 0, a, [[k, v]]])
            for a, b, k, v in zip(range(1, n), range(2, n + 1), perm(), perm()):
                s['ops'].append(['add_edge', 0, a, b, [[k, v]]])
            s['ops'].append(['render', 0, rng.randrange(3)])
            sess.append(s)
        return [('TraceDot', sess, len(S))] if sess else []
    return f


def replay_dot(quick=2500, thorough=40000):
    def f(out, tier, rng):
        sess = []
        for t, hist in sample(rng, list(printed(out, 'B|')), quick if tier == 'quick' else thorough):
            s = dotbase(rng, len(sess), ['a', 'a b', 'node'], ['x', 'label'], ['1', '"q', ''], [2])
            ops = s['ops'] = [['new', 0, t, None, []]]
            at = lambda f: [[i, v] for i, v in enumerate(f, 1) if v != NA]      # noqa: E731
            for h in hist:
                o = h['op']
                if o == 'cluster':
                    ops.append(['cluster', 0, h['n'], at(h['at']), at(h['na']), 0, rng.randrange(3)])
                elif o == 'add_node':
                    ops.append([o, 0, h['a'], at(h['at'])])
                elif o == 'add_edge':
                    ops.append([o, 0, h['a'], h['b'], at(h['at'])])
                elif o == 'del_node':
                    ops.append([o, 0, h['a']])
                else:
                    ops.append([o, 0, h['a'], h['b']])
            ops.append(['render', 0, rng.randrange(3)])
            sess.append(s)
        return [('TraceDot', sess, len(sess))] if sess else []
    return f


def replay_random(quick=600, thorough=6000):
    """parameters with every graph that may come out of them; the specification is exact, but for one case"""
    def f(out, tier, rng):
        P, O = {}, {}
        for d in printed(out, 'P|'):
            P[json.dumps(d['p'], sort_keys=True)] = d['count']
        for d in instances(out):
            O.setdefault(json.dumps(d['p'], sort_keys=True), set()).add(json.dumps(sorted(d['e'])))
        for k, n in P.items():
            q = json.loads(k)
            if len(O.get(k, ())) != n and not (q['mode'] == 'density' and q['d'] == 100 and q['t'] == 'D' and not q['par']):
                raise Exception('RandomGraphs!Possible is not exact for %s' % k)
        sess = []
        for k in sorted(P):
            q = json.loads(k)
            for _ in range((quick if tier == 'quick' else thorough) // len(P) + 1):
                z = rparams(rng, eu=0, **dict(q, par=int(q['par'])))
                s = {'sid': len(sess), 'kind': 'random', 'seed': rng.randrange(10**6),
                     'ops': [['random', z, [rng.randrange(10**6)] * rng.choice([1, 1, 2]), formats(rng), 0]]}
                sess.append(s)
        return [('TraceRandom', sess, len(sess))]
    return f


# ------------------------------------------------------------------ the models
def replay_twice(quick=1200, thorough=20000, per=4):
    """behaviours of two graphs: the calls in the order of the behaviour, behaviours one after the other in one process"""
    def f(out, tier, rng):
        inst = sample(rng, list(printed(out, 'B|')), quick if tier == 'quick' else thorough)
        if not inst:
            return []
        sess = []
        for i in range(0, len(inst), per):
            s = base(rng, len(sess), style=rng.choice(NUMSTYLES), quiet=True, k=inst[0]['n'] + 1, display=None, others=1)
            ops = []
            for x in inst[i:i + per]:
                t = rng.choice('DDU')
                for g, e in enumerate(x['e']):
                    if t == 'U':
                        e = [r for r in e if r[0] < r[1] or [r[1], r[0]] not in [y[:2] for y in e]]
                    m = make(rng, {'n': x['n'], 'e': e, 't': t})
                    m[1] = g
                    ops.append(m)
                for c in x['h']:
                    ops.append(['alg', c['g'] - 1, 'search', {
                        'src': c['src'], 'dst': c['dst'], 'algo': rng.choice(['DFS', 'BFS', 'UnweightedSPT']), 'rev': 0,
                        'comp': NA, 'explicit': rng.randrange(2)}])
            s['ops'] = ops
            sess.append(s)
        return [('TraceTwice', sess, len(inst))]
    return f


def replay_show(quick=1500, thorough=15000):
    """what the owner of an object does, with some method for each call"""
    def f(out, tier, rng):
        inst = sample(rng, list(printed(out, 'B|')), quick if tier == 'quick' else thorough)
        sess = []
        for x in inst:
            n = rng.randint(2, 5)
            s = showbase(rng, len(sess), n)
            t = rng.choice('DUTB')
            s['ops'].append(['new', 0, t, x[0]['m'], rng.choice([None] + PROGRAMS)])
            p = Pic(rng, s, 0, t, n)
            for _ in range(rng.randint(n, 2 * n)):
                p.grow()
            for y in x[1:]:
                p.step(y)
            sess.append(s)
        return [('TraceShow', sess, len(sess))]
    return f


def model(name, module, consts, inv, quick=None, props=(), cfgextra='', spec='Spec', **kw):
    c = 'SPECIFICATION %s\nCONSTANTS\n' % spec
    for k, v in consts.items():
        c += '  %s %s\n' % (k, v if str(v).startswith('<-') else '= ' + str(v))
    c += ''.join('INVARIANT %s\n' % i for i in inv.split())
    c += ''.join('PROPERTY %s\n' % i for i in props)
    c += cfgextra
    d = {'name': name, 'module': module, 'cfg': c}
    d.update(kw)
    return d


def cert(part, tier):
    big = tier == 'thorough'
    if part == 'dist':
        return model('certificates of distances and cycles', 'Certificates',
                     {'Sizes': '{0,1,2,3}' if big else '{0,1,2}', 'Part': '"dist"', 'CostSet': '<- CostsB' if big else '<- CostsA', 'CapSet': '{}', 'DemandSet': '{}'},
                     'ReachOK NegOK NegFromOK DistOK HopsOK AcyclicOK HamOK')
    if part == 'mst':
        return model('certificate of minimum forests', 'Certificates',
                     {'Sizes': '{1,2,3,4}' if big else '{1,2,3}', 'Part': '"mst"', 'CostSet': '{0,1}' if big else '{0,1,2}', 'CapSet': '{}', 'DemandSet': '{}'}, 'MstOK')
    if part == 'flow':
        return model('certificates of flows', 'Certificates',
                     {'Sizes': '{1,2,3}', 'Part': '"flow"', 'CostSet': '<- CostsB', 'CapSet': '{0,1,2}' if big else '{0,2}', 'DemandSet': '<- DemandsA'},
                     'MaxFlowOK SatisfiableOK MinCostOK')
    if part == 'dfs':
        return model('certificates of depth-first trees and numberings', 'Certificates',
                     {'Sizes': '{1,2,3,4}' if big else '{1,2,3}', 'Part': '"dfs"', 'CostSet': '{}', 'CapSet': '{}', 'DemandSet': '{}'}, 'DfsTreeOK DfsNumOK')


def adt(tier, prop):
    big = tier == 'thorough'
    inv = 'TypeOK Handshake DiameterOK'
    prp = ['RejectedUnchanged', 'FrameOK']
    view = 'VIEW View\n'
    out = []
    if prop in ('C01', 'C02', 'C24'):
        out.append(model('graph object, structure', 'GraphADT',
                         {'Names': '{1,2,3}', 'AttrNames': '{}', 'AttrVals': '{}', 'Kinds': '{"D","U"}'}, inv, props=prp,
                         cfgextra=view + 'ACTION_CONSTRAINT Emit\n', workers=1,
                         replay=replay_transitions(degrees=prop == 'C24')))
    if prop in ('C01', 'C02', 'C03'):
        out.append(model('graph object, attributes', 'GraphADT',
                         {'Names': '{1,2}', 'AttrNames': '{1}', 'AttrVals': '{7,8}', 'Kinds': '{"D","U"}'}, inv, props=prp,
                         cfgextra=view + 'ACTION_CONSTRAINT Emit\n', workers=1, replay=replay_transitions(quick=1500 if prop != 'C03' else 4000)))
        out.append(model('adjacency lists refine the graph object', 'GraphImpl',
                         {'Names': '{1,2}' , 'AttrNames': '{1}', 'AttrVals': '{7}', 'Kinds': '{"D","U"}'},
                         GI_INV, props=GI_PROP, cfgextra=view))
        if big:
            out.append(model('adjacency lists refine the undirected graph object', 'GraphImpl',
                             {'Names': '{1,2,3}', 'AttrNames': '{}', 'AttrVals': '{}', 'Kinds': '{"U"}'},
                             GI_INV, props=GI_PROP, cfgextra=view, workers=4))
        n, ln = (1500, 40) if big else (60, 24)
        out.append(model('behaviours of the graph object', 'GraphRun',
                         {'Names': '{1,2,3,4}', 'AttrNames': '{1,2}', 'AttrVals': '{3,5,6}', 'Kinds': '{"D","U"}', 'Length': ln},
                         'TypeOK EmitRun', spec='RSpec', workers=1, simulate=(n, ln + 2), replay=replay_behaviours()))
    return out


GI_INV, GI_PROP = 'ViewsAgree', ['Refines']


def models(prop, tier):
    q = tier == 'quick'
    R = replay_instances(prop)
    T = lambda quick, thorough: quick if q else thorough        # noqa: E731

    def search(algos, name):
        w = any(a in ('Dijkstra', 'Prim') for a in algos)
        a = '{' + ','.join('"%s"' % x for x in algos) + '}'
        out = [model('search: ' + name, 'Search',
                     {'Sizes': '{1,2,3}', 'Kinds': '{"D","U"}', 'Algos': a, 'CostSet': '{0,1,3}' if w else '{1}',
                      'Loops': 'FALSE' if w else 'TRUE', 'Sources': '{1}', 'Dests': '{0,2}' if w else '{0,1,2}', 'Revs': '{0,1}'},
                     'Correct LoopInv EmitInst', workers=4, replay=R)]
        if not q:
            out.append(model('search on 4 nodes: ' + name, 'Search',
                             {'Sizes': '{4}', 'Kinds': '{"D","U"}' if not w else '{"U"}', 'Algos': a, 'CostSet': '{0,1,2}' if w else '{1}', 'Loops': 'FALSE',
                              'Sources': '{1}', 'Dests': '{0}', 'Revs': '{0}'}, 'Correct LoopInv EmitInst', workers=6, replay=R, heap='8g'))
        return out
    if prop in ('C01', 'C02', 'C03'):
        return adt(tier, prop)
    if prop == 'C18':
        inv, prp = 'Represents Shallow', ['FindKeeps', 'UnionSays']
        return [model('disjoint set, %s' % o, 'DSetRun', {'Items': '{1,2,3,4}' if q else '{1,2,3,4,5}', 'Optimize': o}, inv, props=prp, spec='RSpec',
                      cfgextra='VIEW View\nACTION_CONSTRAINT EmitRun\n', workers=1, replay=replay_dset()) for o in ('TRUE', 'FALSE')]
    if prop == 'C19':
        return [model('tree object', 'TreeADT', {'Names': '{1,2,3,4}', 'Kinds': '{"T","B"}'}, 'TypeOK OneTree', props=['RejectedUnchanged'],
                      cfgextra='VIEW View\nACTION_CONSTRAINT EmitRun\n', workers=1, replay=replay_tree())] + T([], [
                model('binary trees with 5 names', 'TreeADT', {'Names': '{1,2,3,4,5}', 'Kinds': '{"B"}'}, 'TypeOK OneTree', props=['RejectedUnchanged'],
                      cfgextra='VIEW View\n', workers=4)])
    if prop == 'C20':
        return [model('traversals', 'Traversal', {'Sizes': T('{1,2,3,4}', '{1,2,3,4,5}'), 'Kinds': '{"T","B"}'}, 'Correct Inorder EmitInst', props=['Terminates'],
                      workers=T(2, 6), replay=replay_traversal())]
    if prop == 'C21':
        return [model('expression trees', 'ExprTree', {'Leaves': T('{0,1,3}', '{0,1,2,5}'), 'Depth': '2'}, 'Correct Readable EmitInst', props=['Terminates'],
                      workers=T(2, 6), replay=replay_expr()),
                model('deep expression trees', 'ExprTree', {'Leaves': '{2}', 'Depth': '2'}, 'Correct Readable EmitInst', props=['Terminates'])]
    if prop in ('C22', 'C23'):
        c22 = prop == 'C22'
        out = [model('DOT texts of graphs%s' % (' with clusters' if not c22 else ''), 'DotADT',
                     {'Names': '{1,2}', 'AttrNames': '{1,2}', 'Kinds': '{"D","U"}', 'MaxClusters': '0' if c22 else '1'}, 'TextRight Strict',
                     cfgextra='VIEW View\nACTION_CONSTRAINT EmitRun\n', workers=1, replay=replay_dot())]
        if c22:
            out.append(model('quoted strings', 'DotQuote', {'Alphabet': '{97, 48, 32, 34, 46, 45, 60, 62, 233, 95, 59, 61}', 'MaxLen': T('4', '5')},
                             'Correct Allowed EmitInst', workers=T(2, 6), replay=replay_quote()))
        elif not q:
            out.append(model('DOT texts of graphs with two clusters', 'DotADT',
                             {'Names': '{1,2}', 'AttrNames': '{1}', 'Kinds': '{"D","U"}', 'MaxClusters': '2'}, 'TextRight',
                             cfgextra='VIEW View\n', workers=6))
        return out
    if prop == 'C24':
        return adt(tier, prop)
    if prop == 'C04':
        return search(['DFS', 'BFS'], 'DFS and BFS') + [cert('dfs', tier)]
    if prop == 'C05':
        return search(['BFS'], 'BFS') + [cert('dist', tier)]
    if prop == 'C06':
        return search(['Dijkstra'], 'Dijkstra') + [cert('dist', tier)]
    if prop == 'C07':
        return search(['Prim'], 'Prim') + [
            model('Kruskal', 'Kruskal', {'Sizes': T('{1,2,3,4}', '{1,2,3,4}'), 'CostSet': T('{0,1,3}', '{0,1,2,3}'), 'Loops': 'FALSE'},
                  'Parts Safe Correct EmitInst', replay=R),
            cert('mst', tier)]
    if prop == 'C08':
        return [model('component labels', 'Components', {'Sizes': '{1,2,3,4}', 'Loops': T('FALSE', 'TRUE'), 'Leftover': '{0}'},
                      'Correct EmitInst', workers=4, replay=R)] + \
               [model('disjoint set', 'DisjointSet', {'Items': '1..3', 'Optimize': 'TRUE'}, 'Represents', cfgextra='VIEW View\n')][:0]
    if prop == 'C09':
        out = [model('strong components, one run', 'Tarjan', {'Sizes': '{1,2,3}', 'Loops': 'TRUE', 'Again': 'FALSE'},
                     'Correct StackInv EmitInst', replay=R),
               model('transposed depth-first searches', 'DepthFirst', {'Sizes': '{1,2,3}', 'Kinds': '{"D"}', 'Loops': 'FALSE', 'Transposed': 'TRUE'},
                     'Between Kosaraju EmitInst', replay=R),
               model('strong components, again after changes', 'Tarjan', {'Sizes': '{3}', 'Loops': 'FALSE', 'Again': 'TRUE'},
                     'Correct StackInv EmitInst', workers=4, replay=R)]
        if not q:
            out.append(model('strong components on 4 nodes', 'Tarjan', {'Sizes': '{4}', 'Loops': 'FALSE', 'Again': 'FALSE'},
                             'Correct StackInv EmitInst', workers=6, replay=R))
        return out
    if prop == 'C10':
        out = [model('depth-first searches', 'DepthFirst', {'Sizes': '{1,2,3}', 'Kinds': '{"D","U"}', 'Loops': 'TRUE', 'Transposed': 'FALSE'},
                     'Between Kosaraju EmitInst', replay=R), cert('dfs', tier)]
        if not q:
            out.append(model('depth-first searches on 4 nodes', 'DepthFirst', {'Sizes': '{4}', 'Kinds': '{"D","U"}', 'Loops': 'FALSE', 'Transposed': 'FALSE'},
                             'Between Kosaraju EmitInst', workers=6, replay=R, heap='8g'))
        return out
    if prop == 'C11':
        return [model('augmenting paths', 'Augment', {'Sizes': '{2,3}', 'CapSet': '{0,1,2,3}', 'Leftover': '2'},
                      'FlowAlways Correct EmitInst', props=['Increases', 'Terminates'], replay=R),
                model('augmenting paths on 4 nodes', 'Augment', {'Sizes': '{4}', 'CapSet': T('{1}', '{0,1,2}'), 'Leftover': '1'},
                      'FlowAlways Correct EmitInst', workers=4, replay=R), cert('flow', tier)]
    if prop == 'C12':
        return [model('preflow-push', 'Preflow', {'Sizes': '{2,3}', 'CapSet': '{0,1,2,3}'},
                      'Preflow Valid Correct EmitInst', props=['Terminates', 'Monotone'], replay=R),
                model('preflow-push on 4 nodes', 'Preflow', {'Sizes': '{4}', 'CapSet': T('{1,2}', '{0,1,3}')},
                      'Preflow Valid Correct EmitInst', workers=4, replay=R, heap='6g'), cert('flow', tier)]
    if prop in ('C13', 'C29'):
        return [model('cycle canceling', 'CycleCancel',
                      {'Sizes': '{1,2,3}', 'CapSet': T('{2}', '{0,2}'), 'CostSet': '<- CostsB', 'DemandSet': T('<- DemandsB', '<- DemandsB')},
                      'AuxGone FlowInv Correct EmitInst', props=['Cheaper'] + T([], ['Terminates']), workers=4, replay=R), cert('flow', tier)]
    if prop == 'C14':
        return [model('network simplex', 'Simplex',
                      {'Sizes': '{1,2,3}', 'CapSet': T('{0,2}', '{0,1,2}'), 'CostSet': '<- CostsB', 'DemandSet': T('<- DemandsA', '<- DemandsB'),
                       'Pivots': '{"dantzig","first"}'},
                      'TreeSolution Correct EmitInst', props=['NoDearer'] + T([], ['Terminates']), workers=4, replay=R), cert('flow', tier)]
    if prop == 'C15':
        return [model('Floyd-Warshall', 'FloydWarshall', {'Sizes': '{0,1,2,3}', 'CostSet': T('<- CostsC', '<- CostsA'), 'Loops': 'FALSE'},
                      'WalkInv Correct EmitInst', workers=4, replay=R),
                model('Floyd-Warshall with loops', 'FloydWarshall', {'Sizes': T('{1,2}', '{1,2,3}'), 'CostSet': T('<- CostsA', '<- CostsB'), 'Loops': 'TRUE'},
                      'WalkInv Correct EmitInst', replay=R, workers=T(2, 4)), cert('dist', tier)]
    if prop == 'C16':
        return [model('label correcting', 'LabelCorrecting', {'Sizes': '{1,2,3}', 'CostSet': T('<- CostsB', '<- CostsC'), 'Loops': 'FALSE'},
                      'Forest Labels Correct EmitInst', props=['Terminates'], workers=4, replay=R),
                model('label correcting with loops', 'LabelCorrecting', {'Sizes': T('{1,2}', '{1,2,3}'), 'CostSet': T('<- CostsC', '<- CostsB'), 'Loops': 'TRUE'},
                      'Forest Labels Correct EmitInst', props=['Terminates'], replay=R), cert('dist', tier)]
    if prop == 'C17':
        return [model('relaxing in topological order', 'AcyclicSP', {'Sizes': T('{1,2,3}', '{1,2,3,4}'), 'CostSet': T('<- CostsA', '<- CostsC'), 'Dests': '{0,1,2,3}'},
                      'Settled Correct EmitInst', workers=4, replay=R), cert('dist', tier)]
    if prop == 'C25':
        return [model('page rank', 'PageRank', {'Sizes': '{0,1,2,3}', 'Ds': '{0,50,85}', 'Scale': '1000000', 'Loops': 'TRUE', 'Rounds': '300'},
                      'Correct EmitInst', replay=R)]
    if prop == 'C26':
        return [model('Hamiltonian paths', 'Hamilton', {'Sizes': '{1,2,3}', 'Kinds': '{"D","U"}', 'Loops': 'TRUE', 'Dests': '{0,1,2}'},
                      'Marks Correct EmitInst', props=['Terminates'], replay=R),
                model('Hamiltonian paths on 4 nodes', 'Hamilton', {'Sizes': '{4}', 'Kinds': T('{"U"}', '{"D","U"}'), 'Loops': 'FALSE', 'Dests': '{0,1,2,3}'},
                      'Marks Correct EmitInst', workers=4, replay=R), cert('dist', tier)]
    if prop == 'C27':
        return [model('random graphs', 'RandomGraph', {'Sizes': T('{0,1,2,3}', '{0,1,2,3,4}'), 'Kinds': '{"D","U"}', 'Modes': '{"degree","density"}',
                                                       'Bounds': T('{0,1,2}', '{0,1,2,3}'), 'Densities': '{0,50,100}'},
                      'Correct EmitOut EmitAll', props=['Terminates'], workers=4, replay=replay_random())]
    if prop == 'C28':
        return [model('auxiliary nodes come and go', 'CycleCancel',
                      {'Sizes': '{1,2,3}', 'CapSet': T('{2}', '{0,2}'), 'CostSet': '<- CostsD', 'DemandSet': '<- DemandsB'},
                      'AuxGone FlowInv Correct EmitInst', workers=4, replay=R)]
    if prop == 'C31':
        return [model('display modes and highlighted nodes', 'Display',
                      {'Modes': '{"off","file","PIL"}', 'Nodes': T('{1,2}', '{1,2,3}'), 'Depth': 3, 'Steps': 3, 'Restore': 'TRUE', 'Unmark': 'TRUE'},
                      'ModeKept OnlyAsked MarkedAsAsked NothingMarked Silent EmitRun', workers=T(2, 6), replay=replay_show())]
    if prop == 'C30':
        return [model('calls on two graphs', 'Isolation', {'Size': 2, 'Calls': T(3, 4), 'Fresh': 'TRUE'},
                      'Correct SameAgain EmitRun', props=['Ends'], workers=T(2, 6), replay=replay_twice())] + T([], [
                model('calls on two larger graphs', 'Isolation', {'Size': 3, 'Calls': 2, 'Fresh': 'TRUE'},
                      'Correct SameAgain EmitRun', workers=6, replay=replay_twice(), heap='8g')])
    return []
