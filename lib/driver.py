"""Executes sessions (JSON lines) on the real GiMPy and records one event per call.

Runs under the interpreter of the repository's own environment.  Usage:
    driver.py SESSIONS.jsonl EVENTS.ndjson
The driver judges nothing: it logs the call, how it ended, what it returned and
what the public query methods show afterwards, with node names mapped to
1..K, values to integers.  The trace specifications judge.
"""
import ast, copy, io, json, os, random, re, resource, signal, sys, tempfile, types
from contextlib import redirect_stdout
from fractions import Fraction

sys.modules['dot2tex'] = None
WINDOWS = []        # the pictures shown in windows: (library, picture)


class Picture:
    """stand-in for an image of PIL"""
    def __init__(self, data):
        self.data = data

    def show(self, *a, **k):
        WINDOWS.append(('PIL', self.data))

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        return lambda *a, **k: self if name in ('copy', 'convert', 'resize', '__enter__') else None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _open(f, *a, **k):
    if hasattr(f, 'read'):
        data = f.read()
    else:
        with open(f, 'rb') as fi:
            data = fi.read()
    if not data:
        raise OSError('cannot identify image file')
    return Picture(data)


class Plot(types.ModuleType):
    """stand-in for matplotlib.pyplot"""
    image = None

    def imshow(self, im, *a, **k):
        self.image = im

    def clf(self, *a, **k):
        self.image = None

    def show(self, *a, **k):
        if self.image is not None:
            WINDOWS.append(('matplotlib', self.image.data))
        self.image = None

    def waitforbuttonpress(self, *a, **k):      # shows the figure; False: a click of the mouse
        self.show()
        return False

    pause = show

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        return Anything()


class Anything:
    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        return self

    def __call__(self, *a, **k):
        return self


class Dots(types.ModuleType):
    """stand-in for xdot, and for the main loop of gtk, in which its window is seen"""
    code = None

    class DotWindow(Anything):
        def set_dotcode(self, code, *a, **k):
            Dots.code = code.encode('utf-8') if isinstance(code, str) else code
            return True

    main_quit = None

    def main(self, *a, **k):
        if Dots.code is not None:
            WINDOWS.append(('xdot', Dots.code))
        Dots.code = None


sys.modules['pygtk'] = types.ModuleType('pygtk')
sys.modules['gtk'] = sys.modules['xdot'] = Dots('xdot')
for _m in ('PIL', 'PIL.Image', 'matplotlib'):
    sys.modules[_m] = types.ModuleType(_m)
    sys.modules[_m].__path__ = []
sys.modules['PIL'].Image, sys.modules['PIL.Image'].open = sys.modules['PIL.Image'], _open
sys.modules['matplotlib.pyplot'] = sys.modules['matplotlib'].pyplot = Plot('matplotlib.pyplot')
sys.modules['matplotlib.pyplot'].rcParams = {}
sys.setrecursionlimit(5000)

import gimpy                                            # noqa: E402
assert os.path.realpath(gimpy.__file__).startswith(os.path.realpath(os.environ.get('VP_SRC', '/repo/src'))), gimpy.__file__
from gimpy import Graph, DIRECTED_GRAPH, UNDIRECTED_GRAPH   # noqa: E402
from gimpy import graph as graph_mod                    # noqa: E402
from gimpy import DisjointSet                           # noqa: E402
from gimpy import Tree, BinaryTree                      # noqa: E402
from coinor.blimpy import Stack, Queue, PriorityQueue                  # noqa: E402

INF, NA, BAD = 10**9, -999999, -888888


HANGS = 0           # calls, also those that only read, that did not end


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGVTALRM, _alarm)
HANG_S = float(os.environ.get('VP_HANG', '12'))


def fresh_int(i):
    return int(str(i))


def fresh_str(s):
    return ''.join(list(s)) if len(s) > 1 else s


# node names: style -> function from index (1, 2, ...) to a fresh object
MIXED = [lambda: 0, lambda: '', lambda: 'a', lambda: fresh_int(70000), lambda: (fresh_int(5000), 'x', 1),
         lambda: '0', lambda: 2.5, lambda: frozenset([fresh_int(900)]), lambda: 'None', lambda: -1,
         lambda: b'by', lambda: fresh_str('a b'), lambda: fresh_int(10**12), lambda: ('p',)]
STR = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n']
ODD = ['', ' ', 'A', 'a', '0', '-', 'node', 'None', 'x y', 'ab', 'ba', 'Ä', '"', 's1']
LONG = ['north gate', 'north_gate', 'south gate', 'n1', 'n10', 'n100', 'nn', 'edge', 'q' * 20,
        'q' * 21, 'z9', 'y8', 'x7', 'w6']
STYLES = {
    'int0': lambda i: i - 1,
    'int1': lambda i: i,
    'big': lambda i: fresh_int(1000 + 37 * i),
    'neg': lambda i: fresh_int(300 * (5 - i)),
    'rev': lambda i: fresh_int(40 - i),
    'str': lambda i: fresh_str(STR[(i - 1) % 14] + (str(i) if i > 14 else '')),
    'odd': lambda i: fresh_str(ODD[i - 1] if i <= 14 else 'v%d' % i),
    'long': lambda i: fresh_str(LONG[i - 1] if i <= 14 else 'long %d' % i),
    'tuple': lambda i: (fresh_int(1000 + i // 2), fresh_str('k%d' % (i % 2))),
    'tup3': lambda i: (fresh_int(i), fresh_str('ab'), 2.5),
    'float': lambda i: i * 0.5,
    'mixed': lambda i: MIXED[i - 1]() if i <= 14 else fresh_int(5000 + i),
    'fset': lambda i: frozenset([fresh_int(1000 + i), 'a']),
}

# values of attributes in sessions that only read and write them
VALUES = [None, lambda: 0, lambda: 1, lambda: '', lambda: fresh_str('red'), lambda: False, lambda: [],
          lambda: [1, 2], lambda: {'k': [1]}, lambda: 2.5, lambda: -7, lambda: fresh_int(100000),
          lambda: fresh_str('a "quoted" value'), lambda: (1, 2), lambda: True, lambda: 'None',
          lambda: {}, lambda: fresh_str('blue'), lambda: Fraction(1, 3), lambda: 'x']


# attributes of a graph, given when it is made
GATTRS = [('splines', lambda: 'true'), ('K', lambda: 1.5), ('note', lambda: ['n']), ('x1', lambda: 7), ('bgcolor', lambda: fresh_str('red')),
          ('size', lambda: '4,4'), ('cost', lambda: 3), ('my attr', lambda: ''), ('label', lambda: fresh_str('a graph')), ('distance', lambda: 0)]

# attributes that the algorithms and displays use
WORK = ['component', 'label', 'color', 'distance', 'priority', 'depth', 'disc_time', 'finish_time', 'index', 'lowlink',
        'visited', 'excess', 'flow', 'pred', 'thread', 'potential', 'extra']


TREE = ['level', 'parent', 'direction', 'Lchild', 'Rchild']


def codes(x):
    return [ord(c) for c in str(x)]


def same(a, b):
    return type(a) is type(b) and a == b


def printable(names):
    """can the printed representation of a graph with these names be read back?"""
    try:
        return (len({str(n) for n in names}) == len(names) and
                all(str(n) and '\n' not in str(n) and ' -> ' not in str(n) for n in names) and
                all(same(ast.literal_eval(repr(n)), n) for n in names))
    except (ValueError, SyntaxError):
        return False


class Session:
    def __init__(self, s, emit):
        self.s = s
        self.emit_raw = emit
        self.rng = random.Random(s.get('seed', 0))
        self.K = s.get('k', 6)
        self.style = STYLES[s.get('style', 'int0')]
        self.unit = Fraction(*s.get('unit', [1, 1]))
        self.asfloat = s.get('float', False)
        self.mode = s.get('vals', 'num')
        self.attrs = s.get('attrs', ['cost', 'capacity', 'demand', 'note', 'x1', 'x2'])
        self.names = [None] + [self.style(i) for i in range(1, self.K + 1)]
        self.graphs = {}
        self.carry = {}
        self.dead = False
        self.codes = {}
        self.printed = printable(self.names[1:])

    # names and values -------------------------------------------------------
    def nm(self, i):
        return self.style(i)

    def idx(self, obj):
        try:
            for i in range(1, self.K + 1):
                x = self.names[i]
                if type(x) is type(obj) and x == obj:
                    return i
        except Exception:
            pass
        return -1

    def val(self, v):
        if v == NA:
            return None
        if self.mode == 'univ':
            return VALUES[v]()
        q = v * self.unit
        if q.denominator == 1 and not self.asfloat:
            return int(q)
        return float(q)

    def unval(self, x):
        if x is None:
            return NA
        if self.mode == 'univ':
            for i in range(1, len(VALUES)):
                if same(VALUES[i](), x):
                    return i
            return BAD
        return self.num(x)

    def num(self, x):
        if x is None:
            return NA
        if isinstance(x, str):
            return INF if x in ('inf', 'infinity') else BAD
        if isinstance(x, bool):
            return BAD
        try:
            if x == float('inf'):
                return INF
            q = Fraction(x) / self.unit
        except Exception:
            return BAD
        if q.denominator != 1 or abs(q) > 5 * 10**8:
            return BAD
        return int(q)

    def small(self, x):
        """an unscaled integer such as a label or a hop count"""
        if x is None:
            return NA
        if isinstance(x, str) and x in ('inf', 'infinity'):
            return INF
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            return BAD
        if x != x or x in (float('inf'), float('-inf')):
            return BAD
        if int(x) != x or abs(x) > 10**8:
            return BAD
        return int(x)

    def at(self, l):
        return {fresh_str(self.attrs[x - 1]): self.val(v) for x, v in l}

    def row(self, l):
        r = [NA] * 6
        for x, v in l:
            r[x - 1] = v
        return r

    # calls ------------------------------------------------------------------
    def call(self, f, *a, **k):
        """-> (kind, value, output)"""
        buf = io.StringIO()
        signal.setitimer(signal.ITIMER_VIRTUAL, HANG_S, 1)
        try:
            with redirect_stdout(buf):
                v = f(*a, **k)
            r = ('ok', v, buf.getvalue())
        except Hang:
            global HANGS
            HANGS += 1
            r = ('timeout', None, buf.getvalue())
        except MemoryError:
            r = ('timeout', None, '')
        except RecursionError as e:
            r = ('raise', 'RecursionError', buf.getvalue())
        except SystemExit as e:
            r = ('raise', 'SystemExit', buf.getvalue())
        except Exception as e:
            r = ('raise', '%s: %s' % (type(e).__name__, str(e)[:200]), buf.getvalue())
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 3 * HANG_S, 1)      # for what follows the call
        return r

    def emit(self, ev):
        ev['s'] = self.s['sid']
        self.emit_raw(ev)

    # observation of a graph ----------------------------------------------------
    def obs(self, gid):
        g, t = self.graphs[gid]
        noattr = {'ax': 0, 'na': [], 'na2': [], 'ea': [], 'er': [], 'ec': [], 'comp': []}
        kind, o, _ = self.call(self._obs, g, t)
        given = getattr(self, 'given', {}).get(gid, [100, 200])
        if kind != 'ok':
            o = {'x': 1, 'ga': given, 'w': str(o), 't': t, 'n': [], 'e': [], 'o': [], 'i': [], 'q': [], 'c': [], 'k': [],
                 'm': [], 'mt': [], 'gn': [], 'nn': 0, 'en': 0, 'rx': 0, 'rp': [], **noattr}
        else:
            kind, r, _ = self.call(self._obsattr, g, t, o)
            o.update(r if kind == 'ok' else dict(noattr, ax=1, ga=given, w=str(r)))
        o['g'], o['gw'] = gid, given
        return o

    def _obs(self, g, t):
        K, nm, idx = self.K, self.nm, self.idx
        U = range(1, K + 1)
        nl = list(g.get_node_list())
        el = list(g.get_edge_list())
        n = [idx(x) for x in nl]
        e = [[idx(a), idx(b)] for a, b in el]
        inn = set(n)
        o = {'x': 0, 't': t, 'n': n, 'e': e}
        o['o'] = [[idx(x) for x in g.get_neighbors(nm(i))] if i in inn else [] for i in U]
        o['q'] = [[idx(x) for x in g.get_out_neighbors(nm(i))] if i in inn else [] for i in U]
        o['i'] = ([[idx(x) for x in g.get_in_neighbors(nm(i))] if i in inn else [] for i in U]
                  if t == 'D' else [])
        o['c'] = [[i, j] for i in U for j in U if g.check_edge(nm(i), nm(j))]
        o['k'] = [[i, j] for i in U for j in U if (nm(i), nm(j)) in g]
        o['m'] = [i for i in U if not isinstance(self.names[i], tuple) and nm(i) in g]
        o['mt'] = [i for i in U if not isinstance(self.names[i], tuple)]
        o['gn'] = [i for i in U if g.get_node(nm(i)) is not None]
        o['rx'], o['rp'] = int(self.printed), self.read_back(repr(g)) if self.printed else []
        o['nn'] = g.get_node_num()
        o['en'] = g.get_edge_num()
        return o

    def _obsattr(self, g, t, s):
        K, nm, n, e = self.K, self.nm, s['n'], s['e']
        U = range(1, K + 1)
        inn = set(n)
        A = self.attrs
        o = {'ax': 0}
        o['na'] = [[i] + [self.unval(g.get_node_attr(nm(i), fresh_str(x))) for x in A] for i in n if i > 0]
        o['na2'] = [[i] + [self.unval(g.get_node(nm(i)).get_attr(x)) for x in A] for i in n
                    if i > 0 and g.get_node(nm(i)) is not None]

        def ea(a, b, x):
            try:
                return self.unval(g.get_edge_attr(nm(a), nm(b), fresh_str(x)))
            except KeyError:
                return NA
        ok = [p for p in e if p[0] > 0 and p[1] > 0]
        o['ea'] = [p + [ea(p[0], p[1], x) for x in A] for p in ok]
        o['er'] = [p + [ea(p[1], p[0], x) for x in A] for p in ok] if t == 'U' else []

        def ec(a, b):
            try:
                return self.unval(g.get_edge_cost((nm(a), nm(b))))
            except KeyError:
                return NA
        o['ec'] = [[a, b, A.index('cost') + 1, ec(a, b)]
                   for p in (ok if 'cost' in A else []) for a, b in ([p, p[::-1]] if t == 'U' else [p])]
        o['comp'] = [self.small(g.get_node_attr(nm(i), 'component')) if i in inn else NA for i in U]
        o['ga'] = [(i if same(v(), g.attr[k]) else -i) for i, (k, v) in enumerate(GATTRS, 1) if k in g.attr] + \
            [100 if str(g.name) == 'G' else 101 if str(g.name) == 'net' else -1] + \
            [200 if g.graph_type == ('digraph' if t == 'D' else 'graph') else -2]
        return o

    def read_back(self, text):
        """the rows [node, neighbors..] of the printed representation of a graph"""
        rows = []
        for line in text.split('\n') if text else []:
            n, arrow, l = line.partition(' -> ')
            try:
                l = ast.literal_eval(l)
            except (ValueError, SyntaxError):
                return [[-1]]
            if not arrow or not isinstance(l, list):
                return [[-1]]
            rows.append([next((i for i in range(1, self.K + 1) if str(self.nm(i)) == n), -1)] + [self.idx(x) for x in l])
        return rows

    def work(self, gid):
        """what algorithms and displays left on nodes and edges, each element's attributes as one number"""
        g = self.graphs[gid][0]
        names = [a for a in WORK if a not in self.attrs]

        def code(get):
            r = []
            for a in names:
                try:
                    v = get(fresh_str(a))
                except KeyError:
                    v = None
                r.append(None if v is None else repr(v))
            if not any(x is not None for x in r):
                return 0
            return self.codes.setdefault(tuple(r), len(self.codes) + 1)

        def f():
            return ([[self.idx(n), code(lambda a: g.get_node_attr(n, a))] for n in list(g.get_node_list())],
                    [[self.idx(n), self.idx(m), code(lambda a: g.get_edge_attr(n, m, a))]
                     for n, m in list(g.get_edge_list())])
        r = self.call(f)
        return r[1] if r[0] == 'ok' else ([[-2, -2]], [[-2, -2, -2]])

    def nodevals(self, g, attr, f):
        return [f(g.get_node_attr(self.nm(i), attr)) if g.get_node(self.nm(i)) is not None else NA
                for i in range(1, self.K + 1)]

    def flows(self, g):
        r = []
        for a, b in g.get_edge_list():
            try:
                f = self.num(g.get_edge_attr(a, b, 'flow'))
            except KeyError:
                f = NA
            r.append([self.idx(a), self.idx(b), f])
        return r

    def predlist(self, p):
        return [[self.idx(k), 0 if v is None else self.idx(v)] for k, v in p.items()]

    def path(self, p):
        return [self.idx(x) for x in p]

    # running --------------------------------------------------------------------
    def run(self):
        for k, op in enumerate(self.s['ops']):
            if self.dead:
                break
            r = None
            signal.setitimer(signal.ITIMER_VIRTUAL, 3 * HANG_S, 1)
            try:
                getattr(self, 'op_' + op[0])(*op[1:])
                if HANGS >= 4 and not self.dead:
                    r = 'timeout', ''
            except Hang:
                r = 'timeout', ''
            except (Exception, MemoryError) as e:
                r = 'raise', '%s: %s' % (type(e).__name__, str(e)[:200])
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if r:       # not in the call but in reading what it left
                self.dead = True
                self.emit({'op': op[2] if op[0] == 'alg' else op[0], 'crash': 1, 'r': r[0], 'w': r[1]})

    def allobs(self, gid, quiet=False):
        """the graph concerned first, sometimes the others too"""
        if quiet and self.s.get('quiet'):
            return []
        r = [self.obs(gid)]
        if len(self.graphs) > 1 and self.rng.random() < self.s.get('others', 0.3):
            r += [self.obs(h) for h in sorted(self.graphs) if h != gid]
        return r

    def op_new(self, gid, kind, gattr=None):
        kw = {'display': self.s['display']} if self.s.get('display') else {}
        gattr = gattr or []
        kw.update((GATTRS[i - 1][0], GATTRS[i - 1][1]()) for i in gattr if i < 100)
        if 101 in gattr:
            kw['name'] = fresh_str('net')
        self.given = getattr(self, 'given', {})
        self.given[gid] = sorted(i for i in gattr if i < 100) + [101 if 101 in gattr else 100, 200]
        if kind == 'D':
            kw['type'] = DIRECTED_GRAPH
        elif kind == 'U':
            kw['type'] = UNDIRECTED_GRAPH
        elif kind == 'd':
            kw['type'] = fresh_str('digraph')
        elif kind == 'u':
            kw['type'] = fresh_str('graph')
        t = 'D' if kind in 'Dd' else 'U'
        r = self.call(lambda: Graph(**kw))
        if r[0] == 'ok':
            self.graphs[gid] = (r[1], t)
            self.carry[gid] = {}
        else:
            self.dead = True
        self.emit({'op': 'new', 'g': gid, 't': t, 'r': r[0], 'w': str(r[1]) if r[0] != 'ok' else '',
                   'obs': self.allobs(gid) if r[0] == 'ok' else []})

    def op_make(self, gid, kind, nodes, edges):
        """a graph put together by the operations of the class, as one event"""
        t = 'D' if kind in 'Dd' else 'U'
        kw = {'type': DIRECTED_GRAPH if t == 'D' else UNDIRECTED_GRAPH}
        if self.s.get('display'):
            kw['display'] = self.s['display']

        def f():
            g = Graph(**kw)
            for n, at in nodes:
                g.add_node(self.nm(n), **self.at(at))
            for a, b, at in edges:
                g.add_edge(self.nm(a), self.nm(b), **self.at(at))
            return g
        r = self.call(f)
        if r[0] == 'ok':
            self.graphs[gid] = (r[1], t)
            self.carry[gid] = {}
        else:
            self.dead = True
        self.emit({'op': 'make', 'g': gid, 't': t, 'nodes': [[n, self.row(at)] for n, at in nodes],
                   'edges': [[a, b, self.row(at)] for a, b, at in edges],
                   'r': r[0], 'w': str(r[1]) if r[0] != 'ok' else '',
                   'obs': self.allobs(gid, True) if r[0] == 'ok' else []})

    def mut(self, op, gid, f, a, b, at, x=0, v=0, **more):
        w0 = [] if self.s.get('quiet') else [self.work(gid)]
        r = self.call(f)
        if r[0] == 'timeout':
            self.dead = True
        self.emit({**more, 'op': op, 'g': gid, 'a': a, 'b': b, 'at': self.row(at), 'x': x, 'v': v, 'r': r[0],
                   'w': str(r[1]) if r[0] != 'ok' else '', 'obs': self.allobs(gid, True),
                   'wk': w0 and [w0[0], self.work(gid)]})

    def op_add_node(self, gid, a, at):
        g = self.graphs[gid][0]
        self.mut('add_node', gid, lambda: g.add_node(self.nm(a), **self.at(at)), a, 0, at)

    def op_del_node(self, gid, a):
        g = self.graphs[gid][0]
        self.mut('del_node', gid, lambda: g.del_node(self.nm(a)), a, 0, [])

    def op_del_nodes(self, gid, L):
        """going through the list of nodes and deleting some of them"""
        g = self.graphs[gid][0]

        def f():
            for n in g.get_node_list():
                if self.idx(n) in L:
                    g.del_node(n)
        self.mut('del_nodes', gid, f, 0, 0, [], L=L)

    def op_del_edges(self, gid, L):
        g, t = self.graphs[gid]
        K = {tuple(e) for e in L} | ({(b, a) for a, b in L} if t == 'U' else set())

        def f():
            for e in g.get_edge_list():
                if (self.idx(e[0]), self.idx(e[1])) in K:
                    g.del_edge(e)
        self.mut('del_edges', gid, f, 0, 0, [], L=L)

    def op_scribble(self, gid):
        """the lists of nodes and edges belong to whoever asked for them"""
        g = self.graphs[gid][0]

        def f():
            for l in g.get_node_list(), g.get_edge_list():
                if isinstance(l, list):
                    l.reverse()
                    l[len(l) // 2:] = ['scribble']
        self.mut('scribble', gid, f, 0, 0, [])

    def op_add_edge(self, gid, a, b, at):
        g = self.graphs[gid][0]
        self.mut('add_edge', gid, lambda: g.add_edge(self.nm(a), self.nm(b), **self.at(at)), a, b, at)

    def op_del_edge(self, gid, a, b):
        g = self.graphs[gid][0]
        self.mut('del_edge', gid, lambda: g.del_edge((self.nm(a), self.nm(b))), a, b, [])

    def op_set_node(self, gid, a, x, v, how=0):
        g = self.graphs[gid][0]
        if how:
            f = lambda: g.get_node(self.nm(a)).set_attr(fresh_str(self.attrs[x - 1]), self.val(v))
        else:
            f = lambda: g.set_node_attr(self.nm(a), fresh_str(self.attrs[x - 1]), self.val(v))
        self.mut('set_node', gid, f, a, 0, [], x, v)

    def op_set_edge(self, gid, a, b, x, v):
        g = self.graphs[gid][0]
        self.mut('set_edge', gid,
                 lambda: g.set_edge_attr(self.nm(a), self.nm(b), fresh_str(self.attrs[x - 1]), self.val(v)),
                 a, b, [], x, v)

    def op_alg(self, gid, name, p):
        g, t = self.graphs[gid]
        ev = {'op': name, 'g': gid, 'p': p, 'wk': []}
        reject = name == ('residual' if t == 'U' else 'label_components')
        if p.get('iffree') and g.get_node_attr(self.nm(p['root']), 'disc_time') is not None:
            return
        try:
            ev['comp0'] = self.nodevals(g, 'component', self.small)
        except Exception:
            ev['comp0'] = [NA] * self.K
        w0 = self.work(gid) if reject else []
        try:
            r, res = getattr(self, 'alg_' + name)(g, gid, p)
        except Exception as e:      # what was returned cannot even be read
            r, res = ('raise', 'reading the result: %s: %s' % (type(e).__name__, str(e)[:200])), None
        if r[0] == 'timeout':
            self.dead = True
        ev['r'] = r[0]
        ev['w'] = str(r[1]) if r[0] != 'ok' else ''
        ev['res'] = res if res is not None else {}
        ev['obs'] = self.allobs(gid)
        if reject:
            ev['wk'] = [w0, self.work(gid)]
        self.emit(ev)

    def op_skip(self, *a):
        pass

    # algorithms -------------------------------------------------------------------
    def disp(self, p):
        return {'display': p['display']} if p.get('display') else {}

    def result(self, v):
        if v is None:
            return {'kind': 'none', 'pred': [], 'path': []}
        if isinstance(v, dict):
            return {'kind': 'dict', 'pred': self.predlist(v), 'path': []}
        if isinstance(v, (list, tuple)):
            return {'kind': 'path', 'pred': [], 'path': self.path(v)}
        return {'kind': 'other', 'pred': [], 'path': []}

    def alg_search(self, g, gid, p):
        kw = self.disp(p)
        if p['dst']:
            kw['destination'] = self.nm(p['dst'])
        if p['comp'] != NA:
            kw['component'] = p['comp']
        if p['rev']:
            kw['reverse'] = True
        if p['algo'] != 'DFS' or p.get('explicit'):
            kw['algo'] = fresh_str(p['algo'])
        if p.get('q'):
            kw['q'] = {'S': Stack, 'Q': Queue, 'P': PriorityQueue}[p['q']]()
        r = self.call(g.search, self.nm(p['src']), **kw)
        if r[0] != 'ok':
            return r, None
        res = self.result(r[1])
        res['dist'] = self.nodevals(g, 'distance', self.small)
        res['prio'] = self.nodevals(g, 'priority', self.num)
        return r, res

    def alg_bfs(self, g, gid, p):
        kw = self.disp(p)
        if p['comp'] != NA:
            kw['component'] = p['comp']
        r = self.call(g.bfs, self.nm(p['src']), **kw)
        return r, None

    def alg_label_components(self, g, gid, p):
        r = self.call(g.label_components, **self.disp(p))
        if r[0] != 'ok':
            return r, None
        return r, {'num': self.small(g.num_components)}

    def alg_strong(self, g, gid, p):
        r = self.call(g.tarjan if p['direct'] else g.label_strong_component)
        if r[0] != 'ok':
            return r, None
        return r, {'num': self.small(getattr(g, 'num_components', None))}

    def alg_clear(self, g, gid, p):
        """the user resets labels"""
        for i in range(1, self.K + 1):
            if g.get_node(self.nm(i)) is not None and (not p.get('only') or i in p['only']):
                for a in p['attrs']:
                    g.set_node_attr(self.nm(i), a, None if p['val'] == NA else p['val'])
        return ('ok', None), {'disc': self.nodevals(g, 'disc_time', self.small),
                              'fin': self.nodevals(g, 'finish_time', self.small)}

    def alg_dfs(self, g, gid, p):
        c = self.carry[gid]
        if p['first']:
            c['d'], c['f'], c['order'], c['pred'] = p['d0'], p['f0'], [], {}
        c.setdefault('d', 0), c.setdefault('f', 1), c.setdefault('order', []), c.setdefault('pred', {})
        kw = self.disp(p)
        if p['counters']:
            kw['disc_count'], kw['finish_count'] = c['d'], c['f']
            d0, f0 = c['d'], c['f']
        else:
            d0, f0 = 0, 1
        if p['order']:
            kw['topological_order'] = c['order']
        if p['pred']:
            kw['pred'] = c['pred']
        if p['comp'] != NA:
            kw['component'] = p['comp']
        if p['transpose']:
            kw['transpose'] = True
        before = {'ord0': self.path(c['order']) if p['order'] else [],
                  'pred0': self.predlist(c['pred']) if p['pred'] else [],
                  'd0': d0, 'f0': f0,
                  'disc0': self.nodevals(g, 'disc_time', self.small),
                  'fin0': self.nodevals(g, 'finish_time', self.small),
                  'comp0': self.nodevals(g, 'component', self.small)}
        r = self.call(g.dfs, self.nm(p['root']), **kw)
        if r[0] != 'ok':
            return r, None
        ret = [BAD, BAD]
        if isinstance(r[1], (tuple, list)) and len(r[1]) == 2:
            ret = [self.small(x) for x in r[1]]
            if p['counters'] and BAD not in ret and NA not in ret:
                c['d'], c['f'] = r[1]
        before.update({'ret': ret,
                       'ord': self.path(c['order']) if p['order'] else [],
                       'pred': self.predlist(c['pred']) if p['pred'] else [],
                       'disc': self.nodevals(g, 'disc_time', self.small),
                       'fin': self.nodevals(g, 'finish_time', self.small)})
        return r, before

    def alg_kosaraju(self, g, gid, p):
        """forward depth-first searches of everything, then of the transposed graph by
        decreasing finish time, with a new component number each"""
        def f():
            for n in g.get_node_list():
                for a in ('component', 'disc_time', 'finish_time'):
                    g.set_node_attr(n, a, None)
            d, fi = 0, 1
            nodes = list(g.get_node_list())
            if p.get('rot'):
                k = p['rot'] % max(1, len(nodes))
                nodes = nodes[k:] + nodes[:k]
            order = []
            for n in nodes:
                if g.get_node_attr(n, 'disc_time') is None:
                    d, fi = g.dfs(n, d, fi, topological_order=order)
            if not p.get('useorder'):
                order = sorted(g.get_node_list(), key=lambda n: -g.get_node_attr(n, 'finish_time'))
            c = 0
            for n in order:
                if g.get_node_attr(n, 'component') is None:
                    g.dfs(n, component=c, transpose=True)
                    c += 1
            return c
        r = self.call(f)
        if r[0] != 'ok':
            return r, None
        return r, {'num': r[1]}

    def alg_prim(self, g, gid, p):
        kw = self.disp(p)
        if p.get('q'):
            kw['q'] = PriorityQueue()
        r = self.call(g.minimum_spanning_tree_prim, self.nm(p['src']), **kw)
        return r, (self.result(r[1]) if r[0] == 'ok' else None)

    def alg_kruskal(self, g, gid, p):
        kw = self.disp(p)
        if p.get('ds'):
            kw['components'] = DisjointSet(optimize=p['ds'] == 2)
        r = self.call(g.minimum_spanning_tree_kruskal, **kw)
        if r[0] != 'ok':
            return r, None
        try:
            return r, {'edges': [[self.idx(a), self.idx(b)] for a, b in r[1]]}
        except Exception:
            return r, {'edges': [[-1, -1]]}

    def alg_acyclic(self, g, gid, p):
        kw = {'destination': self.nm(p['dst'])} if p['dst'] else {}
        r = self.call(g.acyclic_shortest_path, self.nm(p['src']), **kw)
        return r, (self.result(r[1]) if r[0] == 'ok' else None)

    def alg_fw(self, g, gid, p):
        r = self.call(g.floyd_warshall)
        if r[0] != 'ok':
            return r, None
        valid, dist, nxt = r[1]
        U = range(1, self.K + 1)
        have = [i for i in U if g.get_node(self.nm(i)) is not None]
        hs = set(have)
        res = {'valid': bool(valid), 'paths': [], 'nopath': [], 'cycles': [], 'cyc': [], 'cr': 'none', 'wrong': [],
               'dist': [[self.num(dist.get((self.nm(i), self.nm(j)))) if i in hs and j in hs else NA
                         for j in U] for i in U]}
        if valid:
            for i in have:
                for j in have:
                    q = self.call(g.floyd_warshall_get_path, dist, nxt, self.nm(i), self.nm(j))
                    if q[0] != 'ok':
                        return q, res
                    if q[1] is None:
                        res['nopath'].append([i, j])
                    else:
                        res['paths'].append([i, j, self.path(q[1])])
            q = self.call(g.floyd_warshall_get_cycle, dist, nxt)
            res['cr'] = q[0]
        else:
            q = self.call(g.floyd_warshall_get_cycle, dist, nxt)
            if q[0] != 'ok':
                return q, res
            res['cyc'] = self.path(q[1]) if isinstance(q[1], (list, tuple)) else [-1]
            for i in have:
                d = dist.get((self.nm(i), self.nm(i)))
                if isinstance(d, (int, float)) and d < 0:
                    q = self.call(g.floyd_warshall_get_cycle, dist, nxt, self.nm(i))
                    if q[0] != 'ok':
                        return q, res
                    res['cycles'].append([i, self.path(q[1]) if isinstance(q[1], (list, tuple)) else [-1]])
        for i in have:      # asked for a cycle through a node that is on none as far as is known
            d = dist.get((self.nm(i), self.nm(i)))
            if isinstance(d, (int, float)) and d >= 0 and self.rng.random() < 0.3:
                res['wrong'].append(self.call(g.floyd_warshall_get_cycle, dist, nxt, self.nm(i))[0])
        return r, res

    def alg_negcycle(self, g, gid, p):
        r = self.call(g.get_negative_cycle)
        if r[0] != 'ok':
            return r, None
        if r[1] is None:
            return r, {'kind': 'none', 'cyc': []}
        return r, {'kind': 'cycle', 'cyc': self.path(r[1]) if isinstance(r[1], (list, tuple)) else [-1]}

    def alg_fifo(self, g, gid, p):
        r = self.call(g.fifo_label_correcting, self.nm(p['src']))
        if r[0] != 'ok':
            return r, None
        try:
            flag, x = r[1]
        except Exception:
            flag, x = None, None
        res = {'flag': 'true' if flag is True else 'false' if flag is False else 'other', 'pred': [], 'cyc': []}
        if isinstance(x, dict):
            res['pred'] = self.predlist(x)
        elif isinstance(x, (list, tuple)):
            res['cyc'] = self.path(x)
        res['dist'] = self.nodevals(g, 'distance', self.num)
        return r, res

    def alg_maxflow(self, g, gid, p):
        kw = self.disp(p)
        if p['algo'] == 'preflow':
            if p['rule'] != 'FIFO' or p.get('explicit'):
                kw['algo'] = fresh_str(p['rule'])
            r = self.call(g.max_flow_preflowpush, self.nm(p['s']), self.nm(p['t']), **kw)
        else:
            if p['rule'] != 'DFS' or p.get('explicit'):
                kw['algo'] = fresh_str(p['rule'])
            r = self.call(g.max_flow, self.nm(p['s']), self.nm(p['t']), **kw)
        return r, ({'flow': self.flows(g)} if r[0] == 'ok' else None)

    def alg_setflow(self, g, gid, p):
        for a, b, f in p['flow']:
            if g.check_edge(self.nm(a), self.nm(b)):
                g.set_edge_attr(self.nm(a), self.nm(b), 'flow', self.val(f))
        return ('ok', None), {'flow': self.flows(g)}

    def cycles_of(self, g, limit):
        """some simple cycles, by a randomised walk"""
        out = []
        nodes = list(g.get_node_list())
        for _ in range(12):
            if len(out) >= limit or not nodes:
                break
            cur = self.rng.choice(nodes)
            walk = [cur]
            while True:
                nb = list(g.get_neighbors(cur))
                if not nb:
                    break
                cur = self.rng.choice(nb)
                if cur in walk:
                    out.append(walk[walk.index(cur):])
                    break
                walk.append(cur)
        return out

    def alg_residual(self, g, gid, p):
        fl = self.flows(g)
        r = self.call(g.create_residual_graph)
        if r[0] != 'ok':
            return r, {'flow': fl}
        R = r[1]

        def f():
            arcs = []
            for a, b in R.get_edge_list():
                arcs.append([self.idx(a), self.idx(b), self.num(R.get_edge_attr(a, b, 'cost')),
                             self.num(R.get_edge_attr(a, b, 'capacity'))])
            caps = []
            for c in self.cycles_of(R, 3):
                caps.append([self.path(c), self.num(R.find_cycle_capacity(c))])
            return arcs, caps
        q = self.call(f)
        if q[0] != 'ok':
            return q, {'flow': fl}
        self.carry[gid]['R'] = R
        return r, {'arcs': q[1][0], 'caps': q[1][1], 'flow': fl, 'flow2': self.flows(g),
                   'directed': 1 if R.graph_type == DIRECTED_GRAPH else 0}

    def alg_basis(self, g, gid, p):
        fl = self.flows(g)

        def f():
            T = g.get_simplex_solution_graph()
            return ([self.idx(n) for n in T.get_node_list()], [[self.idx(a), self.idx(b)] for a, b in T.get_edge_list()],
                    1 if T.graph_type == DIRECTED_GRAPH and T is not g else 0)
        r = self.call(f)
        if r[0] != 'ok':
            return r, {'flow': fl}
        return r, {'nodes': r[1][0], 'arcs': r[1][1], 'directed': r[1][2], 'flow': fl, 'flow2': self.flows(g)}

    def alg_cyclecap(self, g, gid, p):
        cs = self.cycles_of(g, 3)

        def f():
            return [[self.path(c), self.num(g.find_cycle_capacity(c))] for c in cs]
        r = self.call(f)
        return r, ({'caps': r[1]} if r[0] == 'ok' else None)

    def alg_augment(self, g, gid, p):
        """send some flow along a cycle of the underlying undirected graph that has room"""
        fl = self.flows(g)
        R = g.create_residual_graph()
        cs = self.cycles_of(R, 6)
        if not cs:
            return ('ok', None), {'cyc': [], 'amount': 0, 'flow0': fl, 'flow': fl}
        c = self.rng.choice(cs)
        cyc = self.path(c)
        cap = R.find_cycle_capacity(c)
        amount = self.val(self.num(cap) + 1) if p['full'] == 2 else self.val(0) if p['full'] == 3 else \
            cap if p['full'] or self.num(cap) <= 1 else self.val(1 + self.rng.randrange(self.num(cap)))
        r = self.call(g.augment_cycle, amount, c)
        return r, {'cyc': cyc, 'amount': self.num(amount), 'flow0': fl, 'flow': self.flows(g)}

    def alg_mincost(self, g, gid, p):
        """how: 0 min_cost_flow, 1 the method itself"""
        how = p['how']
        if how == 2:
            r = self.call(g.find_feasible_flow)
            inf = r[0] == 'ok' and not r[1]
        elif p['algo'] == 'cycle_canceling':
            if how == 1:
                r = self.call(g.cycle_canceling, p.get('display') or 'off')
                inf = r[0] == 'ok' and not r[1]
            else:
                r = self.call(g.min_cost_flow, algo=fresh_str('cycle_canceling'), **self.disp(p))
                inf = 'infeasible' in r[2]
        else:
            if how == 1:
                r = self.call(g.network_simplex, p.get('display') or 'off', fresh_str(p['pivot'] or 'dantzig'),
                              self.nm(p['root']))
                inf = r[0] == 'ok' and not r[1]
            else:
                kw = self.disp(p)
                if p['pivot']:
                    kw['pivot'] = fresh_str(p['pivot'])
                if p['root']:
                    kw['root'] = self.nm(p['root'])
                if p.get('explicit'):
                    kw['algo'] = fresh_str('simplex')
                r = self.call(g.min_cost_flow, **kw)
                inf = 'infeasible' in r[2]
        return r, ({'inf': 1 if inf else 0, 'flow': self.flows(g)} if r[0] == 'ok' else None)

    def alg_pagerank(self, g, gid, p):
        kw = {}
        if p['d'] != 85 or p.get('explicit'):
            kw['damping_factor'] = p['d'] / 100.0
        if p['iter']:           # 0: the defaults
            kw.update(max_iterations=p['iter'], min_delta=p['delta'])
        r = self.call(g.page_rank, **kw)
        if r[0] != 'ok':
            return r, None
        try:
            return r, {'rank': [[self.idx(k), int(round(v * 10**6))] for k, v in r[1].items()]}
        except Exception:
            return r, {'rank': [[-1, 0]]}

    def counts(self, r):
        if r[0] != 'ok':
            return r, None
        if not isinstance(r[1], dict):
            return r, {'deg': [[-1, -1]]}
        return r, {'deg': [[self.idx(k), self.small(v)] for k, v in r[1].items()]}

    def alg_degrees(self, g, gid, p):
        return self.counts(self.call(g.get_degrees))

    def alg_in_degrees(self, g, gid, p):
        return self.counts(self.call(g.get_in_degrees))

    def alg_out_degrees(self, g, gid, p):
        return self.counts(self.call(g.get_out_degrees))

    def alg_diameter(self, g, gid, p):
        r = self.call(g.get_diameter)
        return r, ({'dia': self.small(r[1])} if r[0] == 'ok' else None)

    def alg_ham(self, g, gid, p):
        kw = self.disp(p)
        pred = {}
        if p['dst']:
            kw['destination'] = self.nm(p['dst'])
        if p['pass']:
            kw['pred'] = pred
        r = self.call(g.hamiltonian, self.nm(p['src']), **kw)
        if r[0] != 'ok':
            return r, None
        return r, {'ret': 'true' if r[1] is True else 'false' if r[1] is False else 'other',
                   'pred': self.predlist(pred)}

    def alg_render(self, g, gid, p):
        def f():
            if p['how'] == 0:
                g.to_string()
            elif p['how'] == 1:
                repr(g)
            elif p['how'] == 2:
                g.write(io.BytesIO(), format='dot')
            else:
                g.display()
        return self.call(f), None


class DSet(Session):
    """gimpy.DisjointSet"""

    def links(self):
        D = self.D

        def f():
            return [[self.idx(x), [self.idx(y) for y in D.get_neighbors(x)]] for x in list(D.get_node_list())]
        r = self.call(f)
        return {'lk': r[1] if r[0] == 'ok' else [[-1, []]]}

    def out(self, op, r, **kw):
        if r[0] == 'timeout':
            self.dead = True
        ev = {'op': op, 'r': r[0], 'w': str(r[1]) if r[0] != 'ok' else '', 'obs': self.links()}
        ev.update(kw)
        self.emit(ev)

    def op_new(self, opt):
        kw = {'display': self.s['display']} if self.s.get('display') else {}
        if not opt or self.rng.random() < 0.5:
            kw['optimize'] = bool(opt)
        r = self.call(lambda: DisjointSet(**kw))
        if r[0] == 'ok':
            self.D = r[1]
        else:
            self.dead, self.D = True, None
        self.out('new', r, opt=int(opt))

    def op_add(self, l):
        items = [self.nm(i) for i in l]
        self.out('add', self.call(self.D.add, tuple(items) if self.rng.random() < 0.3 else items), l=l)

    def op_find(self, a):
        r = self.call(self.D.find, self.nm(a))
        self.out('find', r, a=a, v=self.idx(r[1]) if r[0] == 'ok' else -1)

    def op_union(self, a, b):
        r = self.call(self.D.union, self.nm(a), self.nm(b))
        self.out('union', r, a=a, b=b, v='True' if r[0] == 'ok' and r[1] else 'False')

    def op_unionroots(self, greed, a=0, b=0):
        """joins two representatives (so that nothing is compressed): those of a and b, or else deep small sets by preference"""
        L = dict((x, y[0] if y else 0) for x, y in self.links()['lk'])
        if not L or -1 in L or not set(L.values()) <= set(L) | {0}:
            return
        if a and b:
            for _ in L:
                a, b = L.get(a) or a, L.get(b) or b
            return self.op_union(a, b)
        size, deep = {}, {}
        for x in L:
            k, r = 0, x
            while L[r] and k <= len(L):
                r, k = L[r], k + 1
            size[r] = size.get(r, 0) + 1
            deep[r] = max(k, deep.get(r, 0))
        R = sorted(r for r in size if not L[r])
        if len(R) < 2:
            return
        P = [self.rng.sample(R, 2) for _ in range(8)]
        if greed:
            P.sort(key=lambda p: (-min(deep[p[0]], deep[p[1]]), size[p[0]] + size[p[1]]))
        self.op_union(*P[0])

    def op_findall(self, items):
        def f():
            return [[i, self.idx(self.D.find(self.nm(i)))] for i in items]
        r = self.call(f)
        self.out('findall', r, fs=r[1] if r[0] == 'ok' else [])


class Recorder:
    """what a traversal shows: the nodes highlighted when it displays"""
    shown = None

    def display(self, highlight=None, *a, **k):
        if self.shown is not None and highlight is not None:
            self.shown += [n.name if isinstance(n, graph_mod.Node) else n for n in highlight]


class RTree(Recorder, Tree):
    pass


class RBin(Recorder, BinaryTree):
    pass


class TreeSession(Session):
    """gimpy.Tree and BinaryTree"""

    def pobs(self):
        T = self.T

        def f():
            rows = []
            for x in list(T.get_node_list()):
                p = T.get_parent(x)
                row = [self.idx(x), 0 if p is None else self.idx(p), self.small(T.get_node_attr(x, 'level'))]
                if self.k == 'B':
                    for q in (T.get_left_child(x), T.get_right_child(x)):
                        row.append(0 if q is None else self.idx(q))
                    d = T.get_node_attr(x, 'direction')
                    row.append('-' if d is None else str(d))
                    if self.rng.random() < 0.3 and self.idx(x) > 0:    # the same, asked with the node itself
                        row[3:5] = [0 if q is None else self.idx(q) for q in
                                    (T.get_left_child(T.get_node(self.nm(self.idx(x)))), T.get_right_child(T.get_node(x)))]
                else:
                    row += [0, 0, '-']
                row.append([self.idx(y) for y in T.get_children(x)])
                rows.append(row)
            return {'x': 0, 'rows': rows, 'root': 0 if T.root is None else self.idx(T.root.name)}
        r = self.call(f)
        return r[1] if r[0] == 'ok' else {'x': 1, 'rows': [], 'root': 0, 'w': str(r[1])}

    def out(self, op, r, obs=True, **kw):
        if r[0] == 'timeout':
            self.dead = True
        ev = {'op': op, 'r': r[0], 'w': str(r[1]) if r[0] != 'ok' else ''}
        if obs:
            ev['obs'] = self.pobs()
        ev.update(kw)
        self.emit(ev)

    def op_new(self, k):
        kw = {'display': self.s['display']} if self.s.get('display') else {}
        self.k = k
        r = self.call(lambda: (RTree if k == 'T' else RBin)(**kw))
        if r[0] == 'ok':
            self.T = r[1]
        else:
            self.dead, self.T = True, None
        self.out('new', r, obs=False, k=k)

    def op_add_root(self, a, at=()):
        self.out('add_root', self.call(lambda: self.T.add_root(self.nm(a), **self.at(at))), a=a)

    def op_add_child(self, a, b, side, at=()):
        T = self.T
        f = {'-': T.add_child, 'L': getattr(T, 'add_left_child', None), 'R': getattr(T, 'add_right_child', None)}[side]
        self.out('add_child', self.call(lambda: f(self.nm(a), self.nm(b), **self.at(at))), a=a, b=b, side=side)

    def op_del_leaf(self, a):
        self.out('del_leaf', self.call(lambda: self.T.del_node(self.nm(a))), a=a)

    def op_traverse(self, how, root, first, via, mode):
        """via: 0 dfs and bfs, 1 traverse with a stack or queue, 2 traverse with the default"""
        T = self.T
        kw = {}
        if root:
            kw['root'] = self.nm(root)
        if mode:
            kw['display'] = mode
        if self.k == 'B' and (first == 'R' or self.rng.random() < 0.5):
            kw['priority'] = fresh_str(first)
        if via:
            f = T.traverse
            if via == 1 or how == 'bfs':
                kw['q'] = Stack() if how == 'dfs' else Queue()
        else:
            f = T.dfs if how == 'dfs' else T.bfs
        T.shown = []
        r = self.call(lambda: f(**kw))
        o = [self.idx(x) for x in T.shown]
        T.shown = None
        self.out('traverse', r, how=how, root=root, first=first, out=o)

    def op_print_nodes(self, how, root, first, mode):
        T = self.T
        names = {}
        for i in range(1, self.K + 1):
            if T.get_node(self.nm(i)) is not None:
                t = str(self.nm(i))
                if t in names or '\n' in t:
                    return
                names[t] = i
        kw = {}
        if root:
            kw['root'] = self.nm(root)
        if mode:
            kw['display'] = mode
        if how != 'in' or self.rng.random() < 0.5:
            kw['order'] = fresh_str(how)
        if first == 'R' or self.rng.random() < 0.5:
            kw['priority'] = fresh_str(first)
        r = self.call(lambda: T.print_nodes(**kw))
        o = [names.get(x, -1) for x in r[2].split('\n')[:-1]] if r[0] == 'ok' else []
        self.out('print_nodes', r, how=how, root=root, first=first, out=o)

    # expressions ------------------------------------------------------------------
    def op_expr(self, e, order, how):
        """how: position -> 'name', 'label', 'int'"""
        self.pos, self.how, self.count = {}, dict((tuple(p), h) for p, h in how), 0
        kw = {'display': self.s['display']} if self.s.get('display') else {}
        self.k = 'B'

        def f():
            self.T = RBin(**kw)
            for p in order:
                self.place(tuple(p), self.sub(e, p)[:2])
        r = self.call(f)
        self.dead = r[0] != 'ok'
        self.out('expr', r, obs=False, e=e)

    def sub(self, e, p):
        for i in p:
            e = e[i - 1]
        return e

    def place(self, p, x):
        T = self.T
        how = self.how.get(p, 'label')
        val = x[0] if x[0] != 'n' else x[1] if how.startswith('int') else fresh_str(str(x[1]))
        have = list(T.get_node_list())
        at = {}
        if how.endswith('name') and val not in have:
            name = val
        else:
            while True:
                self.count += 1
                name = self.nm(self.count)
                if name not in have and not (isinstance(name, tuple) and False):
                    break
            at['label'] = val
        self.pos[p] = name
        if not p:
            T.add_root(name, **at)
        else:
            (T.add_left_child if p[-1] == 2 else T.add_right_child)(name, self.pos[p[:-1]], **at)

    def op_put(self, e, pos, i, via):
        """a leaf gets another value: 0 as label, 1 by deleting and adding it"""
        p = tuple(pos)

        def f():
            T = self.T
            if via and p:
                T.del_node(self.pos[p])
                self.place(p, ['n', i])
            else:
                T.set_node_attr(self.pos[p], 'label', fresh_str(str(i)) if self.rng.random() < 0.5 else i)
        r = self.call(f)
        self.dead = r[0] != 'ok'
        self.out('put', r, obs=False, pos=pos, e=['n', i])

    def op_eval(self, pos, mode):
        kw = {'root': self.pos[tuple(pos)]} if pos or self.rng.random() < 0.2 else {}
        if mode:
            kw['display'] = mode
        r = self.call(lambda: self.T.postordereval(**kw))
        self.out('eval', r, obs=False, pos=pos, v=self.rat(r[1]) if r[0] == 'ok' else [0, 0])

    def rat(self, x):
        try:
            if isinstance(x, bool):
                return [0, 0]
            q = Fraction(x).limit_denominator(100000)
            if abs(float(q) - x) > 1e-9 * max(1, abs(x)) or abs(q.numerator) > 10**9:
                return [0, 0]
            return [q.numerator, q.denominator]
        except Exception:
            return [0, 0]

    def op_printexp(self, pos, mode):
        kw = {'root': self.pos[tuple(pos)]} if pos or self.rng.random() < 0.2 else {}
        if mode:
            kw['display'] = mode
        r = self.call(lambda: self.T.printexp(**kw))
        toks, prev = [], '('
        for m in re.finditer(r'[()]|[-+*/]|\d+|[^\s()]+', r[2]):
            t = m.group()
            if t.isdigit() and toks and toks[-1] == '-' and (len(toks) < 2 or toks[-2] in '(+-*/'):
                toks[-1] = '-' + t      # a sign, not an operator
            else:
                toks.append(t)
        self.out('printexp', r, obs=False, pos=pos, v=toks)


class DotSession(Session):
    """DOT texts and clusters; names, keys and values are given by the session"""

    def __init__(self, s, emit):
        super().__init__(s, emit)
        self.tab = {k: [self.obj(x) for x in s[k]] for k in ('names', 'keys', 'values')}
        self.passed, self.shared, self.mine, self.used = [], {}, {}, {}
        txt = lambda l: [[ord(c) for c in str(x)] for x in l]           # noqa: E731
        self.emit({'op': 'tables', 'nm': txt(self.tab['names']), 'ks': txt(self.tab['keys']),
                   'vs': txt(self.tab['values']), 'gz': s['gz']})

    def obj(self, x):
        if isinstance(x, list):
            return tuple(self.obj(y) for y in x)
        return fresh_str(x) if isinstance(x, str) else x

    def nm(self, i):
        x = self.tab['names'][i - 1]
        return fresh_str(x) if isinstance(x, str) else x

    def at(self, l):
        return {fresh_str(self.tab['keys'][x - 1]): None if v == NA else self.tab['values'][v - 1] for x, v in l}

    def arg(self, kind, content, share):
        """a dictionary or list to pass, perhaps one passed before, perhaps with other content (2)"""
        if share == 2:
            o = self.mine.setdefault(kind, type(content)())
            o.clear()
            (o.extend if isinstance(o, list) else o.update)(content)
            self.passed = [p for p in self.passed if p[0] is not o] + [(o, copy.deepcopy(o))]
            return o
        key = kind + repr(content)
        if share and key in self.shared:
            return self.shared[key]
        self.shared[key] = content
        self.passed.append((content, copy.deepcopy(content)))
        return content

    def out(self, op, gid, r, **kw):
        if r[0] == 'timeout':
            self.dead = True
        ev = {'op': op, 'g': gid, 'r': r[0], 'w': str(r[1]) if r[0] != 'ok' else '',
              'args': sum(a != b or (isinstance(a, dict) and list(a) != list(b)) for a, b in self.passed)}
        ev.update(kw)
        self.emit(ev)

    def op_new(self, gid, kind, name, at):
        kw = self.at(at)
        cls = {'T': Tree, 'B': BinaryTree}.get(kind, Graph)
        if cls is not Graph:
            kind = 'D'
            self.used.setdefault(gid, set()).update(TREE)
        elif kind == 'D':
            kw['type'] = DIRECTED_GRAPH
        elif kind == 'U' and self.rng.random() < 0.7:
            kw['type'] = UNDIRECTED_GRAPH
        if name is not None:
            kw['name'] = self.obj(name)
        if self.s.get('display'):
            kw['display'] = self.s['display']
        r = self.call(lambda: cls(**kw))
        if r[0] == 'ok':
            self.graphs[gid] = r[1]
        else:
            self.dead = True
        self.out('new', gid, r, t=kind, at=at, name=[ord(c) for c in str('G' if name is None else self.obj(name))])

    def op_add_node(self, gid, a, at):
        self.out('add_node', gid, self.call(lambda: self.graphs[gid].add_node(self.nm(a), **self.at(at))), a=a, at=at)

    def op_del_node(self, gid, a):
        self.out('del_node', gid, self.call(self.graphs[gid].del_node, self.nm(a)), a=a)

    def op_add_edge(self, gid, a, b, at):
        self.out('add_edge', gid, self.call(lambda: self.graphs[gid].add_edge(self.nm(a), self.nm(b), **self.at(at))), a=a, b=b, at=at)

    def op_del_edge(self, gid, a, b):
        self.out('del_edge', gid, self.call(self.graphs[gid].del_edge, (self.nm(a), self.nm(b))), a=a, b=b)

    def op_set_node(self, gid, a, x, v):
        k, w = self.tab['keys'][x - 1], self.tab['values'][v - 1]
        self.out('set_node', gid, self.call(self.graphs[gid].set_node_attr, self.nm(a), k, w), a=a, x=x, v=v)

    def op_set_edge(self, gid, a, b, x, v):
        k, w = self.tab['keys'][x - 1], self.tab['values'][v - 1]
        self.out('set_edge', gid, self.call(self.graphs[gid].set_edge_attr, self.nm(a), self.nm(b), k, w), a=a, b=b, x=x, v=v)

    def op_set_layout(self, gid, x, v):
        self.out('set_layout', gid, self.call(self.graphs[gid].set_layout, self.tab['values'][v - 1]), x=x, v=v)

    def op_cluster(self, gid, nodes, at, na, cn, share):
        d = self.at(at)
        if cn:
            d['name'] = self.obj(self.s['cnames'][cn - 1])
        nl = self.arg('n', [self.nm(n) for n in nodes], share)
        args, kw = [nl], {}
        e = self.at(na)
        if d or e or share or self.rng.random() < 0.3:
            d = self.arg('c', d, share)
            if self.rng.random() < 0.5:
                args.append(d)
            else:
                kw['cluster_attrs'] = d
        if e or share or self.rng.random() < 0.3:
            e = self.arg('a', e, share)
            if len(args) > 1 and self.rng.random() < 0.5:
                args.append(e)
            else:
                kw['node_attrs'] = e
        r = self.call(lambda: self.graphs[gid].create_cluster(*args, **kw))
        self.out('cluster', gid, r, n=nodes, at=at, na=na, cn=cn)

    def op_render(self, gid, how=0):
        g = self.graphs[gid]

        def f():
            if how == 0:
                return g.to_string()
            if how == 3:            # displayed into a file
                old = g.attr.get('display')
                g.set_display_mode('file')
                g.display(basename='shown', format='dot')
                g.set_display_mode(old)
                with open('shown.dot', 'rb') as fo:
                    return fo.read().decode('utf-8')
            b = io.BytesIO()
            if how == 1:
                g.write(b, format='dot')
            else:
                g.write(b, 'dot', 'dot')
            return b.getvalue().decode('utf-8')
        r = self.call(f)
        text = r[1] if r[0] == 'ok' else ''
        ob = self.observed(gid)
        if ob is not None:
            self.out('render', gid, r, text=[ord(c) for c in text] if isinstance(text, str) else [0], **ob)

    def observed(self, gid):
        """what the object says about attributes that algorithms or trees have set"""
        wk = sorted(self.used.get(gid, ()))
        ob = {'wk': [codes(k) for k in wk], 'on': [], 'oe': []}
        if not wk:
            return ob
        g = self.graphs[gid]
        N = self.nodes(gid)
        r = self.call(lambda: ([(a, [(k, g.get_node_attr(self.nm(a), k)) for k in wk]) for a in N],
                               [(a, b, [(k, g.get_edge_attr(self.nm(a), self.nm(b), k)) for k in wk]) for a in N for b in N
                                if g.check_edge(self.nm(a), self.nm(b))]))
        if r[0] != 'ok':
            return None
        put = lambda l: [[codes(k), codes(v)] for k, v in l if v is not None]        # noqa: E731
        ob['on'] = [[a, put(l)] for a, l in r[1][0]]
        ob['oe'] = [[a, b, put(l)] for a, b, l in r[1][1]]
        return ob

    def nodes(self, gid):
        r = self.call(self.graphs[gid].get_node_list)
        if r[0] != 'ok':
            return []
        return [i for i in range(1, len(self.tab['names']) + 1) if self.nm(i) in r[1]]

    def op_root(self, gid, a, at):
        self.out('add_node', gid, self.call(lambda: self.graphs[gid].add_root(self.nm(a), **self.at(at))), a=a, at=at)

    def op_child(self, gid, a, b, side, at):
        g = self.graphs[gid]
        f = {'L': 'add_left_child', 'R': 'add_right_child'}.get(side, 'add_child')
        r = self.call(lambda: getattr(g, f)(self.nm(a), self.nm(b), **self.at(at)))
        self.out('add_node', gid, r, a=a, at=at)
        self.out('add_edge', gid, r, a=b, b=a, at=[])

    def op_alg(self, gid, what, a, b):
        """run an algorithm; what it says is judged elsewhere"""
        g = self.graphs[gid]
        self.used.setdefault(gid, set()).update(WORK + ['cost', 'capacity', 'demand'])
        x, y = self.nm(a), self.nm(b)

        def weigh():
            for i in self.nodes(gid):
                for j in self.nodes(gid):
                    if g.check_edge(self.nm(i), self.nm(j)):
                        g.set_edge_attr(self.nm(i), self.nm(j), 'cost', self.rng.randint(1, 9))
                        g.set_edge_attr(self.nm(i), self.nm(j), 'capacity', self.rng.randint(0, 5))
        r = self.call({'weigh': weigh,
                       'bfs': lambda: g.search(x, algo='BFS', display='off'),
                       'deep': lambda: g.search(x, algo='DFS', display='off'),
                       'path': lambda: g.search(x, destination=y, algo='Dijkstra', display='off'),
                       'label': lambda: g.label_components(display='off'),
                       'dfs': lambda: g.dfs(x, display='off'),
                       'strong': g.label_strong_component, 'tarjan': g.tarjan,
                       'prim': lambda: g.minimum_spanning_tree_prim(x, display='off'),
                       'kruskal': lambda: g.minimum_spanning_tree_kruskal(display='off'),
                       'preflow': lambda: g.max_flow_preflowpush(x, y, display='off'),
                       'flow': lambda: g.max_flow(x, y, algo='BFS', display='off'),
                       'fw': g.floyd_warshall,
                       'walk': lambda: (g.dfs(display='off') if isinstance(g, Tree) else None)}[what])
        self.out('alg', gid, r)


class RandomSession(Session):
    """Graph.random"""
    SOME = ('height', 'width', 'fixedsize', 'fontsize', 'fontcolor', 'shape', 'color', 'flow', 'capacity', 'x', 'note', 'w', 'demand')

    def made(self, q, seed, formats):
        g = Graph(type=DIRECTED_GRAPH if q['t'] == 'D' else UNDIRECTED_GRAPH)
        kw = {'numnodes': q['N'], 'seedInput': seed}
        if q['N'] == 10 and self.rng.random() < 0.5:
            del kw['numnodes']
        if seed == 0 and self.rng.random() < 0.5:
            del kw['seedInput']
        if q['mode'] == 'density':
            kw['density'] = q['d'] / 100.0 if q['d'] % 100 or self.rng.random() < 0.5 else q['d'] // 100
            if self.rng.random() < 0.3:
                kw['degree_range'] = (1, 2)
        elif (q['lo'], q['hi']) != (2, 4) or self.rng.random() < 0.5:
            kw['degree_range'] = (q['lo'], q['hi'])
        if q['lr'] != [1, 10] or self.rng.random() < 0.5:
            kw['length_range'] = tuple(q['lr']) if q['lr'] else None
        if not q['lab'] or self.rng.random() < 0.5:
            kw['add_labels'] = bool(q['lab'])
        if q['par'] or self.rng.random() < 0.5:
            kw['parallel_allowed'] = bool(q['par'])
        if q['eu']:
            kw['Euclidean'] = True
            if q['sc'] != 10 or self.rng.random() < 0.5:
                kw['scale'] = q['sc']
            if q['scc'] != 5 or self.rng.random() < 0.5:
                kw['scale_cost'] = q['scc']
            if q['sel'] != 'closest' or self.rng.random() < 0.5:
                kw['node_selection'] = fresh_str(q['sel'])
        nf, ef = copy.deepcopy(formats)
        if nf is not None:
            kw['node_format'] = nf
        if ef is not None:
            kw['edge_format'] = ef
        for _ in range(self.rng.randint(0, 3)):     # what was drawn before must not matter
            random.random()
        r = self.call(lambda: g.random(**kw))
        o = {'r': r[0], 'n': [], 'e': [], 'xy': [], 'x': [], 'att': 0, 'args': 0, 'own': 0}
        if r[0] != 'ok':
            o['w'] = str(r[1])
            return o
        try:
            nl, el = list(g.get_node_list()), list(g.get_edge_list())
            o['n'] = [n if type(n) is int else -1 for n in nl]
            for a, b in el:
                c = self.attr(g, a, b, 'cost')
                t = self.attr(g, a, b, 'label')
                o['e'].append([a, b, self.small(c), NA if t is None else int(t) if isinstance(t, str) and t == str(c) else BAD])
            if q['t'] == 'U':
                o['e'] = [sorted(e[:2]) + e[2:] for e in o['e']]
            if q['eu']:
                xs = [(g.get_node_attr(n, 'locationx'), g.get_node_attr(n, 'locationy'), g.get_node_attr(n, 'pos')) for n in sorted(nl)]
                o['xy'] = [[int(round(100 * x)), int(round(100 * y))] for x, y, _ in xs]
                o['x'] = [repr(x) for x in xs]
            nf0, ef0 = ({} if f is None else dict({k: None for k in self.SOME}, **f) for f in formats)
            o['att'] = int(all(g.get_node_attr(n, k) == v for n in nl for k, v in nf0.items()) and
                           all(self.attr(g, a, b, k) == v for a, b in el for k, v in ef0.items()))
            o['args'] = int([nf, ef] == list(formats))
            # adjacency, and attributes of its own for every element
            und = q['t'] == 'U'
            views = all(sorted(g.get_neighbors(n)) == sorted([b for a, b in el if a == n] + ([a for a, b in el if b == n] if und else []))
                        and (und or sorted(g.get_in_neighbors(n)) == sorted(a for a, b in el if b == n)) for n in nl)
            own = True
            if nl:
                m = self.rng.choice(nl)
                g.set_node_attr(m, 'zz', 5)
                own = all(g.get_node_attr(n, 'zz') == (5 if n == m else None) for n in nl)
            if el:
                f = self.rng.choice(el)
                g.set_edge_attr(f[0], f[1], 'zz', 5)
                own = own and all(self.attr(g, a, b, 'zz') == (5 if (a, b) == f else None) for a, b in el)
            o['own'] = int(views and own)
        except Exception as e:
            o.update(r='raise', w='reading the graph: %s' % e)
        return o

    def attr(self, g, a, b, k):
        try:
            return g.get_edge_attr(a, b, k)
        except KeyError:
            return None

    def op_random(self, q, seeds, formats, rich):
        runs = [self.made(q, s, formats) for s in seeds]
        bad = [r for r in runs if r['r'] != 'ok']
        self.emit({'op': 'random', 'p': q, 'seeds': [str(s) for s in seeds], 'runs': runs, 'rich': rich,
                   'r': bad[0]['r'] if bad else 'ok', 'w': bad[0].get('w', '') if bad else ''})


class ShowSession(DotSession):
    """which pictures are drawn: the programs of Graphviz are replaced by one that keeps what it is given"""
    PROGRAM = """#!/bin/sh
f=
{
printf '\\036%s' "${0##*/}"
for a do
    if [ -f "$a" ]; then f=$a; else printf '\\037%s' "$a"; fi
done
printf '\\035'
cat $f | tee shown.last
} >> shown.log
echo "picture $(wc -l < shown.log)"
cat shown.last
"""
    NAMES = ('dot', 'neato', 'fdp', 'circo', 'twopi', 'sfdp')

    def __init__(self, s, emit):
        s.setdefault('keys', [])
        s.setdefault('values', [])
        s.setdefault('gz', [])
        s.setdefault('cnames', [])
        super().__init__(s, emit)
        self.dir = os.path.abspath('programs')
        if not os.path.isdir(self.dir):
            os.makedirs(self.dir)
            for n in self.NAMES:
                with open(os.path.join(self.dir, n), 'w') as f:
                    f.write(self.PROGRAM)
                os.chmod(os.path.join(self.dir, n), 0o755)
            os.environ['PATH'] = self.dir + os.pathsep + os.environ['PATH']
            with open(os.path.join(self.dir, 'failing'), 'w') as f:
                f.write('#!/bin/sh\nexit 1\n')
            os.chmod(os.path.join(self.dir, 'failing'), 0o755)
            os.makedirs('temporary')
            os.environ['TMPDIR'] = tempfile.tempdir = os.path.abspath('temporary')
        self.modes = {}

    def run(self):
        if CREATE is not None:
            Graph.create = CREATE
        try:
            super().run()
        finally:
            Graph.create = NOTHING

    # what Graphviz was given since the last time
    def clear(self):
        del WINDOWS[:]
        for f in ['temporary/' + t for t in os.listdir('temporary')] + ['shown.log', 'shown.last', 'graph.png', 'mine.png', 'mine.svg', 'graph.svg']:
            if os.path.exists(f):
                os.remove(f)

    def shown(self):
        """-> [(program, arguments, text)]"""
        try:
            with open('shown.log', 'rb') as f:
                t = f.read().decode('utf-8', 'replace')
        except OSError:
            return []
        out = []
        for x in t.split('\x1e')[1:]:
            h, text = x.split('\x1d', 1)
            h = h.split('\x1f')
            out.append((h[0], h[1:], text))
        return out

    def pictures(self, own, all_=False, file=None, fmt='png'):
        """what the event says about the pictures; own: what the text of this graph begins with"""
        pics = self.shown() + [('xdot', [], data.decode('utf-8', 'replace')) for kind, data in WINDOWS if kind == 'xdot']
        mine = [p for p in pics if own in p[2][:60].replace('"', '').split()[:3]]
        pick = mine
        if not all_ and len(mine) > 2:
            pick = [self.rng.choice(mine[:-1]), mine[-1]]
        ev = {'count': len(pics), 'own': len(mine), 'texts': [[ord(c) for c in p[2]] for p in pick],
              'progs': sorted({p[0] for p in mine} - {'xdot'}), 'fmts': sorted({a[2:] for p in mine for a in p[1] if a[:2] == '-T'}), 'fmt': fmt,
              'file': '', 'last': '', 'left': len(os.listdir('temporary')), 'wins': []}
        for kind, data in WINDOWS:
            text = data.decode('utf-8', 'replace')
            if kind != 'xdot':
                text = text.split('\n', 1)[-1]
            k = len(ev['wins'])
            ev['wins'].append([kind, k + 1 if pics[k:] and pics[k][2] == text else 0])
        if file is not None and pics:
            try:
                with open(file, 'rb') as f:
                    got = f.read().decode('utf-8', 'replace')
            except OSError:
                got = 'no file'
            ev['file'] = got.split('\n', 1)[-1] if got.startswith('picture ') else 'not the picture: ' + got[:40]
            ev['last'] = pics[-1][2]
        return ev

    def dump(self, g, colors=True):
        def f():
            out = []
            keys = WORK + TREE + ['cost', 'capacity', 'demand']
            if not colors:
                keys = [k for k in keys if k != 'color']
            for n in list(g.get_node_list()):
                out.append([repr(n), [[k, repr(v)] for k in keys for v in [g.get_node_attr(n, k)] if v is not None],
                            repr(list(g.get_neighbors(n)))])
            keys = WORK + ['cost', 'capacity']
            for a, b in list(g.get_edge_list()):
                at = []
                for k in keys:
                    try:
                        at.append([k, repr(g.get_edge_attr(a, b, k))])
                    except KeyError:
                        pass
                out.append([repr(a), repr(b), at])
            return json.dumps(out)
        r = self.call(f)
        return r[1] if r[0] == 'ok' else 'not readable: %s' % r[1]

    def name(self, gid):
        return 'mine%d' % gid

    def out(self, op, gid, r, **kw):
        super().out(op, gid, r, **kw)

    def op_new(self, gid, kind, mode, layout):
        cls = {'T': Tree, 'B': BinaryTree}.get(kind, Graph)
        kw = {'name': self.name(gid)}
        if cls is not Graph:
            kind = 'D'
        elif kind == 'D':
            kw['type'] = DIRECTED_GRAPH
        else:
            kw['type'] = UNDIRECTED_GRAPH
        if mode:
            kw['display'] = fresh_str(mode)
        if layout:
            kw['layout'] = fresh_str(layout)
        r = self.call(lambda: cls(**kw))
        after, lay = '', ''
        if r[0] == 'ok':
            self.graphs[gid] = r[1]
            after, lay = str(r[1].attr.get('display')), str(r[1].get_layout())
        else:
            self.dead = True
        self.out('new', gid, r, t=kind, mode=mode or 'off', lay=layout or lay, haslay=lay, after=after)

    def op_mode(self, gid, m):
        g = self.graphs[gid]
        r = self.call(g.set_display_mode, fresh_str(m))
        self.out('mode', gid, r, m=m, after=str(g.attr.get('display')))

    def op_lay(self, gid, v):
        g = self.graphs[gid]
        r = self.call(g.set_layout, fresh_str(v))
        self.out('set_layout', gid, r, v=v, lay=str(g.get_layout()))

    def op_weigh(self, gid, caps):
        g = self.graphs[gid]
        N = self.nodes(gid)

        def f():
            for i in N:
                g.set_node_attr(self.nm(i), 'demand', 0)
            for i in N:
                for j in N:
                    if g.check_edge(self.nm(i), self.nm(j)):
                        g.set_edge_attr(self.nm(i), self.nm(j), 'cost', self.rng.randint(0, 9))
                        if caps:
                            c, q = self.rng.randint(1, 5), self.rng.randint(0, 2)
                            g.set_edge_attr(self.nm(i), self.nm(j), 'capacity', c)
                            q = min(q, c)
                            g.set_node_attr(self.nm(i), 'demand', g.get_node_attr(self.nm(i), 'demand') + q)
                            g.set_node_attr(self.nm(j), 'demand', g.get_node_attr(self.nm(j), 'demand') - q)
        self.out('weigh', gid, self.call(f))

    def algorithm(self, g, what, a, b, arg):
        """-> function of no arguments"""
        kw = {} if arg is None else {'display': fresh_str(arg)}
        x, y = (self.nm(i) if i else None for i in (a, b))
        if what in ('dfs_t', 'bfs_t', 'traverse_s', 'traverse_q', 'pre', 'in', 'post', 'exp'):
            if a:
                kw['root'] = x
            if what[:3] == 'tra':
                kw['q'] = Stack() if what[-1] == 's' else Queue()
            if what in ('pre', 'in', 'post'):
                kw['order'] = what
            f = {'dfs_t': 'dfs', 'bfs_t': 'bfs', 'exp': 'printexp'}.get(what, 'traverse' if what[:3] == 'tra' else 'print_nodes')
            return lambda: getattr(g, f)(**kw)
        m = arg if arg is not None else g.attr.get('display')
        return {'BFS': lambda: g.search(x, algo='BFS', **kw), 'DFS': lambda: g.search(x, **kw),
                'Dijkstra': lambda: g.search(x, algo='Dijkstra', **kw), 'Prim': lambda: g.search(x, algo='Prim', **kw),
                'path': lambda: g.search(x, destination=y, algo='UnweightedSPT', **kw),
                'cheapest': lambda: g.search(x, destination=y, algo='Dijkstra', **kw),
                'back': lambda: g.search(x, algo='BFS', reverse=True, **kw),
                'bfs': lambda: g.bfs(x, **kw), 'label': lambda: g.label_components(**kw), 'dfs': lambda: g.dfs(x, **kw),
                'ham': lambda: g.hamiltonian(x, **kw), 'hamto': lambda: g.hamiltonian(x, y, **kw),
                'prim': lambda: g.minimum_spanning_tree_prim(x, **kw), 'kruskal': lambda: g.minimum_spanning_tree_kruskal(**kw),
                'maxflow': lambda: g.max_flow(x, y, **kw), 'maxflowb': lambda: g.max_flow(x, y, algo='BFS', **kw),
                'fifo': lambda: g.max_flow_preflowpush(x, y, **kw), 'sap': lambda: g.max_flow_preflowpush(x, y, algo='SAP', **kw),
                'highest': lambda: g.max_flow_preflowpush(x, y, algo='HighestLabel', **kw),
                'simplex': lambda: g.min_cost_flow(**kw), 'cycle': lambda: g.min_cost_flow(algo='cycle_canceling', **kw),
                'nsimplex': lambda: g.network_simplex(m, 'dantzig', x)}[what]

    def op_show(self, gid, what, a, b, arg, walk=0):
        g = self.graphs[gid]
        twin = copy.deepcopy(g)
        mode = arg or str(g.attr.get('display'))
        tree = what in ('dfs_t', 'bfs_t', 'traverse_s', 'traverse_q', 'pre', 'in', 'post', 'exp')    # these highlight
        self.clear()
        r = self.call(self.algorithm(g, what, a, b, arg))
        ev = self.pictures(self.name(gid), bool(walk), 'graph.png' if mode == 'file' else None)
        twin.set_display_mode('off')
        q = self.call(self.algorithm(twin, what, a, b, 'off'))
        self.out('show', gid, r, what=what, arg=arg or 'none', walk=walk, after=str(g.attr.get('display')), rq=q[0],
                 res=repr(r[1]) if r[0] == 'ok' else '', resq=repr(q[1]) if q[0] == 'ok' else '', said=r[2], saidq=q[2],
                 dump=self.dump(g, not tree), dumpq=self.dump(twin, not tree), solved=int('infeasible' not in q[2] and q[1] is not False), **ev)

    def op_highlight(self, gid, h, how):
        g = self.graphs[gid]
        before = self.dump(g)
        mode = str(g.attr.get('display'))
        self.clear()
        kw = {}
        if how % 2:
            kw['basename'] = 'mine'
        if how // 2 % 2:
            kw['format'] = 'svg'
        if how // 4 % 2:
            kw['wait_for_click'] = False

        def f():
            g.display(**kw)
            g.display([g.get_node(self.nm(i)) if self.rng.random() < 0.3 else self.nm(i) for i in h], **kw)
            g.display(**kw)
        r = self.call(f)
        ev = self.pictures(self.name(gid), True, None if mode != 'file' else '%s.%s' % (kw.get('basename', 'graph'), kw.get('format', 'png')), kw.get('format', 'png'))
        self.out('highlight', gid, r, what='display', h=h, after=str(g.attr.get('display')), dump=self.dump(g), dumpq=before, **ev)

    def op_write(self, gid, layout, fmt):
        g = self.graphs[gid]
        before = self.dump(g)
        self.clear()

        def f():
            with open('mine.png', 'wb') as fo:
                args = [fo] + ([layout] if layout else [])
                g.write(*args, **({'format': fmt} if fmt != 'png' or self.rng.random() < 0.5 else {}))
        r = self.call(f)
        ev = self.pictures(self.name(gid), True, 'mine.png', fmt)
        self.out('write', gid, r, what='write', lay=layout or '', after=str(g.attr.get('display')), dump=self.dump(g), dumpq=before, **ev)


def main():
    global CREATE
    src, dst = sys.argv[1:3]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    # displays are not shown: the pictures that would be drawn are empty
    if hasattr(Graph, 'create'):
        CREATE = Graph.create
        Graph.create = NOTHING
    timeouts = 0
    with open(src) as fi, open(dst, 'w') as fo:
        def emit(ev):
            nonlocal timeouts
            if ev.get('r') == 'timeout':
                timeouts += 1
            fo.write(json.dumps(ev, separators=(',', ':')))
            fo.write('\n')
        for line in fi:
            s = json.loads(line)
            if timeouts >= 3 or HANGS >= 4:
                break
            cls = KINDS[s['kind']]
            cls(s, emit).run()


CREATE = None
NOTHING = lambda self, *a, **k: b''             # noqa: E731
KINDS = {'graph': Session, 'dset': DSet, 'tree': TreeSession, 'dot': DotSession, 'random': RandomSession, 'show': ShowSession}

if __name__ == '__main__':
    main()
