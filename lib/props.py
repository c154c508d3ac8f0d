"""What each check runs."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, models                                              # noqa: E402

MUT = ('add_node', 'del_node', 'add_edge', 'del_edge', 'set_node', 'set_edge', 'del_nodes', 'del_edges', 'scribble', 'new', 'make')
OPS = {'C19': ('add_root', 'add_child', 'del_leaf'), 'C20': ('traverse', 'print_nodes'), 'C21': ('eval', 'printexp'),
       'C22': ('render',), 'C23': ('render', 'cluster', 'del_node'),
       'C01': MUT, 'C02': MUT + ('label_components', 'residual', 'fw'), 'C03': MUT,
       'C04': ('search', 'bfs'), 'C05': ('search',), 'C06': ('search',), 'C07': ('prim', 'kruskal', 'search'),
       'C08': ('label_components',), 'C09': ('strong', 'kosaraju'), 'C10': ('dfs',), 'C11': ('maxflow',),
       'C12': ('maxflow',), 'C13': ('mincost',), 'C14': ('mincost',), 'C15': ('fw', 'negcycle'), 'C16': ('fifo',),
       'C17': ('acyclic',), 'C24': ('degrees', 'in_degrees', 'out_degrees', 'diameter'), 'C25': ('pagerank',),
       'C26': ('ham',), 'C29': ('residual', 'cyclecap', 'augment', 'basis'), 'C31': ('show', 'highlight', 'write', 'mode')}
TRACE = {'C18': 'TraceDSet', 'C19': 'TraceTree', 'C20': 'TraceTree', 'C21': 'TraceTree', 'C22': 'TraceDot', 'C23': 'TraceDot', 'C27': 'TraceRandom', 'C30': 'TraceTwice', 'C31': 'TraceShow'}
COUNT = {'C31': 1600, 'C30': 3000, 'C01': 2500, 'C02': 2500, 'C03': 2500}

TRUST = ['the harness (driver.py) reads the public query methods of GiMPy and translates names and numbers',
         'TLC evaluates the specification correctly',
         'CPython, coinor.blimpy and the file system behave']


class Prop:
    def __init__(self, pid):
        self.pid = pid
        self.assumptions = TRUST

    def judged(self, ev):
        o = OPS.get(self.pid)
        return o is None or ev['op'] in o

    def random(self, tier, seed, scale):
        n = int(COUNT.get(self.pid, 4000) * scale * (8 if tier == 'thorough' else 1))
        yield TRACE.get(self.pid, 'TraceGraph'), gen.sessions(self.pid, n, seed, tier)

    def models(self, tier):
        return models.models(self.pid, tier)


def get(pid):
    return Prop(pid)
