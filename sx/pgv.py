"""Stand-in for pygraphviz: records nodes and edges as pygraphviz keeps them (a strict graph has one edge per pair of nodes)."""
import sys
import types


class AGraph(object):
    def __init__(self, thing=None, strict=True, directed=False, **k):
        self.strict, self.directed = strict, directed
        self.node_list = []   # [name, attributes]
        self.edge_list = []   # [from, to, attributes]
        self.calls = []

    def find(self, n):
        for x in self.node_list:
            if x[0] == n:
                return x

    def add_node(self, n, **attr):
        x = self.find(n)
        if x is None:
            x = [n, {}]
            self.node_list.append(x)
        x[1].update(attr)

    def add_edge(self, u, v=None, key=None, **attr):
        if v is None:
            u, v = u[:2]
        for n in (u, v):
            if self.find(n) is None:
                self.add_node(n)
        u, v = self.find(u), self.find(v)
        if self.strict:
            for e in self.edge_list:
                if e[0] is u and e[1] is v:
                    e[2].update(attr)
                    return
        self.edge_list.append([u, v, dict(attr)])

    def nodes(self): return [x[0] for x in self.node_list]

    def edges(self): return [(e[0][0], e[1][0]) for e in self.edge_list]

    def has_node(self, n): return self.find(n) is not None

    def write(self, *a, **k): self.calls.append('write')

    def layout(self, *a, **k): self.calls.append('layout')

    def draw(self, *a, **k): self.calls.append('draw')


def install():
    m = types.ModuleType('pygraphviz')
    m.AGraph = AGraph
    sys.modules['pygraphviz'] = m
