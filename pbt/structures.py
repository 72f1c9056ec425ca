"""Multi-panel structures as plain data, and nested ply-drop layouts."""
import numpy as np
from hypothesis import strategies as st
from pbt import gen


@st.composite
def panel_graphs(draw, sym, min_panels=1, max_panels=6, ply_counts=None,
                 lo=4, hi=24, odd=False, weights=True):
    """connected panels with ply counts (possibly repeated, in any order)"""
    n = draw(st.sampled_from(
        list(range(min_panels, max_panels + 1))*2 + [max_panels]))
    ids = draw(st.lists(st.integers(1, draw(
        st.sampled_from([30, 30, 30, 12345]))), min_size=n, max_size=n,
        unique=True))
    if ply_counts is None:
        step = 1 if (odd or not sym) else 2
        base = st.integers(lo//step, hi//step).map(lambda k: k*step)
        size = draw(st.sampled_from([2, 3, 4, 1, 3, 8]))
        size = min(size, hi//step - lo//step + 1)
        pool = draw(st.lists(base, min_size=size, max_size=size, unique=True))
        plies = [draw(st.sampled_from(pool)) for _ in range(n)]
    else:
        plies = list(ply_counts)
    edges = set()
    for i in range(1, n):
        edges.add((draw(st.integers(0, i - 1)), i))
    for _ in range(draw(st.integers(0, 2)) if n > 2 else 0):
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 1))
        if i != j:
            edges.add((min(i, j), max(i, j)))
    edges = sorted(edges)
    panels = []
    for i in range(n):
        panels.append(dict(
            ID=ids[i], n_plies=plies[i],
            length_x=draw(st.sampled_from([0.5, 1, 1.5, 2])),
            length_y=draw(st.sampled_from([0.5, 1, 1.25])),
            weighting=draw(st.sampled_from([1, 1, 0.5, 2, 3]))))
    # each edge is declared by one panel or by both
    decl = [draw(st.sampled_from(['first', 'second', 'both']))
            for _ in edges]
    bw = None
    if weights and draw(st.booleans()):
        bw = [[draw(st.booleans()), draw(st.sampled_from([0.5, 1, 2, 3]))]
              for _ in edges]
    return dict(panels=panels, edges=[list(e) for e in edges], decl=decl,
                weights=bw)


def edge_weights(data):
    "weight of each edge in panel indices"
    if data['weights'] is None:
        return [1]*len(data['edges'])
    return [w for _, w in data['weights']]


def build(data, con, targets=None, weightings=None):
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    neighbours = [[] for _ in data['panels']]
    for (i, j), how in zip(data['edges'], data['decl']):
        if how in ('first', 'both'):
            neighbours[i].append(data['panels'][j]['ID'])
        if how in ('second', 'both'):
            neighbours[j].append(data['panels'][i]['ID'])
    panels = []
    for i, p in enumerate(data['panels']):
        kw = {}
        if targets is not None:
            kw['lampam_target'] = np.asarray(targets[i], float)
        if weightings is not None:
            kw['lampam_weightings'] = np.asarray(weightings[i], float)
        panels.append(Panel(
            ID=p['ID'], constraints=con, n_plies=p['n_plies'],
            length_x=p['length_x'], length_y=p['length_y'],
            N_x=p.get('N_x', 1), N_y=p.get('N_y', 1),
            weighting=p['weighting'], neighbour_panels=neighbours[i], **kw))
    bw = None
    if data['weights'] is not None:
        bw = {}
        for (i, j), (flip, w) in zip(data['edges'], data['weights']):
            a, b = data['panels'][i]['ID'], data['panels'][j]['ID']
            bw[(b, a) if flip else (a, b)] = w
    return MultiPanel(panels, bw)


@st.composite
def nested_layouts(draw, counts, sym=True, width=None):
    """nested ply-drop layouts for increasing ply counts: the thinner panel
    keeps a subset of the plies of the thicker one.  Rows follow counts."""
    width = width or max(counts)
    keep = list(range(width))
    rows = {}
    for c in sorted(set(counts), reverse=True):
        while len(keep) > c:
            if sym and len(keep) - c >= 2:
                half = len(keep)//2
                k = draw(st.integers(0, half - 1))
                del keep[len(keep) - 1 - k]
                del keep[k]
            elif sym and len(keep) % 2:
                del keep[len(keep)//2]
            else:
                del keep[draw(st.integers(0, len(keep) - 1))]
        rows[c] = [i if i in keep else -1 for i in range(width)]
    return [list(rows[c]) for c in counts]
