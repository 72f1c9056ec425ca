"""P34 search of the fibre orientations: the best nodes, the best designs"""
import importlib
import inspect
from itertools import product
import numpy as np
from hypothesis import strategies as st
from pbt import bella, gen, ref, cla_stub, standin
from pbt.core import Sub, expect, expect_close
from pbt.props.p13 import thirds
from pbt.props.p17 import feasible, feasible_asym
from pbt.props.p23 import missing
from pbt.props.p19 import weightings, target

MARGIN = 1e-9
NO_REPAIR = dict(repair_membrane_switch=False, repair_flexural_switch=False)


class Tie(Exception):
    "two nodes too close to say which one is kept"


def trig(angle):
    t = np.deg2rad(angle)
    return np.array([np.cos(2*t), np.cos(4*t), np.sin(2*t), np.sin(4*t)])


def moments(n, k, sym):
    "signed and absolute moments of the ply k of n (with its mirror image)"
    signed, absolute = thirds(n, k)
    if sym:
        full = 2 if 2*k + 1 != n else 1
        signed = [full*signed[0], 0, full*signed[2]]
        absolute = [full*x for x in absolute]
    return np.array(signed), np.array(absolute)


class Structure:
    "the panels of the blending strip, from the thinnest to the thickest"

    def __init__(self, case):
        panels = case['data']['panels']
        self.counts = sorted({p['n_plies'] for p in panels})
        first = {p['n_plies']: i for i, p in reversed(list(enumerate(
            panels)))}
        self.weights = [weightings(case, first[c]) for c in self.counts]
        self.targets = [target(case, first[c]) for c in self.counts]
        self.shares = [sum(p['weighting'] for p in panels
                           if p['n_plies'] == c) for c in self.counts]
        self.sym = case['kw']['sym']
        most = self.counts[-1]
        if self.sym:
            self.columns = list(range((most + 1)//2))
        else:
            self.columns = [None]*most
            self.columns[0::2] = range((most + 1)//2)
            self.columns[1::2] = range(most - 1, (most + 1)//2 - 1, -1)

    def value(self, lampams, weights):
        return sum(s*float(w @ (lam - t)**2) for s, w, lam, t in zip(
            self.shares, weights, lampams, self.targets))


def whole_layout(structure):
    "all the plies of a single panel"
    return [list(range(len(structure.columns)))]


def search(case, structure, layout, ctx, limited=True):
    """the nodes left at the end of the beam search: the plies of each panel
    in the order of the search, by panel"""
    kw, par = case['kw'], case['params']
    sym, most = structure.sym, structure.counts[-1]
    n_levels = len(structure.columns)
    middle = sym and most % 2
    angles = kw['set_of_angles']
    rank = []
    for row in layout:
        kept = [c for c in range(n_levels) if row[c] >= 0]
        rank.append({c: k for k, c in enumerate(kept)})
    area = [np.zeros(3) for _ in structure.counts]
    # plies of the thickest panel (below, above), of the others, parameters
    nodes = [([], [], [np.zeros(12) for _ in structure.counts])]
    scores = [0.]
    cut = 0
    for level, col in enumerate(structure.columns):
        last = level == n_levels - 1
        weights, signed = [], []
        for i, n in enumerate(structure.counts):
            signed.append(None)
            if col in rank[i]:
                signed[i], absolute = moments(n, rank[i][col], sym)
                area[i] = area[i] + absolute
            w = structure.weights[i]*np.repeat(area[i], 4)
            weights.append(w/np.sum(w) if np.sum(w) > 0 else w)
        new_nodes, new_scores = [], []
        for bot, top, lampams in nodes:
            if sym:
                ok = [a for a in angles if feasible(kw, bot, a, last, middle)]
            else:
                ok = [a for a in angles if feasible_asym(
                    kw, bot, top, a, level, last)]
            children = []
            for a in ok:
                lams = [lam if s is None else lam + np.outer(s, trig(
                    a)).ravel() for lam, s in zip(lampams, signed)]
                if sym or level % 2 == 0:
                    child = (bot + [a], top, lams)
                else:
                    child = (bot, [a] + top, lams)
                children.append((structure.value(lams, weights), child))
            if limited and not last:
                children, n = best(children, par['local_node_limit'])
                cut += n
            new_nodes += [c for _, c in children]
            new_scores += [v for v, _ in children]
        both = list(zip(new_scores, new_nodes))
        if limited:
            both, n = best(both, par[
                'global_node_limit_final' if last else 'global_node_limit'])
            cut += n
        nodes = [c for _, c in both]
        if not nodes:
            break
    ctx.label('%d%s cuts' % (min(cut, 3), '+' if cut > 3 else ''))
    return nodes, cut


def best(scored, limit):
    "the best nodes, in their order, and the number of selections"
    if len(scored) <= limit:
        return scored, 0
    order = sorted(v for v, _ in scored)
    if order[limit] - order[limit - 1] <= MARGIN*(1 + abs(order[limit])):
        raise Tie
    return [x for x in scored if x[0] <= order[limit - 1]], 1


def stacks(structure, layout, node):
    "stacking sequence of each panel"
    bot, top, _ = node
    guide = bot + top
    res = []
    for n, row in zip(structure.counts, layout):
        plies = [a for a, r in zip(guide, row) if r >= 0]
        if structure.sym:
            plies = plies + plies[:n//2][::-1]
        res.append(plies)
    return res


def check_beam(case, ctx):
    importlib.import_module('src.BELLA.optimiser')
    real = standin.find('src.RELAY.repair_mp', 'repair_mp')
    s = bella.build(case)
    calls = []

    def record(*args, **kw):
        given = inspect.signature(real).bind(*args, **kw).args
        layout = given[5]
        if not calls or calls[-1][0] is not layout:
            calls.append((layout, np.array(layout).astype(int).tolist(), []))
        calls[-1][2].append([[int(a) for a in x]
                            for x in given[1]])
        return real(*args, **kw)

    if real is None:
        return
    with standin.replaced((real, record)):
        s = bella.run(case, tools=s)
    if not calls:
        ctx.label('no design')
        return
    structure = Structure(case)
    width = len(structure.columns)
    checked = cut = 0
    for _, layout, leaves in calls:
        layout = [row[:width] for row in layout]
        try:
            nodes, n = search(case, structure, layout, ctx)
        except Tie:
            ctx.label('tie')
            continue
        want = [stacks(structure, layout, node) for node in nodes]
        expect(sorted(leaves) == sorted(want), 'the search with the node '
               'limits %d (of one node), %d (of one level), %d (last level) '
               'over the layout %s ends with\n%s\ninstead of\n%s',
               case['params']['local_node_limit'],
               case['params']['global_node_limit'],
               case['params']['global_node_limit_final'], layout,
               sorted(leaves), sorted(want))
        checked += 1
        cut += n
    ctx.nontrivial(checked and cut)


def generic(draw, case):
    "targets and weightings which rarely give equal objectives"
    number = st.integers(-9999, 9999)
    case['targets'] = [[draw(number)/10000 for _ in range(12)]
                       for _ in case['targets']]
    case['weights'] = [[draw(st.integers(1, 999))/100 for _ in range(12)]
                       for _ in case['weights']]
    if case['kw']['dam_tol'] and case['kw']['dam_tol_rule'] == 3:
        case['kw']['dam_tol_rule'] = draw(st.sampled_from([1, 2]))
    case['kw']['rule_10_Abdalla'] = False
    # angles of opposite signs are equivalent with out-of-plane orthotropy
    case['kw']['oopo'] = draw(st.sampled_from([False]*5 + [True]))
    return case


@st.composite
def beams(draw, sym=None, wide=False):
    case = generic(draw, draw(bella.problem(
        max_panels=4, max_half=16 if wide else 12, sym=sym, abdalla=False,
        wide=wide)))
    lim = st.sampled_from([1, 2, 3, 4] if wide else [1, 2, 3, 4, 5, 7, 10, 20])
    for k in ('local_node_limit', 'global_node_limit',
              'global_node_limit_final'):
        case['params'][k] = draw(lim)
    return case


@st.composite
def small(draw, sym):
    "one thickness, few plies, no limit on the number of nodes"
    case = generic(draw, draw(bella.problem(max_panels=2, sym=sym,
                                            abdalla=False)))
    kw = case['kw']
    kw['set_of_angles'] = draw(st.permutations(gen.BASE)) \
        if draw(st.sampled_from([True]*5 + [False])) else gen.BASE + [30, -30]
    if len(kw['set_of_angles']) > 4:
        n = draw(st.integers(6, 8)) if sym else 4
    else:
        n = draw(st.integers(6, 11)) if sym else draw(st.integers(4, 6))
    for p in case['data']['panels']:
        p['n_plies'] = n
    kw.update(covering=False)
    kw['n_contig'] = draw(st.sampled_from([2, 3, 3, 4]))
    case['params'].update(
        NO_REPAIR, local_node_limit=10**6, global_node_limit=10**6,
        global_node_limit_final=10**6, local_node_limit_final=10**6,
        n_ini_ply_drops=1, group_size_min=1, n_plies_ref_panel=1)
    return case


def obeys(stack, kw):
    "all the guidelines"
    n = len(stack)
    if kw['sym'] and n % 2 and stack[n//2] not in (0, 90):
        return False
    if kw['dam_tol'] and not ref.dam_tol(stack, kw['dam_tol_rule']):
        return False
    if kw['contig'] and not ref.contig_ok(stack, kw['n_contig']):
        return False
    if kw['diso']:
        # not between the outer +-45 plies imposed by damage tolerance
        inner = stack
        if kw['dam_tol'] and kw['dam_tol_rule'] == 2:
            inner = stack[1:-1]
        if ref.diso_count(inner, kw['delta_angle']):
            return False
    if kw['bal'] and any(a not in (0, 90) and stack.count(a) != stack.count(-a)
                         for a in stack):
        return False
    if kw['sym'] and n % 2:
        # the repairs do not count on the middle ply
        return kw['rule_10_percent'] is False or missing(
            stack[:n//2], 0, dict(kw, bal=False), n, 2) == 0
    return ref.ten_percent_ok(stack, ref.percent_limits(kw))


def check_optimum(case, ctx):
    kw = case['kw']
    n = case['data']['panels'][0]['n_plies']
    structure = Structure(case)
    outer, values = 0, {}
    half = (n + 1)//2 if kw['sym'] else n
    for part in product(kw['set_of_angles'], repeat=half):
        stack = list(part)
        if kw['sym']:
            stack += stack[:n//2][::-1]
        if obeys(stack, kw):
            values[tuple(stack)] = structure.value(
                [cla_stub.lampam_of(np.array(stack))], structure.weights)
    s = bella.run(case)
    if s.res is None:
        expect(not values or s.why == 'no partition', 'no design (%s) '
               'although %d laminates obey the guidelines, as %s', s.why,
               len(values), list(values)[:1])
        ctx.label('no design')
        return
    ctx.nontrivial(len(values) > 3)
    if not values:
        # P18 judges whether it is an acceptable design
        ctx.label('beyond these guidelines')
        return
    found = [int(a) for a in s.res.ss[0]]
    lowest = min(values.values())
    mine = structure.value([cla_stub.lampam_of(np.array(found))],
                           structure.weights)
    expect(mine <= lowest + 1e-9*(1 + lowest), 'without limit on the number '
           'of nodes %s is designed, of objective %s, although %s obeys the '
           'guidelines and its objective is %s', found, mine,
           [k for k in values if values[k] == lowest][0], lowest)
    ctx.label('%s%d plies' % ('symmetric, ' if kw['sym'] else '', n))


SUBS = [
    Sub('beam', beams(sym=True), check_beam, 160, 8000,
        rule='searches where nodes had to be rejected'),
    Sub('beam-asym', beams(sym=False), check_beam, 80, 4000,
        rule='searches where nodes had to be rejected'),
    Sub('beam-large', beams(wide=True), check_beam, 32, 2000,
        rule='searches where nodes had to be rejected'),
    Sub('optimum', small(True), check_optimum, 160, 4000,
        rule='a design found and more than three laminates obey the '
        'guidelines'),
    Sub('optimum-asym', small(False), check_optimum, 80, 2000,
        rule='a design found and more than three laminates obey the '
        'guidelines'),
]
