"""P11 multi-panel structures and their reduction to a blending strip"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, structures
from pbt.core import Sub, expect, expect_close


@st.composite
def case_(draw):
    sym = draw(st.booleans())
    data = draw(st.one_of(*[structures.panel_graphs(
        sym, 1, 7, lo=4, hi=24)]*5 + [structures.panel_graphs(
            sym, 5, 14, lo=4, hi=90)]))
    return dict(data=data, sym=sym, ref=draw(st.one_of(
        st.integers(1, 30), st.sampled_from([1, 1000, 9.5]))),
                bad=draw(st.sampled_from(
                    [None]*8 + ['duplicate', 'disconnected', 'missing_weight',
                                'negative_weight', 'unknown', 'tuple'])),
                pick=draw(st.integers(0, 30)),
                table=draw(st.lists(st.integers(0, 40), min_size=1,
                                    max_size=6)))


def broken(case, con):
    "a structure with one defect; None if the defect does not apply"
    from src.BELLA.panels import Panel
    from src.BELLA.multipanels import MultiPanel
    data, bad, k = case['data'], case['bad'], case['pick']
    n = len(data['panels'])
    ids = [p['ID'] for p in data['panels']]
    edges = [tuple(e) for e in data['edges']]
    weights = {(ids[i], ids[j]): 1 for i, j in edges}
    if bad == 'duplicate':
        if n < 2:
            return None
        ids[k % (n - 1) + 1] = ids[0]
    elif bad == 'disconnected':
        if n < 2:
            return None
        lone = k % n
        edges = [e for e in edges if lone not in e]
    elif bad == 'missing_weight':
        if not weights:
            return None
        weights.pop(list(weights)[k % len(weights)])
    elif bad == 'negative_weight':
        if not weights:
            return None
        weights[list(weights)[k % len(weights)]] = -0.5
    neighbours = {i: [] for i in range(n)}
    for i, j in edges:
        neighbours[i].append(ids[j])
    if bad == 'unknown':
        neighbours[k % n].append(99)
    panels = [Panel(ID=ids[i], constraints=con, n_plies=p['n_plies'],
                    neighbour_panels=neighbours[i])
              for i, p in enumerate(data['panels'])]
    if bad == 'tuple':
        panels = tuple(panels)
    return lambda: MultiPanel(
        panels, weights if 'weight' in bad else None)


def check(case, ctx):
    con = gen.build_constraints(dict(sym=case['sym'],
                                     set_of_angles=gen.BASE), noise=case.get('noise', 0))
    data = case['data']
    if case['bad']:
        build = broken(case, con)
        if build is not None:
            ctx.label(case['bad'])
            ctx.nontrivial()
            try:
                build()
            except Exception:
                return
            expect(False, 'structure with a defect (%s) accepted: %s',
                   case['bad'], data)
    mp = structures.build(data, con)
    P = data['panels']
    n = len(P)
    plies = [p['n_plies'] for p in P]
    area = [p['length_x']*p['length_y'] for p in P]
    edges = sorted(tuple(e) for e in data['edges'])
    w = dict(zip([tuple(e) for e in data['edges']],
                 structures.edge_weights(data)))
    ctx.nontrivial(len(set(plies)) >= 2 and n >= 3)
    ctx.label('%d thicknesses' % len(set(plies)))
    # the structure itself
    expect(mp.n_panels == n and mp.n_plies_min == min(plies)
           and mp.n_plies_max == max(plies)
           and mp.n_plies_in_panels.tolist() == plies, 'ply counts')
    expect_close(mp.area, sum(area), 1e-9, 'area')
    expect_close(mp.area_patches, sum(a*p for a, p in zip(area, plies)), 1e-9,
                 'area of the patches')
    expect_close(mp.calc_weight(2.5), 2.5*mp.area_patches, 1e-9, 'weight')
    mp.calc_weight_per_panel(2.5)
    expect_close(mp.weight_ref_per_panel,
                 [2.5*a*p for a, p in zip(area, plies)], 1e-9,
                 'weight per panel')
    counts = (case['table']*n)[:n]
    sst = np.array([[0]*min(c, 40) + [-1]*(40 - min(c, 40)) for c in counts])
    expect_close(mp.calc_weight_from_sst(sst, 2.5),
                 2.5*sum(a*min(c, 40) for a, c in zip(area, counts)), 1e-9,
                 'weight of a stacking sequence table')
    expect([tuple(b) for b in mp.boundaries.tolist()] == edges,
           'boundaries %s instead of %s', mp.boundaries.tolist(), edges)
    expect([tuple(b) for b in mp.boundaries_in_IDs.tolist()]
           == [(P[i]['ID'], P[j]['ID']) for i, j in edges],
           'boundaries in panel IDs %s', mp.boundaries_in_IDs.tolist())
    expect({tuple(map(int, k)): v for k, v in mp.boundary_weights.items()} == w,
           'boundary weights %s instead of %s', mp.boundary_weights, w)
    expect({tuple(map(int, k)): v
            for k, v in mp.boundary_weights_in_IDs.items()}
           == {tuple(sorted((P[i]['ID'], P[j]['ID']))): v
               for (i, j), v in w.items()}, 'boundary weights in panel IDs')
    near = mp.identify_neighbour_panels()
    for i in range(n):
        want = sorted([b for a, b in edges if a == i]
                      + [a for a, b in edges if b == i])
        expect(sorted(near[i]) == want, 'neighbours of panel %d: %s', i,
               near[i])
    expect([i for i in range(n) if mp.is_thick_panels[i]]
           == mp.identify_thickest_panels()
           == [i for i in range(n) if plies[i] == max(plies)]
           and plies[mp.ind_thick] == max(plies), 'thickest panels')
    # a panel without the middle ply of the thickest ones counts as thick
    last = max(plies) - max(plies) % 2
    expect(mp.identify_thickest_panels(sym=True)
           == [i for i in range(n) if plies[i] >= last], 'thickest panels '
           'without the middle ply')
    # blending strip
    uniq = sorted(set(plies))
    mp.from_mp_to_blending_strip(con, n_plies_ref_panel=case['ref'])
    red = mp.reduced
    expect(red.n_panels == len(uniq)
           and red.n_plies_in_panels.tolist() == uniq,
           'thicknesses of the blending strip %s', red.n_plies_in_panels)
    guide = [uniq.index(p) for p in plies]
    expect(red.ind_panels_guide.tolist() == guide, 'map to the strip %s',
           red.ind_panels_guide)
    expect([plies[i] for i in red.ind_for_reduc] == uniq
           and [p.n_plies for p in red.panels] == uniq,
           'map from the strip %s', red.ind_for_reduc)
    ref = next((i for i, u in enumerate(uniq) if u >= case['ref']),
               len(uniq) - 1)
    expect(red.ind_ref == ref and red.n_plies_ref_panel == uniq[ref],
           'reference panel with %s plies for a setting of %s among %s',
           red.n_plies_ref_panel, case['ref'], uniq)
    expect(red.ind_thick == len(uniq) - 1
           and red.n_panels_thin == ref + 1
           and red.n_panels_thick == len(uniq) - ref, 'strip indices')
    strip = {}
    for (i, j), v in w.items():
        a, b = sorted((guide[i], guide[j]))
        if a != b:
            strip[(a, b)] = strip.get((a, b), 0) + v
    got = [tuple(b) for b in np.array(red.boundaries).reshape(-1, 2).tolist()]
    expect(sorted(got) == sorted(strip), 'boundaries of the strip %s, '
           'expected %s', got, sorted(strip))
    got = {tuple(map(int, k)): v for k, v in red.boundary_weights.items()}
    expect(set(got) == set(strip) and all(
        abs(got[k] - strip[k]) < 1e-9 for k in strip),
           'boundary weights of the strip %s, expected %s', got, strip)
    weights = [sum(p['weighting'] for p, g in zip(P, guide) if g == k)
               for k in range(len(uniq))]
    expect_close(red.actual_panel_weightings, weights, 1e-9,
                 'panel weightings per thickness of %s',
                 [(p['n_plies'], p['weighting']) for p in P])
    for k in range(len(uniq)):
        if k == ref:
            continue
        # panels already designed share the lamination parameters of panel k
        if k < ref:
            part = np.array(weights[:ref])/sum(weights[:ref])
            want = np.hstack((part[:k + 1].sum(), part[k + 1:]))
        else:
            part = np.array(weights[ref + 1:])/sum(weights[ref + 1:])
            d = k - ref - 1
            want = np.hstack((part[:d], part[d:].sum()))
        expect_close(red.panel_weightings[k], want, 1e-9,
                     'weightings during the design of thickness %d (%s)',
                     uniq[k], weights)
    # sequence of ply drops (thinner panels) and additions (thicker panels)
    step = 2 if case['sym'] else 1
    for side, seq in (
            ('thin', [(c, k) for k in range(ref - 1, -1, -1) for c in
                      range(uniq[k + 1] - step, uniq[k] - 1, -step)]),
            ('thick', [(c, k) for k in range(ref + 1, len(uniq)) for c in
                       range(uniq[k - 1] + step, uniq[k] + 1, step)])):
        g = lambda name: getattr(red, name % side)
        expect(g('n_steps_%s') == len(seq), '%d steps instead of %d (%s)',
               g('n_steps_%s'), len(seq), side)
        if not seq:
            continue
        sign = -1 if side == 'thin' else 1
        expect(g('n_plies_after_%s_tab').tolist() == [c for c, _ in seq]
               and g('n_plies_before_%s_tab').tolist()
               == [c - sign*step for c, _ in seq]
               and g('ind_panel_%s_tab').tolist() == [k for _, k in seq],
               'steps of the %s panels: %s plies in panels %s, expected %s',
               side, g('n_plies_after_%s_tab').tolist(),
               g('ind_panel_%s_tab').tolist(), seq)
        new = [i == 0 or seq[i][1] != seq[i - 1][1] for i in range(len(seq))]
        expect(g('new_boundary_%s_tab').tolist() == new
               and g('n_panels_designed_%s_tab').tolist()
               == [abs(k - seq[0][1]) for _, k in seq],
               'panels started and completed (%s)', side)


@st.composite
def middle_case(draw):
    data = draw(structures.panel_graphs(True, 1, 5, lo=4, hi=20, odd=True))
    return dict(data=data, ref=draw(st.integers(1, 24)))


def check_middle(case, ctx):
    con = gen.build_constraints(dict(sym=True, set_of_angles=gen.BASE), noise=case.get('noise', 0))
    mp = structures.build(case['data'], con)
    plies = [p['n_plies'] for p in case['data']['panels']]
    odd = [p for p in plies if p % 2]
    expect(mp.has_middle_ply == bool(odd)
           and mp.thick_panel_has_middle_ply == bool(max(plies) % 2)
           and mp.middle_ply_indices.tolist()
           == [(p + 1)//2 if p % 2 else 0 for p in plies],
           'middle plies of panels with %s plies', plies)
    # a middle ply cannot disappear in a thicker panel
    compatible = not any(p > min(odd) and p % 2 == 0 for p in plies) \
        if odd else True
    ctx.nontrivial(bool(odd) and len(set(plies)) > 1)
    ctx.label('compatible' if compatible else 'incompatible')
    try:
        mp.from_mp_to_blending_strip(con, n_plies_ref_panel=case['ref'])
        accepted = True
    except Exception as exc:
        if isinstance(exc, (IndexError, KeyError, AttributeError, TypeError)):
            raise
        accepted = False
    expect(accepted == compatible, 'symmetric panels of %s plies %s', plies,
           'accepted' if accepted else 'rejected')


SUBS = [
    Sub('strip', gen.noisy(case_()), check, 4000, 80000,
        rule='three or more panels of at least two thicknesses, or a defect'),
    Sub('middle', gen.noisy(middle_case()), check_middle, 1500, 20000,
        rule='panels of several thicknesses, at least one with a middle ply')]
