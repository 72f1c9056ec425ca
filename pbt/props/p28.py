"""P28 repair of the reference panel and of the whole multi-panel design"""
import random
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, structures
from pbt.core import Sub, expect, expect_close
from pbt.props import p29
from pbt.props.p27 import comfortable


@st.composite
def case_(draw, sym=True):
    kw = draw(gen.constraint_kwargs(
        sym=sym, angles=draw(st.sampled_from(
            [gen.BASE, gen.BASE, gen.BASE, gen.BASE + [30, -30],
             gen.BASE + [60, -60]])),
        percent_mode=draw(st.sampled_from(['off', 'combined', 'separate']))))
    if kw['rule_10_percent']:
        for k in list(kw):
            if k.startswith('percent_'):
                kw[k] = draw(st.sampled_from([0, 10, 10, 15]))
    kw['oopo'] = False
    per = 2 if sym else 1
    odd = draw(st.sampled_from([0, 0, 1])) if sym else 0
    half = draw(st.integers(5, 11) if sym else st.integers(8, 18))
    down = draw(st.integers(0, min(3, half - 4)))
    above = draw(st.integers(0, 3))
    counts = [per*half + odd]
    if down:
        counts += [per*(half - c) + odd for c in draw(st.lists(
            st.integers(1, down), min_size=1, max_size=2, unique=True))]
    if above:
        counts += [per*(half + c) + odd for c in draw(st.lists(
            st.integers(1, above), min_size=1, max_size=2, unique=True))]
    # some panels share a thickness
    counts += draw(st.lists(st.sampled_from(counts), max_size=2))
    plies = draw(st.permutations(counts))
    data = draw(structures.panel_graphs(
        sym, len(plies), len(plies), ply_counts=plies))
    distinct = sorted(set(plies))
    targets = [draw(st.lists(gen.coef(), min_size=12, max_size=12))
               for _ in distinct]
    weights = [draw(st.lists(st.sampled_from([0, 1, 1, 2]), min_size=12,
                             max_size=12)) for _ in distinct]
    for w in weights:
        w[draw(st.sampled_from([0, 1, 8, 9]))] = 1
    return dict(kw=kw, data=data, n_ref=per*half + odd, targets=targets,
                weights=weights, limits=[draw(st.integers(1, 12))
                                         for _ in range(4)],
                seed=draw(st.integers(0, 10**6)),
                start=draw(st.sampled_from(['valid', 'changed', 'changed',
                                            'random'])),
                p_A=draw(st.sampled_from([0, 50, 80, 80, 100])),
                n_D1=draw(st.sampled_from([3, 6])),
                n_D3=draw(st.integers(1, 2)),
                membrane=draw(st.booleans()), flexural=draw(st.booleans()),
                coeff_diso=draw(st.sampled_from([0, 1, 5])),
                spacing=draw(st.sampled_from([0, 1])))


def prepare(case):
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.parameters import Parameters
    kw, n_ref = case['kw'], case['n_ref']
    con = gen.build_constraints(kw)
    rng = random.Random(case['seed'])
    distinct = sorted({p['n_plies'] for p in case['data']['panels']})
    lo = p29.protected(kw)
    if distinct[0]//2 < lo:
        return None
    # initial reference panel
    stack = None
    if case['start'] != 'random':
        stack = ref.find_stack(kw, n_ref, rng, nodes=600)
    if stack is None:
        stack = ref.find_stack(dict(kw, diso=False, contig=False,
                                    rule_10_percent=False), n_ref, rng,
                               with_bal=False)
        if stack is None:
            return None
    elif case['start'] == 'changed':
        for _ in range(rng.randint(1, 4)):
            if not kw['sym']:
                stack[rng.randrange(lo, n_ref - lo)] = rng.choice(
                    kw['set_of_angles'])
            elif n_ref//2 > lo:
                i = rng.randrange(lo, n_ref//2)
                stack[i] = stack[n_ref - 1 - i] = rng.choice(
                    kw['set_of_angles'])
    # nested layout
    width = distinct[-1]
    sym = kw['sym']
    keep = list(range(width//2 if sym else width))
    layout = {}
    for c in distinct[::-1]:
        while len(keep) > (c//2 if sym else c):
            del keep[rng.randrange(lo, len(keep) - (0 if sym else lo))]
        layout[c] = [i if (min(i, width - 1 - i) if sym else i) in keep
                     or (sym and width % 2 and i == width//2) else -1
                     for i in range(width)]
    guide = [None]*width
    it = iter(stack)
    for i in range(width):
        if layout[n_ref][i] != -1:
            guide[i] = next(it)
    for i in range(width):
        if guide[i] is None:
            j = width - 1 - i
            guide[i] = guide[j] if sym and guide[j] is not None else rng.choice(
                kw['set_of_angles'])
    pdl = np.array([layout[c] for c in distinct])
    rows = np.where(pdl == -1, -1, np.array(guide)[None, :])
    pos = {c: i for i, c in enumerate(distinct)}
    mp = structures.build(
        case['data'], con,
        [case['targets'][pos[p['n_plies']]] for p in case['data']['panels']],
        [case['weights'][pos[p['n_plies']]] for p in case['data']['panels']])
    lim = case['limits']
    par = Parameters(
        con, n_plies_ref_panel=n_ref, local_node_limit2=lim[0],
        global_node_limit2=lim[1], local_node_limit3=lim[2],
        global_node_limit3=lim[3], p_A=case['p_A'], n_D1=case['n_D1'],
        n_D3=case['n_D3'], repair_membrane_switch=case['membrane'],
        repair_flexural_switch=case['flexural'])
    obj = ObjFunction(con, coeff_diso=case['coeff_diso'],
                      coeff_spacing=case['spacing'])
    mp.from_mp_to_blending_strip(con, n_ref)
    for p in mp.panels:
        p.filter_lampam_weightings(con, obj)
    return con, mp, par, obj, stack, distinct, pdl, rows


def stacks_of(table):
    return [[int(p) for p in row if p != -1] for row in table]


def reference_ok(stack, first, kw):
    "rules of the repaired reference panel"
    bad = ref.broken_rules(stack, kw)
    expect(not bad, 'reference panel %s, obtained from %s, breaks %s', stack,
           first, bad)


def check_reference(case, ctx):
    from src.RELAY.repair_reference_panel import repair_reference_panel
    made = prepare(case)
    if made is None:
        return
    con, mp, par, obj, stack, distinct, pdl, rows = made
    kw, i_ref = case['kw'], distinct.index(case['n_ref'])
    before = stacks_of(rows)
    given = [gen.ints(s) for s in before]
    ok, lam, sst, ss = repair_reference_panel(
        mp, given, con, par, obj, np.array(pdl))
    expect([list(map(int, s)) for s in given] == before,
           'stacks of the caller modified')
    ss = [list(map(int, s)) for s in ss]
    for i, s in enumerate(ss):
        expect_close(lam[i], p29.lampam_of(s, con), 1e-9,
                     'lamination parameters of panel %d, %s', i, s)
    valid = not ref.broken_rules(stack, kw) and comfortable(stack, kw)
    if not ok:
        expect(ss == before, 'unsuccessful repair but stacks changed: %s to '
               '%s', before, ss)
        expect(not valid, 'the reference panel %s satisfies the guidelines but'
               ' is not repaired', stack)
        ctx.label('failure')
        return
    sst = [list(map(int, r)) for r in sst]
    expect([[p == -1 for p in r] for r in sst] ==
           [[p == -1 for p in r] for r in pdl.tolist()],
           'layout %s changed: %s', pdl.tolist(), sst)
    expect(stacks_of(sst) == ss, 'stacks %s but table %s', ss, sst)
    reference_ok(ss[i_ref], stack, kw)
    for i in range(len(distinct)):
        for k, (new, old) in enumerate(zip(sst[i], rows[i].tolist())):
            if pdl[i_ref, k] == -1:
                expect(new == old, 'ply %d, not in the reference panel, '
                       'changed in panel %d: %s to %s', k, i, rows[i].tolist(),
                       sst[i])
            elif new != -1:
                expect(new == sst[i_ref][k], 'panel %d is not blended with the '
                       'reference panel: %s, %s', i, sst[i], sst[i_ref])
    if valid and not case['membrane']:
        expect(sorted(ss[i_ref]) == sorted(stack), 'in-plane refinement not '
               'asked for: %s to %s', stack, ss[i_ref])
        if not case['flexural']:
            expect(ss == before, 'refinements not asked for: %s to %s', before,
                   ss)
    if valid:
        panel = mp.reduced.panels[i_ref]

        def value(s, low):
            gap = p29.lampam_of(s, con) - panel.lampam_target
            return float(sum((panel.lampam_weightings*gap**2)[low:low + 4]))
        expect(value(ss[i_ref], 0) <= value(stack, 0) + 1e-9,
               'in-plane objective of the reference panel raised: %s to %s',
               stack, ss[i_ref])
    ctx.nontrivial(ss[i_ref] != list(stack))
    ctx.label('valid' if valid else 'repaired')


def check_all(case, ctx):
    from src.RELAY.repair_mp import repair_mp
    made = prepare(case)
    if made is None:
        return
    con, mp, par, obj, stack, distinct, pdl, rows = made
    kw, n_ref = case['kw'], case['n_ref']
    i_ref = distinct.index(n_ref)
    before = stacks_of(rows)
    given, layout = [gen.ints(s) for s in before], np.array(pdl)
    ok, ss, sst, new_pdl, step = repair_mp(
        mp, given, con, par, obj, layout)
    expect([list(map(int, s)) for s in given] == before,
           'stacks of the caller modified')
    expect(layout.tolist() == pdl.tolist(), 'layout of the caller modified')
    ss = [list(map(int, s)) for s in ss]
    sst = [list(map(int, r)) for r in sst]
    expect(step in (1, 2, 3, 4) and bool(ok) == (step == 4),
           'success %s at step %s', ok, step)
    expect(stacks_of(sst) == ss, 'stacks %s but table %s (step %s)', ss, sst,
           step)
    expect([[int(p) == -1 for p in r] for r in new_pdl] ==
           [[p == -1 for p in r] for r in sst],
           'ply-drop layout %s returned for the design %s (step %s)',
           np.array(new_pdl).tolist(), sst, step)
    if step == 1:
        expect(ss == before, 'reference panel not repaired but stacks changed:'
               ' %s to %s', before, ss)
        expect(ref.broken_rules(stack, kw) or not comfortable(stack, kw), 'the reference panel %s satisfies '
               'the guidelines but is not repaired', stack)
        ctx.label('step 1')
        return
    reference_ok(ss[i_ref], stack, kw)
    for i, c in enumerate(distinct):
        expect(len(ss[i]) == c, 'panel of %d plies: %s', c, ss[i])
        expect(not kw['sym'] or sst[i] == sst[i][::-1], 'not symmetric: %s', sst[i])
    for i in range(len(distinct) - 1):
        for a, b in zip(sst[i], sst[i + 1]):
            expect(a == -1 or a == b, 'ply %s of the panel of %d plies is not '
                   'in the next panel: %s / %s', a, distinct[i], sst[i],
                   sst[i + 1])
    if step >= 3:
        todo = distinct[:i_ref][::-1]
        design = tuple(tuple(ss[distinct.index(c)]) for c in todo)
        expect(p29.reachable(tuple(ss[i_ref]), design, kw, False),
               'thinner panels %s around %s break the guidelines', design,
               ss[i_ref])
    if step == 4:
        design = tuple(tuple(ss[distinct.index(c)])
                       for c in distinct[i_ref + 1:])
        expect(p29.reachable(tuple(ss[i_ref]), design, kw, True),
               'thicker panels %s around %s break the guidelines', design,
               ss[i_ref])
        for s in ss:
            if kw['dam_tol']:
                expect(ref.dam_tol(s, kw['dam_tol_rule']),
                       'damage tolerance broken by %s', s)
    ctx.nontrivial(step == 4 and 0 < i_ref < len(distinct) - 1)
    ctx.label('step %d' % step)


SUBS = [
    Sub('reference', case_(), check_reference, 500, 9000,
        rule='successful repair changing the reference panel'),
    Sub('design', case_(), check_all, 400, 6000,
        rule='successful repair with both thinner and thicker panels'),
    Sub('asym-reference', case_(False), check_reference, 250, 6000,
        rule='successful repair changing the reference panel'),
    Sub('asym-design', case_(False), check_all, 150, 4000,
        rule='successful repair with both thinner and thicker panels'),
]
