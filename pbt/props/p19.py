"""P19 complete optimisation: reported quantities"""
import numpy as np
from pbt import bella, ref, structures, cla_stub
from pbt.core import Sub, expect, expect_close
from pbt.props.p29 import n_diso


def spacing(case, mp, sst):
    "independent spacing penalty of a design on its blending strip"
    kw = case['kw']
    if not kw['pdl_spacing']:
        return 0
    by_count = {p['n_plies']: r for p, r in zip(case['data']['panels'], sst)}
    distinct = sorted(by_count)
    total = 0
    for (i, j), w in mp.reduced.boundary_weights.items():
        both = [(a, b) for a, b in zip(by_count[distinct[i]],
                                       by_count[distinct[j]])
                if a != -1 or b != -1]
        thin = [a if a == -1 else b for a, b in both]
        total += w*ref.spacing_penalty(thin, kw['min_drop'])
    return total


def weightings(case, i):
    "weightings of the lamination parameters of a panel"
    kw = case['kw']
    w = np.array(case['weights'][i], float)
    if kw['sym']:
        w[4:8] = 0
    base = set(kw['set_of_angles']) == {0, 45, -45, 90}
    if base:
        w[3] = w[7] = w[11] = 0
    if kw['bal']:
        w[2] = w[3] = 0
    if kw['oopo']:
        w[10] = w[11] = 0
        mean = np.mean(w[w != 0])
        w[10] = mean*case['coeffs']['coeff_oopo']
        if not base:
            w[11] = w[10]
    return w/sum(w)


def target(case, i):
    "target lamination parameters of a panel"
    kw = case['kw']
    t = np.array(case['targets'][i], float)
    if kw['sym']:
        t[4:8] = 0
    if kw['bal']:
        t[2:4] = 0
    if kw['oopo']:
        t[10:12] = 0
    return t


def check_design(case, s, get, ss, sst, what):
    kw, co = case['kw'], case['coeffs']
    panels = case['data']['panels']
    total = 0
    seen = {}
    for i, stack in enumerate(ss):
        seen.setdefault(panels[i]['n_plies'], i)
    values = {}
    limits = ref.percent_limits(kw)
    for i, stack in enumerate(ss):
        n = len(stack)
        lam = cla_stub.lampam_of(np.array(stack))
        expect_close(get('lampam')[i], lam, 1e-9, '%s: lamination parameters '
                     'of panel %d, %s', what, i, stack)
        counts = [stack.count(a) for a in sorted(kw['set_of_angles'])]
        expect_close(get('n_plies_per_angle')[i], counts, 1e-9, '%s: ply '
                     'counts of panel %d, %s', what, i, stack)
        diso = n_diso(stack, kw)
        expect_close(get('n_diso')[i], diso, 1e-9, '%s: disorientation '
                     'violations of panel %d, %s', what, i, stack)
        expect_close(get('penalty_diso')[i], diso/n, 1e-9, '%s: '
                     'disorientation penalty of panel %d, %s', what, i, stack)
        contig = ref.contig_windows(stack, kw['n_contig']) \
            if kw['contig'] else 0
        expect_close(get('n_contig')[i], contig, 1e-9, '%s: contiguity '
                     'violations of panel %d, %s', what, i, stack)
        expect_close(get('penalty_contig')[i], contig/n, 1e-9, '%s: '
                     'contiguity penalty of panel %d, %s', what, i, stack)
        if kw.get('rule_10_Abdalla'):
            pen10 = float(get('penalty_10')[i])
            expect(pen10 >= 0, '%s: negative 10%% rule penalty', what)
            x, y, r = lam[0], lam[1], 1 - 4*kw['percent_Abdalla']/100
            slack = min(r*(r + y) - 2*x*x, r - y)
            expect(abs(slack) < 1e-6 or (pen10 > 0) == (slack < 0),
                   '%s: 10%% rule penalty %s for the lamination parameters '
                   '%s', what, pen10, (x, y))
        else:
            pen10 = ref.ten_percent_penalty(stack, limits) if limits else 0
            expect_close(get('penalty_10')[i], pen10, 1e-9, '%s: 10%% rule '
                         'penalty of panel %d, %s', what, i, stack)
        expect_close(get('penalty_bal_ipo')[i], (abs(lam[2]) + abs(lam[3]))/2,
                     1e-9, '%s: balance penalty of panel %d, %s', what, i,
                     stack)
        expect_close(get('penalty_oopo')[i], (abs(lam[10]) + abs(lam[11]))/2
                     if kw['oopo'] else 0, 1e-9, '%s: out-of-plane orthotropy '
                     'penalty of panel %d, %s', what, i, stack)
        # the objective is that of the first panel of this thickness
        k = seen[n]
        gap = (lam - target(case, k))**2
        value = float(sum(weightings(case, k)*gap))
        expect_close(get('obj_no_constraints')[i], value, 1e-9, '%s: '
                     'objective of panel %d, %s', what, i, stack)
        total += panels[i]['weighting']*value \
            * (1 + co['coeff_diso']*diso/n) \
            * (1 + co['coeff_contig']*contig/n) \
            * (1 + co['coeff_10']*pen10)
    expect_close(get('obj_constraints'), total, 1e-9*(1 + abs(total)), '%s: '
                 'objective of the structure %s', what, ss)
    return total


def check(case, ctx):
    s = bella.run(case)
    if s.res is None:
        ctx.label(s.why)
        return
    res = s.res
    values = {}
    for k, obj in enumerate(res.obj_constraints_tab):
        if np.isnan(obj):
            continue
        ss = [list(map(int, x)) for x in res.ss_tab[k]]
        sst = [list(map(int, x)) for x in res.ss_tab_tab[k]]

        def get(name):
            if name == 'lampam':
                return res.lampam_tab_tab[:, k]
            return getattr(res, name + '_tab')[k]
        check_design(case, s, get, ss, sst, 'layout %d' % k)
        expect_close(res.penalty_spacing_tab[k], spacing(case, s.mp, sst),
                     1e-9, 'layout %d: spacing penalty of %s', k, sst)
        values[k] = float(obj)
        n = [int(getattr(res, 'n_designs_%s_tab' % t)[k]) for t in (
            'last_level', 'after_ss_ref_repair', 'after_thick_to_thin',
            'after_thin_to_thick')]
        expect(n == sorted(n, reverse=True) and n[-1] >= 1
               and n[0] <= case['params']['global_node_limit_final'],
               'layout %d: numbers of designs %s', k, n)
        unique = int(res.n_designs_repaired_unique_tab[k])
        expect(1 <= unique <= n[-1], 'layout %d: %d unique designs among %d',
               k, unique, n[-1])
    best = min(values, key=values.get)
    expect(values[res.ind_mini] == values[best], 'the design of layout %d is '
           'returned although that of layout %d is better: %s', res.ind_mini,
           best, values)
    k = res.ind_mini
    for name, want in (('obj_constraints', res.obj_constraints_tab[k]),
                       ('obj_no_constraints', res.obj_no_constraints_tab[k]),
                       ('n_plies_per_angle', res.n_plies_per_angle_tab[k]),
                       ('lampam', res.lampam_tab_tab[:, k]),
                       ('sst', res.ss_tab_tab[k])):
        expect(np.array_equal(np.array(getattr(res, name)), np.array(want)),
               '%s is not that of the best design', name)
    expect([list(x) for x in res.ss] == [list(x) for x in res.ss_tab[k]],
           'ss is not that of the best design')
    ctx.nontrivial(len(values) > 1)
    ctx.label('%d layouts' % len(values))


SUBS = [
    Sub('reported', bella.problem(), check, 320, 12000,
        rule='designs found with several ply-drop layouts'),
    Sub('asym', bella.problem(sym=False), check, 120, 4000,
        rule='designs found with several ply-drop layouts'),
    Sub('large', bella.problem(max_half=20, wide=True), check, 48, 3000,
        rule='designs found with several ply-drop layouts'),
]
