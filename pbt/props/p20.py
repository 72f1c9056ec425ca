"""P20 complete optimisation: determinism and irrelevant inputs"""
import copy
import random
import numpy as np
from hypothesis import strategies as st
from pbt import bella
from pbt.core import Sub, expect, expect_close

CHANGES = ['rerun', 'identifiers', 'panel order', 'angle order',
           'lampam weightings', 'panel weightings', 'geometry', 'material',
           'disabled rules', 'filtered targets', 'neighbour declarations',
           'boundary weights', 'boundary weightings']


@st.composite
def pairs(draw, wide=False):
    case = draw(bella.problem(max_panels=4, max_half=14 if wide else 10,
                              wide=wide))
    change = draw(st.sampled_from(CHANGES))
    if change in ('panel weightings', 'boundary weightings'):
        # many nodes rejected
        for k in case['params']:
            if 'node_limit' in k:
                case['params'][k] = draw(st.integers(2, 3))
    return dict(case=case, change=change,
                key=draw(st.integers(0, 10**6)))


def changed(case, change, key):
    """the changed problem, the number of the initial panel of each panel and
    the expected ratio of the objectives"""
    rng = random.Random(key)
    new = copy.deepcopy(case)
    data, kw = new['data'], new['kw']
    n = len(data['panels'])
    perm, ratio = list(range(n)), 1
    if change == 'identifiers':
        ids = rng.sample(range(1, 60), n)
        for p, i in zip(data['panels'], ids):
            p['ID'] = i
    elif change == 'panel order':
        # panels of equal thickness keep their order: the first one counts
        counts = [p['n_plies'] for p in data['panels']]
        slots = counts[:]
        rng.shuffle(slots)
        perm = []
        for c in slots:
            perm.append([i for i in range(n) if counts[i] == c
                         and i not in perm][0])
        where = {old: i for i, old in enumerate(perm)}
        data['panels'] = [data['panels'][i] for i in perm]
        new['targets'] = [new['targets'][i] for i in perm]
        new['weights'] = [new['weights'][i] for i in perm]
        data['edges'] = [[where[i], where[j]] for i, j in data['edges']]
    elif change == 'angle order':
        rng.shuffle(kw['set_of_angles'])
    elif change == 'lampam weightings':
        new['weights'] = [[4*w for w in row] for row in new['weights']]
    elif change == 'panel weightings':
        # powers of two: the same roundings
        ratio = rng.choice([4, 2**10, 2**20])
        for p in data['panels']:
            p['weighting'] *= ratio
    elif change == 'boundary weightings':
        if data['weights']:
            scale = rng.choice([2, 2**12, 2**20])
            data['weights'] = [[b, scale*w] for b, w in data['weights']]
    elif change == 'geometry':
        for p in data['panels']:
            p.update(length_x=rng.choice([0.3, 2.5]), length_y=rng.random(),
                     N_x=rng.choice([1, 5]), N_y=rng.choice([-2, 7]))
    elif change == 'material':
        new['mat'] = not new['mat']
    elif change == 'disabled rules':
        if not kw['covering'] and not kw['dam_tol']:
            kw['n_covering'] = (kw['n_covering'] + rng.randint(1, 2)) % 3
        if not kw['diso']:
            kw['delta_angle'] = rng.choice([30, 45, 60, 90])
        if not kw['contig']:
            kw['n_contig'] = rng.randint(2, 6)
        if not kw['dam_tol']:
            kw['dam_tol_rule'] = rng.choice([1, 2, 3])
        if not kw['pdl_spacing']:
            kw['min_drop'] = rng.randint(1, 4)
        if not kw['rule_10_percent']:
            kw.update(percent_0=rng.choice([5, 20]), percent_90=20,
                      percent_45_135=rng.choice([5, 20]))
            new['coeffs']['coeff_10'] = rng.choice([0, 2])
        new['coeffs']['coeff_bal_ipo'] = rng.choice([0, 1, 2])
        if not kw['oopo']:
            new['coeffs']['coeff_oopo'] = rng.choice([0, 1, 2])
    elif change == 'filtered targets':
        # lamination parameters imposed by the guidelines
        gone = [4, 5, 6, 7]*kw['sym'] + [2, 3]*kw['bal'] + [10, 11]*kw['oopo']
        for row in new['targets']:
            for k in gone:
                row[k] = rng.randint(-9, 9)/10
    elif change == 'neighbour declarations':
        data['decl'] = [rng.choice(['first', 'second', 'both'])
                        for _ in data['decl']]
    elif change == 'boundary weights':
        # boundaries between panels of the same thickness
        if data['weights']:
            for k, (i, j) in enumerate(data['edges']):
                if data['panels'][i]['n_plies'] == \
                        data['panels'][j]['n_plies']:
                    data['weights'][k] = [rng.random() < 0.5, rng.randint(1,
                                                                          5)]
                else:
                    data['weights'][k] = [rng.random() < 0.5,
                                          data['weights'][k][1]]
    return new, perm, ratio


def check(case, ctx):
    new, perm, ratio = changed(case['case'], case['change'], case['key'])
    a = bella.run(case['case'])
    b = bella.run(new)
    if a.res is None or b.res is None:
        expect(a.res is None and b.res is None and a.why == b.why,
               '%s: %s, then %s', case['change'], getattr(a, 'why', 'design'),
               getattr(b, 'why', 'design'))
        ctx.label('none')
        return
    ctx.label(case['change'])
    ctx.nontrivial(len({p['n_plies'] for p in
                        case['case']['data']['panels']}) > 1)
    same_designs(a, b, perm, ratio, 'change of ' + case['change'])


def same_designs(a, b, perm, ratio, what):
    "the designs of b are those of a for the panels perm"
    expect(len(a.res.ss_tab) == len(b.res.ss_tab),
           '%s: %d layouts designed instead of %d', what,
           len(b.res.ss_tab), len(a.res.ss_tab))
    for k in range(len(a.res.ss_tab)):
        one = [list(map(int, a.res.ss_tab_tab[k][i])) for i in perm]
        two = [list(map(int, r)) for r in b.res.ss_tab_tab[k]]
        expect(one == two, '%s: layout %d designed as\n%s\ninstead of\n%s',
               what, k, two, one)
    x, y = a.res.obj_constraints_tab, b.res.obj_constraints_tab
    for k, (u, v) in enumerate(zip(x, y)):
        if np.isnan(u) or np.isnan(v):
            expect(np.isnan(u) and np.isnan(v), 'layout %d without design', k)
        else:
            expect_close(float(v), ratio*float(u), 1e-9*(1 + abs(u)),
                         '%s: objective of layout %d', what, k)
    expect([list(map(int, s)) for s in b.res.ss] ==
           [list(map(int, a.res.ss[i])) for i in perm],
           '%s: best design changed', what)


@st.composite
def histories(draw):
    case = draw(bella.problem(max_panels=3, max_half=9))
    case['params']['n_ini_ply_drops'] = draw(st.sampled_from([1, 3, 5]))
    how = draw(st.sampled_from(['all', 'settings', 'targets', 'structure']))
    before = copy.deepcopy(case)
    if how == 'settings':
        before = draw(bella.problem(max_panels=3, max_half=9,
                                    sym=case['kw']['sym']))
        before.update({k: copy.deepcopy(case[k]) for k in (
            'kw', 'params', 'coeffs', 'mat')})
    elif how in ('targets', 'structure'):
        for k in ('bal', 'oopo', 'diso', 'contig'):
            before['kw'][k] = draw(st.booleans())
        if how == 'targets' and case['kw']['sym']:
            case['kw']['sym'] = draw(st.booleans())
    return dict(case=case, before=before, how=how)


def check_history(case, ctx):
    "the same objects used in an earlier optimisation"
    now, before, how = case['case'], case['before'], case['how']
    fresh = bella.run(now)
    if how == 'targets':
        # the same arrays
        arrays = [[np.array(r, float) for r in now[k]]
                  for k in ('targets', 'weights')]
        before = dict(before, targets=arrays[0], weights=arrays[1])
        now = dict(now, targets=arrays[0], weights=arrays[1])
    first = bella.run(before)
    again = bella.build(now)
    if how in ('all', 'structure'):
        again.mp = first.mp
    if how in ('all', 'settings'):
        again.con, again.par, again.obj, again.mat = (
            first.con, first.par, first.obj, first.mat)
    again = bella.run(now, tools=again)
    what = 'after an optimisation with the same ' + (
        'objects' if how == 'all' else how)
    ctx.label('%s %s' % (how, 'none' if fresh.res is None else 'design'))
    if fresh.res is None or again.res is None:
        expect(fresh.res is None and again.res is None and
               fresh.why == again.why, '%s: %s, on its own: %s', what,
               getattr(again, 'why', 'design'),
               getattr(fresh, 'why', 'design'))
        return
    ctx.nontrivial(len({p['n_plies'] for p in now['data']['panels']}) > 1)
    same_designs(fresh, again, range(len(now['data']['panels'])), 1, what)


SUBS = [
    Sub('pairs', pairs(), check, 320, 8000,
        rule='designs with panels of different thicknesses'),
    Sub('pairs-large', pairs(wide=True), check, 48, 1500,
        rule='designs with panels of different thicknesses'),
    Sub('history', histories(), check_history, 200, 5000,
        rule='designs with panels of different thicknesses'),
]
