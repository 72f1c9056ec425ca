"""P14 objective functions and lamination-parameter weightings"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, structures
from pbt.core import Sub, expect, expect_close

BASE = {0, 45, -45, 90}
lamp = gen.coef()
lp12 = st.lists(lamp, min_size=12, max_size=12)
w12 = st.lists(st.sampled_from([0, 0, 1, 1, 2, 0.5, 3, 10]), min_size=12,
               max_size=12)


@st.composite
def bella_case(draw):
    data = draw(structures.panel_graphs(True, 1, 5, lo=4, hi=20,
                                        weights=False))
    n = len(data['panels'])
    k = len({p['n_plies'] for p in data['panels']})
    pen = st.sampled_from([0, 0, 0, 0.1, 0.5, 1, 2])
    return dict(
        data=data, targets=draw(st.lists(lp12, min_size=n, max_size=n)),
        weights=draw(st.lists(w12, min_size=n, max_size=n)),
        lampam=draw(st.lists(lp12, min_size=k, max_size=k)),
        bal=draw(st.booleans()), oopo=draw(st.booleans()),
        angles=draw(gen.angle_sets()),
        penalties=draw(st.lists(st.lists(pen, min_size=k, max_size=k),
                                min_size=6, max_size=6)),
        coeffs=draw(st.lists(st.sampled_from([0, 0.5, 1, 2, 10]), min_size=6,
                             max_size=6)),
        given=draw(st.lists(st.booleans(), min_size=6, max_size=6)),
        known=draw(st.lists(st.booleans(), min_size=k, max_size=k)),
        shared=draw(st.lists(st.sampled_from([False, False, True]),
                             min_size=6, max_size=6)),
        exact=draw(st.sampled_from([False, False, True])))


NAMES = ['diso', 'contig', '10', 'bal_ipo', 'oopo', 'weight']


def check_bella(case, ctx):
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.objectives import calc_obj_one_panel, calc_obj_each_panel
    from src.BELLA.objectives import calc_obj_multi_panel
    con = gen.build_constraints(dict(
        sym=True, bal=case['bal'], oopo=case['oopo'],
        set_of_angles=case['angles']), noise=case.get('noise', 0))
    zero = {4, 5, 6, 7} | ({2, 3} if case['bal'] else set()) \
        | ({10, 11} if case['oopo'] else set()) \
        | ({3, 11} if set(case['angles']) == BASE else set())
    weights = [[0 if i in zero else w for i, w in enumerate(ws)]
               for ws in case['weights']]
    given = [[1] + ws[1:] if not any(f) else ws
             for f, ws in zip(weights, case['weights'])]
    mp = structures.build(case['data'], con, targets=case['targets'],
                          weightings=given)
    obj = ObjFunction(con)
    mp.filter_target_lampams(con, obj)
    mp.filter_lampam_weightings(con, obj)
    mp.from_mp_to_blending_strip(con)
    plies = [p['n_plies'] for p in case['data']['panels']]
    uniq = sorted(set(plies))
    lampam = [np.array(v, float) for v in case['lampam']]
    if case['exact']:
        lampam = [np.copy(p.lampam_target) for p in mp.reduced.panels]
    want = []
    for v, p in zip(lampam, mp.reduced.panels):
        want.append(sum(w*(a - b)**2 for w, a, b in zip(
            p.lampam_weightings, v, p.lampam_target)))
        got = calc_obj_one_panel(v, p.lampam_target, p.lampam_weightings)
        expect_close(got, want[-1], 1e-12, 'objective of one panel')
        expect(got >= 0 and (got == 0 or not case['exact']),
               'objective %s when the targets are matched', got)
    each = calc_obj_each_panel(
        mp, np.array(lampam), obj,
        lampam_weightings=[p.lampam_weightings for p in mp.reduced.panels])
    expect_close(each, want, 1e-12, 'objectives of the panels')
    # several panels
    panel_w = np.array([sum(p['weighting'] for p in case['data']['panels']
                            if p['n_plies'] == u) for u in uniq], float)
    kw = {}
    factor = np.ones(len(uniq))
    for name, pen, c, g, one in zip(NAMES, case['penalties'], case['coeffs'],
                                    case['given'], case.get('shared', [0]*6)):
        if one and name not in ('bal_ipo', 'weight'):
            pen = pen[:1]  # the same for all the panels
        if g:
            kw['penalty_' + name] = np.array(pen, float)
            kw['coeff_' + name] = c
            factor *= 1 + c*np.array(pen, float)
    total = calc_obj_multi_panel(each, panel_w, **kw)
    expect_close(total, float(np.sum(panel_w*each*factor)), 1e-9,
                 'objective of the structure, %s', kw)
    expect(total >= np.sum(panel_w*each) - 1e-9, 'a penalty is rewarded')
    ctx.nontrivial(len(uniq) > 1 and (factor != 1).any())
    # panels that are not designed yet do not contribute
    if len(uniq) < 2:
        return
    some = [o if k else None for o, k in zip(each, case['known'])]
    kw = dict(kw)
    for name in NAMES:
        if 'penalty_' + name not in kw:
            kw['penalty_' + name] = None
    part = calc_obj_multi_panel(some, panel_w, with_Nones=True, **kw)
    keep = np.array(case['known'])
    expect_close(np.sum(part), float(np.sum((panel_w*each*factor)[keep])), 1e-9,
                 'objective of the designed panels')


@st.composite
def layla_case(draw):
    base = draw(st.booleans())
    ipo = draw(st.booleans())
    return dict(
        angles=sorted(BASE) if base else draw(gen.angle_sets(max_extra=1)),
        sym=draw(st.booleans()), ipo=ipo, oopo=draw(st.booleans()),
        bal=draw(st.booleans()), switch=draw(st.booleans()),
        c_ipo=draw(st.sampled_from([0, 0.5, 1, 2, 10])),
        c_oopo=draw(st.sampled_from([0, 0.5, 1, 2, 10])),
        sens=draw(w12), chosen=draw(st.lists(
            st.sampled_from([0, 1, 1, 1]), min_size=12, max_size=12)),
        target=draw(lp12), lampam=draw(st.lists(lp12, min_size=1,
                                                max_size=4)),
        norm=draw(st.sampled_from([1, 2])),
        pen=draw(st.lists(st.sampled_from([0, 0, 0.2, 1]), min_size=3,
                          max_size=3)),
        coeffs=draw(st.lists(st.sampled_from([0, 0.5, 1, 5]), min_size=3,
                             max_size=3)))


def check_layla(case, ctx):
    from src.LAYLA_V02.constraints import Constraints
    from src.LAYLA_V02.objectives import objectives, calc_obj_multi_ss
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    con = gen.build_constraints(dict(
        sym=case['sym'], ipo=case['ipo'], oopo=case['oopo'], bal=case['bal'],
        set_of_angles=case['angles']), Constraints,
        noise=case.get('noise', 0))
    base = set(case['angles']) == BASE
    zero = ({4, 5, 6, 7} if case['sym'] else set()) \
        | ({2, 3} if con.ipo else set()) \
        | ({10, 11} if case['oopo'] else set()) \
        | ({3, 7, 11} if base else set())
    sens = [float(s*c) for s, c in zip(case['sens'], case['chosen'])]
    want = np.array([0 if i in zero else s for i, s in enumerate(sens)])
    if not want.any():
        return
    par = Parameters(
        con, first_level_sensitivities=np.array(case['sens'], float),
        lampam_to_be_optimised=np.array(case['chosen'], float),
        penalty_ipo_switch=case['switch'], coeff_bal_ipo=case['c_ipo'],
        coeff_oopo=case['c_oopo'], type_obj_func=case['norm'])
    mean = want[want != 0].mean()
    if con.ipo and case['switch']:
        for i in ([2] if base else [2, 3]):
            want[i] = mean*case['c_ipo']
    if case['oopo']:
        for i in ([10] if base else [10, 11]):
            want[i] = mean*case['c_oopo']
    want /= want.sum()
    expect_close(par.lampam_weightings_final, want, 1e-12,
                 'weightings of the lamination parameters for %s', sens)
    expect_close(par.lampam_weightings_ini, np.array(sens)/sum(sens), 1e-12,
                 'initial weightings')
    for got, w in ((par.weighting_finalA, want[:4]),
                   (par.weighting_finalD, want[8:])):
        expect_close(got, w/w.sum() if w.any() else w, 1e-12,
                     'in-plane or out-of-plane weightings')
    ctx.nontrivial(con.ipo or case['oopo'])
    ctx.label('ipo %d oopo %d switch %d' % (con.ipo, case['oopo'],
                                            case['switch']))
    target = Targets(n_plies=20, lampam=np.array(case['target'], float))
    target.filter_target_lampams(con)
    off = ({4, 5, 6, 7} if case['sym'] else set()) \
        | ({2, 3} if con.ipo else set()) \
        | ({10, 11} if case['oopo'] else set())
    goal = np.array([0 if i in off else t
                     for i, t in enumerate(case['target'])], float)
    expect_close(target.lampam, goal, 0, 'filtered targets')
    lampam = np.array(case['lampam'], float)
    ref = [np.sum(want*np.abs(v - goal)**case['norm']) for v in lampam]
    got = objectives(lampam, target, par.lampam_weightings_final, con, par)
    expect_close(got, ref, 1e-12, 'objectives of several laminates')
    one = objectives(lampam[0], target, par.lampam_weightings_final, con, par)
    expect_close(one, ref[0], 1e-12, 'objective of one laminate')
    p10, pbal, poo = case['pen']
    c10, cbal, coo = case['coeffs']
    total = calc_obj_multi_ss(np.array(ref), p10, pbal, poo, c10, cbal, coo)
    expect_close(total, np.array(ref)*(1 + c10*p10)*(1 + cbal*pbal)
                 * (1 + coo*poo), 1e-12, 'objective with penalties')


SUBS = [
    Sub('bella', gen.noisy(bella_case()), check_bella, 2400, 40000,
        rule='several thicknesses and at least one penalty'),
    Sub('layla', gen.noisy(layla_case()), check_layla, 3000, 50000,
        rule='in-plane or out-of-plane orthotropy required')]
