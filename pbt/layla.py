"""Complete optimisations of single laminates with LAYLA"""
import contextlib
import io
import random
from types import SimpleNamespace
import numpy as np
from hypothesis import strategies as st
from pbt import gen, cla_stub


@st.composite
def problem(draw, sym=None, max_plies=30, refine=False):
    kw = draw(gen.constraint_kwargs(
        sym=sym, percent_mode=draw(st.sampled_from(
            ['off', 'combined', 'separate'])),
        covering=False, pdl_spacing=False))
    kw['ipo'] = draw(st.sampled_from([False, False, True]))
    if kw['rule_10_percent']:
        for k in list(kw):
            if k.startswith('percent_'):
                kw[k] = draw(st.sampled_from([0, 10, 10, 15, 20]))
        if not kw.get('percent_45_135') and not kw.get('percent_45') and \
                not kw.get('percent_135'):
            kw['percent_45_135'] = 10
    gmin = max(draw(st.integers(4, 6)), kw['n_contig']*kw['contig'])
    n = draw(st.integers(max(8, gmin*(1 + kw['sym'])*(1 + refine)),
                         max_plies))
    steps = draw(st.integers(4, 6) if refine else st.integers(1, 3))
    big = draw(st.booleans()) and not refine
    sizes = [draw(st.integers(gmin + 2*refine, gmin + 5)) + (50 if big else 0)
             for _ in range(steps)]
    goal = draw(gen.stacks(kw['set_of_angles'], 1, 10))
    if not refine and draw(st.booleans()):
        target = [float(x) for x in cla_stub.lampam_of(goal)]
    else:
        target = draw(st.lists(gen.coef(), min_size=12, max_size=12))
    weights = draw(st.lists(st.sampled_from([0, 1, 1, 2, 5]), min_size=12,
                            max_size=12))
    part = draw(st.sampled_from(['A', 'D', 'AD', 'ABD']))
    for k in (0, 1, 8, 9):
        weights[k] = max(1, weights[k])
    use = [int(k in range(0, 4) and 'A' in part or k in range(8, 12)
               and 'D' in part or k in range(4, 8) and 'B' in part)
           for k in range(12)]
    limit = st.sampled_from([1, 1, 2] if refine else [1, 2, 3, 5, 8, 12])
    par = dict(
        n_outer_step=steps, group_size_min=gmin, group_size_max=sizes,
        global_node_limit=draw(limit), global_node_limit_p=draw(limit),
        local_node_limit=draw(limit), local_node_limit_final=draw(limit),
        p_A=draw(st.sampled_from([0, 50, 80, 100])),
        n_D1=draw(st.sampled_from([2, 4, 6])), n_D2=draw(
            st.sampled_from([3, 10])), n_D3=draw(st.integers(1, 2)),
        repair_membrane_switch=draw(st.booleans()),
        repair_flexural_switch=draw(st.booleans()),
        penalty_10_pc_switch=draw(st.booleans()),
        type_obj_func=draw(st.sampled_from([1, 2, 2])),
        coeff_10=draw(st.sampled_from([0, 1, 2.5])),
        coeff_bal_ipo=draw(st.sampled_from([0, 1, 2.5])),
        coeff_oopo=draw(st.sampled_from([0, 1, 2.5])))
    par.update(draw(st.sampled_from([
        {}, dict(penalty_ipo_switch=True), dict(penalty_bal_switch=True)])))
    return dict(kw=kw, n=n, par=par, target=target, weights=weights, use=use)


WHY = ['Partitioning of the laminate not possible', 'No partition possible',
       'Infeasible beam-search', 'No successfull repair']


def build(case):
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    con = gen.build_layla_constraints(case['kw'])
    par = dict(case['par'])
    par['group_size_max'] = np.array(par['group_size_max'])
    par = Parameters(
        con, first_level_sensitivities=np.array(case['weights'], float),
        lampam_to_be_optimised=np.array(case['use'], float), **par)
    return SimpleNamespace(con=con, par=par, targets=Targets(
        n_plies=case['n'], lampam=np.array(case['target'], float)))


def run(case, tools=None):
    from src.LAYLA_V02.optimiser import LAYLA_optimiser
    s = tools or build(case)
    s.res, s.why = None, None
    random.seed(1)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            s.res = LAYLA_optimiser(s.par, s.con, s.targets)
        except Exception as exc:
            s.why = next((w for w in WHY if w in str(exc)), None)
            if s.why is None:
                raise
    return s
