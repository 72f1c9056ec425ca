"""Complete runs of BELLA: generation of design problems and runs with the
saving of the results and the clocks replaced."""
import contextlib
import importlib
import io
import os
import random
import tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import gen, standin, structures
from pbt.props.p15 import Clock

ACCEPTED = ('No laminate design solution with any',
            'beam search with no solutions',
            'No conform ply drop layout can be generated')
SAVES = {'src.BELLA.save_set_up': (
             'save_constraints_BELLA', 'save_parameters_BELLA',
             'save_multipanel', 'save_objective_function_BELLA',
             'save_materials'),
         'src.BELLA.save_result': ('save_result_BELLAs',),
         'src.divers.excel': ('autofit_column_widths', 'delete_file')}


@st.composite
def problem(draw, max_panels=5, max_half=12, abdalla=True, sym=None,
            wide=False):
    """a design problem, as plain data: symmetric laminates whose ply counts
    are all even or all odd, or asymmetric laminates (wide: many panels and
    thicknesses)"""
    if sym is None:
        sym = draw(st.sampled_from([True]*5 + [False]))
    kw = draw(gen.constraint_kwargs(
        sym=sym, angles=draw(st.sampled_from(
            [gen.BASE]*5 + [gen.BASE + [30, -30], gen.BASE + [60, -60],
                            gen.BASE + [30, -30, 60, -60],
                            gen.BASE + [20, -20, 72, -72],
                            list(range(-75, 91, 15))]).flatmap(
                                lambda a: st.one_of(
                                    st.just(a), st.permutations(a)))),
        percent_mode=draw(st.sampled_from(['off', 'combined', 'separate']))))
    if kw['rule_10_percent']:
        for k in list(kw):
            if k.startswith('percent_'):
                kw[k] = draw(st.sampled_from([0, 10, 10, 10, 15]))
        if abdalla and draw(st.sampled_from([False]*4 + [True])):
            kw.update(rule_10_Abdalla=True,
                      percent_Abdalla=draw(st.sampled_from([5, 10])))
    kw['n_contig'] = draw(st.sampled_from([2, 3, 4, 5, 5, 6]))
    kw['min_drop'] = draw(st.sampled_from([1, 2, 2, 3]))
    odd = draw(st.sampled_from([0, 0, 1]))
    half = draw(st.integers(6, max_half))
    if not sym:
        half = min(2*half, 22) if wide else 2*half
    few = draw(st.sampled_from([3, 4] if wide else [1, 2, 2]))
    halves = draw(st.lists(st.integers(5 if sym else 8, half),
                           min_size=min(few, half - 4 if sym else half - 7),
                           max_size=6 if wide else 3, unique=True))
    n = draw(st.sampled_from([5, 6, 8, 10] if wide else
                             [1, 2, 3, 4, 5][:max_panels] + [3]))
    plies = halves[:n]
    plies += [draw(st.sampled_from(halves)) for _ in range(n - len(plies))]
    if sym:
        plies = [2*h + odd for h in plies]
    plies = draw(st.permutations(plies))
    data = draw(structures.panel_graphs(sym, n, n, ply_counts=plies))
    targets = [draw(st.lists(gen.coef(), min_size=12, max_size=12))
               for _ in range(n)]
    weights = []
    for _ in range(n):
        w = draw(st.lists(st.sampled_from([0, 1, 1, 2]), min_size=12,
                          max_size=12))
        w[draw(st.sampled_from([0, 1, 8, 9]))] = 1
        weights.append(w)
    lim = st.integers(1, 3 if wide else 6)
    params = dict(
        group_size_min=draw(st.integers(2, 5)),
        group_size_max=draw(st.integers(6, 12)),
        n_ini_ply_drops=draw(st.integers(1, 3)),
        global_node_limit=draw(st.integers(1, 3 if wide else 8)),
        local_node_limit=draw(st.integers(1, 3 if wide else 8)),
        global_node_limit_final=draw(lim), local_node_limit_final=draw(lim),
        global_node_limit2=draw(lim), local_node_limit2=draw(lim),
        global_node_limit3=draw(lim), local_node_limit3=draw(lim),
        p_A=draw(st.sampled_from([0, 50, 80, 100])),
        n_D1=draw(st.sampled_from([3, 5, 6])),
        n_D2=draw(st.sampled_from([2, 5, 10])),
        n_D3=draw(st.integers(1, 2)),
        repair_membrane_switch=draw(st.booleans()),
        repair_flexural_switch=draw(st.booleans()),
        n_plies_ref_panel=draw(st.sampled_from([1, 1, 1000, max(plies) - 2, 14])),
        save_success_rate=True)
    coeffs = {k: draw(st.sampled_from([0, 1, 1, 3])) for k in (
        'coeff_diso', 'coeff_contig', 'coeff_10', 'coeff_bal_ipo',
        'coeff_oopo', 'coeff_spacing')}
    return dict(kw=kw, data=data, targets=targets, weights=weights,
                params=params, coeffs=coeffs,
                mat=draw(st.sampled_from([True, True, False])),
                seed=draw(st.integers(0, 10**6)))


class Set:
    "the objects of one problem"


def build(case):
    from src.BELLA.materials import Material
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.parameters import Parameters
    s = Set()
    s.con = gen.build_constraints(case['kw'])
    s.par = Parameters(s.con, time_limit_group_pdl=1, time_limit_all_pdls=1,
                       **case['params'])
    s.obj = ObjFunction(s.con, **case['coeffs'])
    s.mp = structures.build(case['data'], s.con, case['targets'],
                            case['weights'])
    s.mat = Material(E11=141e9, E22=9.03e9, nu12=.32, G12=4.27e9,
                     density_area=300.5, ply_t=.00019) if case['mat'] \
        else None
    return s


@contextlib.contextmanager
def sandboxed(case, save=False):
    "clocks, saving and the random generators under control"
    from pbt.props.p23 import distance
    importlib.import_module('src.BELLA.optimiser')
    importlib.import_module('src.RELAY.repair_mp')
    with contextlib.ExitStack() as stack:
        if not save:
            stack.enter_context(standin.replaced(*standin.pairs(
                *[(mod, name, lambda *a, **k: None)
                  for mod, names in SAVES.items() for name in names])))
        stack.enter_context(standin.abdalla(distance))
        for mod in standin.modules():
            stack.enter_context(standin.clock(Clock(0.05), [mod]))
        random.seed(case['seed'])
        np.random.seed(case['seed'])
        stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
        yield


def run(case, tools=None, filename=None, save=False, **kw):
    """results of BELLA, None if the problem has no solution (for BELLA)"""
    from src.BELLA.optimiser import BELLA_optimiser
    from src.BELLA.divide_panels import PartitioningError
    s = tools or build(case)
    with sandboxed(case, save), tempfile.TemporaryDirectory() as folder:
        filename = filename or os.path.join(folder, 'results.xlsx')
        try:
            s.res = BELLA_optimiser(s.mp, s.par, s.obj, s.con, filename,
                                    s.mat, **kw)
        except PartitioningError:
            s.res, s.why = None, 'no partition'
        except Exception as exc:
            if not any(t in str(exc) for t in ACCEPTED):
                raise
            s.res, s.why = None, str(exc).strip()[:40]
    return s
