"""P36 the set-up of LAYLA in a workbook"""
import contextlib
import io
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect
from pbt.props.p09 import LAYLA_SWITCH, layla_case
from pbt.props.p21 import book, ints, pairs, same


@st.composite
def setups(draw):
    case = draw(layla_case())
    case = {k: case[k] for k in ('kw', 'par', 'sens', 'chosen', 'one_size')}
    case['sens'][0] = case['chosen'][0] = case['chosen'][8] = 1
    case['sens'][8] = 2
    for one, two in (LAYLA_SWITCH[:2], LAYLA_SWITCH[2:]):
        case['par'][one] &= not case['par'][two]
    case['not_kw'] = draw(st.one_of(st.none(), gen.constraint_kwargs(
        max_extra=1)))
    if case['not_kw']:
        case['not_kw']['ipo'] = draw(st.booleans())
    case['mat'] = {
        'E11': draw(st.integers(1, 200))*1e9,
        'E22': draw(st.integers(1, 200))*1e9,
        'nu12': draw(st.integers(0, 9))/20, 'G12': draw(st.integers(1, 90))*1e9,
        'ply_t': draw(st.integers(1, 9))/1e4}
    case['density'] = draw(st.integers(1, 4000))/10
    case['order'] = draw(st.permutations(['c', 'p', 'm']))
    return case


NAMES = {'percent_0': 'percent_0', 'percent_90': 'percent_90',
         'percent_45': 'percent_45', 'percent_135': 'percent_-45',
         'percent_45_135': 'percent_+-45'}


def percentages(got, kw, ending=''):
    g = {k: kw.get(k, 0) if kw['rule_10_percent'] else 0 for k in NAMES}
    # minimum of +-45 plies: at least the minima of both together
    g['percent_45_135'] = max(g['percent_45_135'],
                              g['percent_45'] + g['percent_135'])
    for key, name in NAMES.items():
        expect(name + ending in got, 'sheet Constraints: no %s', name + ending)
        same(got[name + ending], g[key], 1e-9, 'sheet Constraints: %s',
             name + ending)


def check(case, ctx):
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.materials import Material
    from src.LAYLA_V02.save_set_up import save_constraints_LAYLA, \
        save_parameters_LAYLA_V02, save_materials
    kw, other = case['kw'], case['not_kw']
    con = gen.build_layla_constraints(kw)
    not_con = gen.build_layla_constraints(other) if other else None
    par = dict(case['par'])
    sizes = par.pop('group_size_max')
    # a single size is used for all outer steps
    sizes = [sizes[0]]*len(sizes) if case['one_size'] else sizes
    p = Parameters(con, first_level_sensitivities=np.array(case['sens'], float),
                   lampam_to_be_optimised=np.array(case['chosen'], float),
                   group_size_max=sizes[0] if case['one_size'] else
                   np.array(sizes), **par)
    mat = Material(density_area=case['density'], **case['mat'])
    todo = {'c': lambda: save_constraints_LAYLA(name, con, not_con),
            'p': lambda: save_parameters_LAYLA_V02(name, p),
            'm': lambda: save_materials(name, mat)}
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'set-up.xlsx')
        with contextlib.redirect_stdout(io.StringIO()):
            for k in case['order']:
                todo[k]()
        content = book(name)
    expect(set(content) - {'Sheet'} == {'Constraints', 'Parameters',
                                        'Materials'},
           'sheets %s', sorted(content))

    got = pairs(content['Constraints'], 'Constraints')
    want = {'symmetry': kw['sym'], 'balance': kw['bal'],
            'in-plane orthotropy': kw['ipo'] or kw['bal'],
            'out-of-plane orthotropy': kw['oopo'],
            'damage tolerance': kw['dam_tol'],
            '10% rule': kw['rule_10_percent'], 'diso': kw['diso'],
            'contig': kw['contig']}
    if kw['diso']:
        want['delta_angle'] = kw['delta_angle']
    if kw['contig']:
        want['n_contig'] = kw['n_contig']
    for key in want:
        expect(key in got, 'sheet Constraints: no %s', key)
        same(got[key], want[key], 1e-9, 'sheet Constraints: %s', key)
    percentages(got, kw)
    expect(sorted(ints(got['fibre orientations'])) ==
           sorted(kw['set_of_angles']), 'sheet Constraints: orientations %s',
           got['fibre orientations'])
    want = {}
    if other:
        for rule, key, values in (
                ('diso', 'No diso !', [('delta_angle', 'delta_angle (no)')]),
                ('contig', 'No contig !', [('n_contig', 'n_contig (no)')]),
                ('bal', 'No balance !', []),
                ('ipo', 'No in-plane orthotropy !', []),
                ('rule_10_percent', 'No 10% rule !', [])):
            if other[rule]:
                want[key] = True
                for setting, label in values:
                    want[label] = other[setting]
        if other['bal']:
            want['No in-plane orthotropy !'] = True
        if other['rule_10_percent']:
            percentages(got, other, ' (no)')
    for key in want:
        expect(key in got, 'sheet Constraints: no %s', key)
        same(got[key], want[key], 1e-9, 'sheet Constraints: %s', key)
    for key in got:
        if '!' in str(key):
            expect(key in want, 'sheet Constraints: %s although it is not '
                   'asked for', key)

    got = pairs(content['Parameters'], 'Parameters')
    ten, bal, ipo = kw['rule_10_percent'], kw['bal'], kw['bal'] or kw['ipo']
    want = {'maximum number of iterations': par['n_outer_step'],
            'penalty for the 10% rule (ply counts)':
            ten and par['penalty_10_pc_switch'],
            'penalty for the 10% rule (lampam)':
            ten and par['penalty_10_lampam_switch'],
            'penalty for balance': bal and par['penalty_bal_switch'],
            'penalty for in-plane orthotropy':
            ipo and par['penalty_ipo_switch'],
            'coeff for in-plane orthotropy/balance penalty':
            par['coeff_bal_ipo'] if ipo else 0,
            'coeff for out-of plane orthotropy penalty':
            par['coeff_oopo'] if kw['oopo'] else 0,
            'coeff for the 10% rule penalty': par['coeff_10'] if ten else 0,
            'minimum group size': par['group_size_min']}
    for key in par:
        if 'node_limit' in key or key in ('n_D1', 'n_D2', 'n_D3', 'p_A') \
                or key.startswith('repair'):
            want[key] = par[key]
    for k in range(12):
        want['first_level_sensitivities[%d]' % (k + 1)] = case['sens'][k]
        want['lampam_to_be_optimised[%d]' % (k + 1)] = case['chosen'][k]
    for key in want:
        expect(key in got, 'sheet Parameters: no %s', key)
        same(got[key], want[key], 1e-9, 'sheet Parameters: %s', key)
    expect(ints(got['maximum group size']) == sizes,
           'sheet Parameters: group sizes %s instead of %s',
           got['maximum group size'], sizes)
    expect(got['type of objective function'] == 'Norm %d' % par[
        'type_obj_func'], 'sheet Parameters: objective function %s',
           got['type of objective function'])

    got = pairs(content['Materials'], 'Materials')
    m = case['mat']
    q = ref.stiffness([0], dict(m, ply_t=1), 1)
    want = {'E11': m['E11'], 'E22': m['E22'], 'G12': m['G12'],
            'nu12': m['nu12'], 'nu21': m['nu12']*m['E22']/m['E11'],
            'areal density': case['density'],
            'volumic density': case['density']/m['ply_t'],
            'ply thickness': m['ply_t'], 'Q11': q[0, 0], 'Q12': q[0, 1],
            'Q22': q[1, 1], 'Q66': q[2, 2]}
    for key in want:
        expect(key in got, 'sheet Materials: no %s', key)
        same(got[key], want[key], 1e-9, 'sheet Materials: %s', key)
    ctx.nontrivial(kw['rule_10_percent'] and kw['contig'] and bool(other))
    ctx.label('%s not-constraints' % ('with' if other else 'no'))


SUBS = [Sub('layla', setups(), check, 200, 4000,
            rule='10% rule, contiguity and guidelines not to satisfy')]
