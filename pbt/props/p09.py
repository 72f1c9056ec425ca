"""P09 definitions of constraints, optimiser settings, objective and panels are
validated and completed consistently"""
import copy
import importlib
import math
import numpy as np
from fractions import Fraction as F
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect, expect_close

CRASH = (AttributeError, IndexError, KeyError, NameError, UnboundLocalError,
         ZeroDivisionError)


def attempt(build):
    "(object or None): None for a clean rejection"
    try:
        return build()
    except CRASH:
        raise
    except Exception:
        return None


# edits that make a valid definition invalid: (applies to, change)
BAD_BOOL = ['text', None, 2, 0.5]


@st.composite
def con_case(draw):
    lib = draw(st.sampled_from(['BELLA', 'LAYLA_V02']))
    kw = draw(gen.constraint_kwargs(base=False, max_extra=2))
    sets = draw(st.sampled_from([None]*5 + [[0, 90], [0], [90, 0]]))
    if sets and not kw['rule_10_percent']:
        kw['set_of_angles'] = sets
    if kw['rule_10_percent'] and draw(st.integers(0, 2)) == 0:
        # shares of +-45 plies given both together and by sign, halves included
        both = draw(st.sampled_from([0, 8, 10, 12.5, 20]))
        share = st.sampled_from([0, both/4, both/2, both/2, both/2 + 1, both])
        kw.update(percent_45_135=both, percent_45=draw(share),
                  percent_135=draw(share))
    kw['combine_45_135'] = draw(st.booleans())
    kw['calc_combine_45_135'] = draw(st.sampled_from([True, True, False]))
    bad = draw(st.sampled_from([
        None, None, None, None, 'bool', 'dam_tol_rule', 'n_covering',
        'percent', 'percent_type', 'abdalla', 'min_drop', 'min_drop_type',
        'n_contig', 'angle_high', 'angle_low', 'lone', 'repeated',
        'ten_set']))
    return dict(lib=lib, kw=kw, bad=bad, flag=draw(st.sampled_from(
        ['sym', 'bal', 'oopo', 'dam_tol', 'rule_10_percent', 'diso', 'contig',
         'covering', 'pdl_spacing', 'rule_10_Abdalla'])),
                value=draw(st.sampled_from(BAD_BOOL)),
                pc=draw(st.sampled_from(
                    ['percent_0', 'percent_45', 'percent_90', 'percent_135',
                     'percent_45_135'])),
                number=draw(st.sampled_from([-1, -0.5, 100.5, 1000])),
                pick=draw(st.integers(0, 50)), omit=draw(st.booleans()),
                ipo=draw(st.booleans()))


# settings that only matter when the guideline is required
DEPENDENT = dict(
    dam_tol=['dam_tol_rule'], diso=['delta_angle'], contig=['n_contig'],
    covering=['n_covering'], pdl_spacing=['min_drop'],
    rule_10_Abdalla=['percent_Abdalla'],
    rule_10_percent=['percent_0', 'percent_45', 'percent_90', 'percent_135',
                     'percent_45_135', 'rule_10_Abdalla', 'percent_Abdalla'],
    sym=[], bal=[], oopo=[], ipo=[])


def omitted(kw):
    "the same definition, the guidelines that are not required unmentioned"
    kw = dict(kw)
    for flag, names in DEPENDENT.items():
        if kw.get(flag) is False:
            for name in [flag] + names:
                kw.pop(name, None)
    return kw


def corrupted(case, kw):
    "kw with the defect asked for; None when it does not apply"
    bad, kw = case['bad'], dict(kw)
    angles = list(kw['set_of_angles'])
    if bad == 'bool':
        if case['flag'] not in kw:
            return None
        kw[case['flag']] = case['value']
    elif bad == 'dam_tol_rule':
        kw.update(dam_tol=True, dam_tol_rule=[0, 4, -1, 1.5][case['pick'] % 4])
    elif bad == 'n_covering':
        if 'n_covering' not in kw:
            return None
        kw.update(n_covering=[-1, 3, 1.5, 7][case['pick'] % 4])
    elif bad == 'percent':
        kw[case['pc']] = case['number']
    elif bad == 'percent_type':
        kw[case['pc']] = ['ten', None][case['pick'] % 2]
    elif bad == 'abdalla':
        if case['lib'] != 'BELLA':
            return None
        kw.update(rule_10_Abdalla=True, percent_Abdalla=[
            -1, 25, 30, 'x'][case['pick'] % 4])
    elif bad == 'min_drop':
        if 'min_drop' not in kw:
            return None
        kw['min_drop'] = [0, -1, -5][case['pick'] % 3]
    elif bad == 'min_drop_type':
        if 'min_drop' not in kw:
            return None
        kw['min_drop'] = [1.5, '2', 2.0][case['pick'] % 3]
    elif bad == 'n_contig':
        kw.update(contig=True, n_contig=1)
    elif bad == 'angle_high':
        angles += [[120, -120], [91, -91], [100, -100]][case['pick'] % 3]
    elif bad == 'angle_low':
        angles += [-90]
    elif bad == 'lone':
        signed = [a for a in angles if a not in (0, 90)]
        if not signed:
            return None
        angles.remove(signed[case['pick'] % len(signed)])
    elif bad == 'repeated':
        angles.append(angles[case['pick'] % len(angles)])
    elif bad == 'ten_set':
        drop = [0, 90][case['pick'] % 2]
        kw.update(rule_10_percent=True)
        angles = [a for a in angles if a != drop]
    kw['set_of_angles'] = angles
    return kw


def check_con(case, ctx):
    import importlib
    cls = importlib.import_module(
        'src.%s.constraints' % case['lib']).Constraints
    kw = dict(case['kw'])
    bella = case['lib'] == 'BELLA'
    if not bella:
        for k in ('covering', 'n_covering', 'pdl_spacing', 'min_drop',
                  'rule_10_Abdalla', 'percent_Abdalla',
                  'calc_combine_45_135'):
            kw.pop(k, None)
        if case.get('ipo'):
            kw['ipo'] = True
    if case['bad']:
        broken = corrupted(case, kw)
        if broken is not None:
            ctx.nontrivial()
            ctx.label(case['bad'])
            con = attempt(lambda: cls(**dict(
                broken, set_of_angles=np.array(broken['set_of_angles']))))
            expect(con is None, 'invalid constraints (%s) accepted: %s',
                   case['bad'], broken)
            return
    used = omitted(kw) if case.get('omit') else kw
    con = attempt(lambda: gen.build_constraints(used, cls))
    expect(con is not None, 'valid constraints rejected: %s', used)
    ctx.label('valid, unused settings left out' if case.get('omit')
              else 'valid')
    active = sum(bool(kw[k]) for k in (
        'dam_tol', 'rule_10_percent', 'diso', 'contig', 'bal'))
    ctx.nontrivial(active >= 2)
    for k in ('sym', 'bal', 'oopo', 'dam_tol', 'diso', 'contig',
              'rule_10_percent'):
        expect(getattr(con, k) is kw[k], '%s: %r instead of %r', k,
               getattr(con, k), kw[k])
    expect(con.ipo == (kw['bal'] or kw.get('ipo', False)),
           'in-plane orthotropy %s with balance %s', con.ipo, kw['bal'])
    if kw['dam_tol']:
        expect(con.dam_tol_rule == kw['dam_tol_rule'], 'damage tolerance rule')
    if kw['diso']:
        expect(con.delta_angle == kw['delta_angle'], 'disorientation limit')
    else:
        expect(con.delta_angle >= 180, 'disorientation limit %s while the '
               'rule is inactive', con.delta_angle)
    if kw['contig']:
        expect(con.n_contig == kw['n_contig'] == con.n_contig_c,
               'contiguity limits %s, %s', con.n_contig, con.n_contig_c)
    else:
        expect(con.n_contig_c > 1e6, 'contiguity limit %s while the rule is '
               'inactive', con.n_contig_c)
    if bella:
        cover = kw['n_covering']
        if kw['covering']:
            cover = max(cover, 1)
        if kw['dam_tol']:
            cover = max(cover, 1 if kw['dam_tol_rule'] == 1 else 2)
        expect(con.covering == (kw['covering'] or kw['dam_tol']),
               'covering %s for %s', con.covering, kw)
        if con.covering:
            expect(con.n_covering == cover, '%s covering plies instead of %s '
                   'for %s', con.n_covering, cover, kw)
        expect(con.pdl_spacing is kw['pdl_spacing']
               and (con.min_drop == kw['min_drop'] or used is not kw),
               'ply-drop spacing')
    # minimum percentages
    g = lambda k: F(kw.get(k, 0)).limit_denominator(1000)/100
    want = dict(percent_0=g('percent_0'), percent_90=g('percent_90'),
                percent_45=g('percent_45'), percent_135=g('percent_135'),
                percent_45_135=g('percent_45_135'))
    if bella:
        combine = kw['combine_45_135']
        if kw['calc_combine_45_135']:
            half = want['percent_45_135']/2
            combine = want['percent_45'] <= half \
                and want['percent_135'] <= half
        if combine:
            want['percent_45'] = want['percent_135'] = F(0)
        else:
            want['percent_45_135'] = F(0)
    else:
        want['percent_45_135'] = max(
            want['percent_45_135'], want['percent_45'] + want['percent_135'])
    off = not kw['rule_10_percent'] or kw.get('rule_10_Abdalla', False)
    for k, v in want.items():
        expect_close(getattr(con, k), 0 if off else float(v), 1e-12,
                     '%s for %s', k, kw)
    expect_close(con.percent_tot, 0 if off else float(max(
        want['percent_0'] + want['percent_45'] + want['percent_90']
        + want['percent_135'], want['percent_0'] + want['percent_90']
        + want['percent_45_135'])), 1e-12, 'share of plies of the 10%% rule '
                 'for %s', kw)
    if bella:
        on = kw['rule_10_percent'] and kw.get('rule_10_Abdalla', False)
        expect_close(con.percent_Abdalla,
                     kw.get('percent_Abdalla', 0)/100 if on else 0, 1e-12,
                     'percentage of the lamination-parameter rule for %s', kw)
    # fibre orientations
    angles = sorted(kw['set_of_angles'])
    expect(con.set_of_angles.tolist() == angles
           and con.n_set_of_angles == len(angles), 'set of angles %s for %s',
           con.set_of_angles, angles)
    for i, a in enumerate(angles):
        expect(con.ind_angles_dict[a] == i and con.angles_dict[i] == a,
               'index of orientation %s', a)
        t = math.radians(2*a)
        expect_close(con.cos_sin[i],
                     [math.cos(t), math.cos(2*t), math.sin(t), math.sin(2*t)],
                     1e-12, 'trigonometric functions of %s', a)
    if 90 in angles:
        expect(con.ind_angles_dict[-90] == angles.index(90), '-90 deg plies')
    pos = sorted(a for a in angles if 0 < a < 90)
    expect([r[0] for r in con.angles_bal.tolist()] == pos,
           'balanced orientations %s instead of %s', con.angles_bal, pos)
    for angle, i, j in con.angles_bal.tolist():
        expect(angles[i] == angle and angles[j] == -angle,
               'indices of the +-%s plies', angle)
    repr(con)


PARAM_INTS = ['group_size_min', 'global_node_limit', 'local_node_limit',
              'global_node_limit_final', 'local_node_limit_final',
              'global_node_limit2', 'local_node_limit2', 'global_node_limit3',
              'local_node_limit3', 'n_ini_ply_drops']
PARAM_NUM = ['p_A']
PARAM_ANYINT = ['n_D1', 'n_D2', 'n_D3', 'group_size_max']
PARAM_BOOL = ['repair_membrane_switch', 'repair_flexural_switch']
COEFFS = [('coeff_10', 'rule_10_percent'), ('coeff_bal_ipo', 'bal'),
          ('coeff_oopo', 'oopo'), ('coeff_contig', 'contig'),
          ('coeff_diso', 'diso'), ('coeff_spacing', 'pdl_spacing')]


@st.composite
def setting_case(draw):
    kw = draw(gen.constraint_kwargs(max_extra=1))
    gmin = draw(st.integers(1, 8))
    par = {k: draw(st.integers(1, 200)) for k in PARAM_INTS}
    par.update(group_size_min=gmin, group_size_max=gmin + draw(
        st.integers(0, 6)), n_D1=draw(st.integers(1, 8)),
               n_D2=draw(st.integers(1, 12)), n_D3=draw(st.integers(1, 3)),
               p_A=draw(st.sampled_from([0, 20, 50.5, 80, 100])),
               n_plies_ref_panel=draw(st.sampled_from([1, 20, 1000, 12.5])),
               repair_membrane_switch=draw(st.booleans()),
               repair_flexural_switch=draw(st.booleans()))
    obj = {k: draw(st.sampled_from([0, 0.5, 1, 10])) for k, _ in COEFFS}
    obj['n_modes'] = draw(st.integers(1, 5))
    return dict(kw=kw, par=par, obj=obj, bad=draw(st.sampled_from(
        [None, None, 'low', 'type', 'size', 'p_A', 'bool', 'ref', 'obj_low',
         'obj_type', 'modes'])), pick=draw(st.integers(0, 100)),
                free=dict(save_success_rate=draw(st.booleans()),
                          save_buckling=draw(st.booleans()),
                          time_limit_group_pdl=draw(
                              st.sampled_from([0.5, 1, 7])),
                          time_limit_all_pdls=draw(
                              st.sampled_from([2, 100, 250.5]))))


def check_settings(case, ctx):
    from src.BELLA.parameters import Parameters
    from src.BELLA.obj_function import ObjFunction
    con = gen.build_constraints(case['kw'])
    par, obj, bad, k = (dict(case['par']), dict(case['obj']), case['bad'],
                        case['pick'])
    active = [c for c, flag in COEFFS if case['kw'][flag]]
    if bad == 'low':
        par[PARAM_INTS[k % len(PARAM_INTS)]] = [0, -1, -7][k % 3]
    elif bad == 'type':
        names = PARAM_INTS + PARAM_ANYINT
        par[names[k % len(names)]] = [2.5, '3', None][k % 3]
    elif bad == 'size':
        par['group_size_max'] = par['group_size_min'] - 1
    elif bad == 'p_A':
        par['p_A'] = [-1, 101, 'x', -0.001, 100.5][k % 5]
    elif bad == 'bool':
        par[PARAM_BOOL[k % 2]] = BAD_BOOL[k % 4]
    elif bad == 'ref':
        par['n_plies_ref_panel'] = ['12', None][k % 2]
    elif bad == 'obj_low' and active:
        obj[active[k % len(active)]] = [-1, -0.01][k % 2]
    elif bad == 'obj_type' and active:
        obj[active[k % len(active)]] = ['x', None][k % 2]
    elif bad == 'modes':
        obj['n_modes'] = [0, -1, 1.5, 'x'][k % 4]
    elif bad:
        bad = None
    ctx.nontrivial(bad is not None or len(active) > 2)
    ctx.label(bad or 'valid')
    is_obj = bad in ('obj_low', 'obj_type', 'modes')
    p = attempt(lambda: Parameters(con, **dict(par, **case.get('free', {}))))
    o = attempt(lambda: ObjFunction(con, **obj))
    expect((p is None) == (bad is not None and not is_obj),
           'optimiser settings %s (defect: %s): %s', par, bad,
           'rejected' if p is None else 'accepted')
    expect((o is None) == is_obj, 'objective settings %s (defect: %s): %s',
           obj, bad, 'rejected' if o is None else 'accepted')
    if p is not None:
        for name, value in list(par.items()) + list(case.get(
                'free', {}).items()):
            expect(getattr(p, name) == value, 'setting %s is %s', name,
                   getattr(p, name))
        repr(p)
    if o is not None:
        for name, flag in COEFFS:
            want = obj[name] if case['kw'][flag] else 0
            expect(getattr(o, name) == want, 'coefficient %s is %s, expected '
                   '%s (rule active: %s)', name, getattr(o, name), want,
                   case['kw'][flag])
        repr(o)


LAYLA_INTS = ['global_node_limit', 'global_node_limit_p', 'local_node_limit',
              'local_node_limit_final', 'n_outer_step']
LAYLA_NUM = ['coeff_10', 'coeff_bal_ipo', 'coeff_oopo']
LAYLA_SWITCH = ['penalty_10_lampam_switch', 'penalty_10_pc_switch',
                'penalty_bal_switch', 'penalty_ipo_switch']


@st.composite
def layla_case(draw):
    kw = draw(gen.constraint_kwargs(max_extra=1))
    kw['ipo'] = draw(st.booleans())
    kw['n_contig'] = min(kw['n_contig'], 4)
    gmin = draw(st.integers(4, 8))
    par = {k: draw(st.integers(1, 200)) for k in LAYLA_INTS[:-1]}
    steps = draw(st.integers(1, 3))
    sizes = [gmin + draw(st.integers(0, 5)) for _ in range(steps)]
    par.update({k: draw(st.sampled_from([0, 0.5, 1, 2])) for k in LAYLA_NUM})
    par.update({k: draw(st.booleans()) for k in LAYLA_SWITCH})
    par.update({k: draw(st.booleans()) for k in PARAM_BOOL})
    par.update(group_size_min=gmin, group_size_max=sizes, n_outer_step=steps,
               n_D1=draw(st.integers(1, 8)), n_D2=draw(st.integers(1, 12)),
               n_D3=draw(st.integers(1, 3)),
               type_obj_func=draw(st.sampled_from([1, 2])),
               p_A=draw(st.sampled_from([0, 20, 50.5, 80, 100])))
    return dict(
        kw=kw, par=par,
        sens=draw(st.lists(st.sampled_from([0, 0.5, 1, 2]), min_size=12,
                           max_size=12)),
        chosen=draw(st.lists(st.sampled_from([0, 1, 1]), min_size=12,
                             max_size=12)),
        both=draw(st.integers(0, 3)) == 0, one_size=draw(st.booleans()),
        omit=draw(st.booleans()), bad=draw(st.sampled_from(
            [None, None, None, 'low', 'type', 'size', 'steps', 'p_A', 'bool',
             'coeff_low', 'coeff_type', 'sens', 'chosen', 'contig'])),
        pick=draw(st.integers(0, 100)))


def check_layla(case, ctx):
    from src.LAYLA_V02.parameters import Parameters
    con = gen.build_layla_constraints(case['kw'])
    par, bad, k = dict(case['par']), case['bad'], case['pick']
    sens = np.array(case['sens'], float)
    chosen = np.array(case['chosen'], float)
    free = [i for i in range(12) if not (
        (con.sym and 4 <= i < 8) or (con.ipo and i in (2, 3))
        or (con.oopo and i in (10, 11))
        or (set(con.set_of_angles) == {0, 45, -45, 90} and i in (3, 7, 11)))]
    if not (sens*chosen)[free].any():
        sens[0] = chosen[0] = 1
    if not case['both']:
        # the two penalties of a rule exclude one another
        par['penalty_10_pc_switch'] &= not par['penalty_10_lampam_switch']
        par['penalty_bal_switch'] &= not par['penalty_ipo_switch']
    clash = (par['penalty_10_pc_switch'] and par['penalty_10_lampam_switch'],
             par['penalty_bal_switch'] and par['penalty_ipo_switch'])
    active = dict(coeff_10=con.rule_10_percent, coeff_bal_ipo=con.ipo,
                  coeff_oopo=con.oopo)
    flags = dict(penalty_10_lampam_switch=con.rule_10_percent,
                 penalty_10_pc_switch=con.rule_10_percent,
                 penalty_bal_switch=con.bal, penalty_ipo_switch=con.ipo)
    # exclusive penalties of a rule that is not required: either outcome
    undecided = (clash[0] and not con.rule_10_percent) \
        or (clash[1] and not con.bal)
    invalid = (clash[0] and con.rule_10_percent) or (clash[1] and con.bal)
    sizes = np.array(par['group_size_max'])
    if case['one_size']:
        sizes = int(sizes[0])
    names = [n for n in LAYLA_NUM if active[n]]
    if bad == 'low':
        par[LAYLA_INTS[k % 5]] = [0, -1, -7][k % 3]
    elif bad == 'type':
        ints = LAYLA_INTS + ['group_size_min'] + PARAM_ANYINT[:3]
        par[ints[k % len(ints)]] = [2.5, 4.0][k % 2]
    elif bad == 'size':
        sizes = par['group_size_min'] - 1
    elif bad == 'steps':
        sizes = np.array([9])
        par['n_outer_step'] = 2
    elif bad == 'p_A':
        par['p_A'] = [-1, 101, 'x', -0.001, 100.5][k % 5]
    elif bad == 'bool':
        par[PARAM_BOOL[k % 2]] = BAD_BOOL[k % 4]
    elif bad == 'coeff_low' and names:
        par[names[k % len(names)]] = [-1, -0.01][k % 2]
    elif bad == 'coeff_type' and names:
        par[names[k % len(names)]] = ['x', None][k % 2]
    elif bad == 'sens':
        sens = [np.ones(11), np.ones(13), list(sens), -np.ones(12),
                np.zeros(12)][k % 5]
    elif bad == 'chosen':
        chosen = [np.ones(11), list(chosen), 2*np.ones(12), np.zeros(12),
                  0.5*np.ones(12)][k % 5]
    elif bad == 'contig' and con.contig:
        par['group_size_min'] = con.n_contig - 1
    elif bad:
        bad = None
    par.update(group_size_max=sizes, first_level_sensitivities=sens,
               lampam_to_be_optimised=chosen)
    if case['omit']:
        # penalties of rules that are not required left out
        for name, on in list(active.items()) + list(flags.items()):
            if not on:
                par.pop(name)
        undecided = False
        # all the lamination parameters optimised, with equal weightings
        if bad != 'sens' and k % 2:
            sens = np.ones(12)
            par.pop('first_level_sensitivities')
        if bad != 'chosen' and k % 3:
            chosen = np.ones(12)
            par.pop('lampam_to_be_optimised')
    ctx.nontrivial(bad is not None or invalid or len(names) > 1)
    ctx.label(bad or ('both penalties' if invalid else 'valid'))
    p = attempt(lambda: Parameters(con, **par))
    if undecided and bad is None and not invalid and p is None:
        return
    expect((p is None) == (bad is not None or invalid),
           'LAYLA settings %s (defect: %s, exclusive penalties: %s): %s', par,
           bad, invalid, 'rejected' if p is None else 'accepted')
    if p is None:
        return
    for name in LAYLA_INTS + PARAM_BOOL + PARAM_ANYINT[:3] + [
            'group_size_min', 'p_A', 'type_obj_func']:
        expect(getattr(p, name) == par[name], 'setting %s is %s', name,
               getattr(p, name))
    steps = par['n_outer_step']
    expect(p.group_size_max.tolist()[:steps] == (
        [sizes]*steps if case['one_size'] else sizes.tolist()[:steps]),
           'maximum group sizes %s', p.group_size_max)
    for name, on in list(active.items()) + list(flags.items()):
        want = par[name] if on else 0
        expect(getattr(p, name) == want, '%s is %s, expected %s (rule '
               'required: %s)', name, getattr(p, name), want, on)
    # weightings: rescaled, without the terms the requirements determine
    base = sens*chosen
    expect_close(p.lampam_weightings_ini, base/base.sum(), 1e-12,
                 'weightings before the requirements')
    want = np.array([base[i] if i in free else 0 for i in range(12)])
    mean = want[want != 0].mean()
    few = set(con.set_of_angles) == {0, 45, -45, 90}
    if con.ipo and p.penalty_ipo_switch:
        want[2] = mean*p.coeff_bal_ipo
        want[3] = 0 if few else want[2]
    if con.oopo:
        want[10] = mean*p.coeff_oopo
        want[11] = 0 if few else want[10]
    want /= want.sum()
    expect_close(p.lampam_weightings_final, want, 1e-12, 'weightings of the '
                 'objective')
    for part, got in ((want[:4], p.weighting_finalA),
                      (want[8:], p.weighting_finalD)):
        expect_close(got, part/part.sum() if part.sum() else part, 1e-9,
                     'in-plane or out-of-plane weightings')
    repr(p)


@st.composite
def panel_case(draw):
    kw = draw(gen.constraint_kwargs(max_extra=1))
    num = st.sampled_from([0, 0, 0.5, 1, 2, 2.5])
    return dict(kw=kw, n=draw(st.integers(1, 40)), area=draw(num),
                lx=draw(num), ly=draw(num), w=draw(num),
                weights=draw(st.lists(st.sampled_from([0, 0.5, 1, 1, 2]),
                                      min_size=12, max_size=12)),
                as_int=draw(st.booleans()), coeff_oopo=draw(
                    st.sampled_from([0, 0.3, 1, 2])),
                target=draw(st.lists(gen.coef(), min_size=12, max_size=12)),
                bad=draw(st.sampled_from(
                    [None]*6 + ['n', 'n_type', 'area', 'lx', 'ly', 'w',
                                'w_type', 'short', 'negative', 'list'])),
                pick=draw(st.integers(0, 20)))


def check_panel(case, ctx):
    from src.BELLA.panels import Panel
    from src.BELLA.obj_function import ObjFunction
    con = gen.build_constraints(case['kw'])
    weights = [int(w) for w in case['weights']] if case['as_int'] \
        else case['weights']
    free = [i for i in range(12) if not (
        (con.sym and 4 <= i < 8) or (con.bal and i in (2, 3))
        or (con.oopo and i in (10, 11))
        or (set(con.set_of_angles) == {0, 45, -45, 90} and i in (3, 7, 11)))]
    if not any(weights[i] for i in free):
        weights[0] = 1
    kw = dict(ID=1, constraints=con, n_plies=case['n'], area=case['area'],
              length_x=case['lx'], length_y=case['ly'], weighting=case['w'],
              lampam_weightings=np.array(weights),
              lampam_target=np.array(case['target']))
    bad, k = case['bad'], case['pick']
    if bad == 'n':
        kw['n_plies'] = [0, -1, -4][k % 3]
    elif bad == 'n_type':
        kw['n_plies'] = [2.5, '4', 4.0][k % 3]
    elif bad in ('area', 'lx', 'ly', 'w'):
        name = dict(area='area', lx='length_x', ly='length_y',
                    w='weighting')[bad]
        kw[name] = [-1, -0.5][k % 2]
    elif bad == 'w_type':
        kw[['area', 'length_x', 'length_y', 'weighting'][k % 4]] = '1'
    elif bad == 'short':
        kw['lampam_weightings'] = np.ones(([0, 4, 11, 13][k % 4],))
    elif bad == 'negative':
        kw['lampam_weightings'] = np.array(weights, float)
        kw['lampam_weightings'][k % 12] = -0.5
    elif bad == 'list':
        kw['lampam_weightings'] = list(weights)
    ctx.label(bad or 'valid')
    panel = attempt(lambda: Panel(**kw))
    expect((panel is None) == (bad is not None),
           'panel (defect: %s) %s: %s', bad,
           'rejected' if panel is None else 'accepted', kw)
    if panel is None:
        ctx.nontrivial()
        return
    ctx.nontrivial(con.oopo or con.bal)
    both = case['lx'] != 0 and case['ly'] != 0
    expect_close(panel.area, case['lx']*case['ly'] if both else case['area'],
                 1e-12, 'area of a panel %s', case)
    odd = con.sym and case['n'] % 2 == 1
    expect(panel.has_middle_ply == odd and panel.middle_ply_index
           == ((case['n'] + 1)//2 if odd else 0), 'middle ply of %d plies, '
           'symmetry %s: %s', case['n'], con.sym, panel.middle_ply_index)
    expect_close(panel.calc_weight(300.5), 300.5*panel.area*case['n'], 1e-9,
                 'weight of a panel')
    obj = ObjFunction(con, coeff_oopo=case['coeff_oopo'])
    panel.filter_target_lampams(con, obj)
    zero = set()
    if con.sym:
        zero |= {4, 5, 6, 7}
    if con.bal:
        zero |= {2, 3}
    if con.oopo:
        zero |= {10, 11}
    expect_close(panel.lampam_target,
                 [0 if i in zero else case['target'][i] for i in range(12)],
                 0, 'filtered lamination-parameter targets')
    panel.filter_lampam_weightings(con, obj)
    want = np.array([weights[i] if i in free else 0 for i in range(12)], float)
    if con.oopo:
        mean = want[want != 0].mean()
        extra = [10] if set(con.set_of_angles) == {0, 45, -45, 90} \
            else [10, 11]
        for i in extra:
            want[i] = mean*case['coeff_oopo']
    want /= want.sum()
    expect_close(panel.lampam_weightings, want, 1e-12,
                 'lamination-parameter weightings for %s (coefficient %s)',
                 weights, case['coeff_oopo'])
    expect_close(np.hstack((panel.lampam_weightingsA,
                            panel.lampam_weightingsD)),
                 np.hstack((want[:4], want[8:])), 1e-12,
                 'in-plane and out-of-plane weightings')


BASE = dict(sym=False, bal=False, oopo=False, dam_tol=False,
            rule_10_percent=False, combine_45_135=True, percent_0=0,
            percent_45=0, percent_90=0, percent_135=0, percent_45_135=0,
            diso=False, contig=False, n_contig=1, delta_angle=45,
            dam_tol_rule=2, set_of_angles=[0, 45, 90, -45])
NODES = dict(n_D1=6, n_D2=10, n_D3=1, p_A=100, repair_membrane_switch=True,
             repair_flexural_switch=True)
PLY = dict(E11=130e9, E22=9e9, nu12=0.3, G12=4e9, density_volume=0,
           density_area=0, ply_t=0.0002)
# settings that can be left out, and what is then used
DEFAULTS = {
    'BELLA.constraints.Constraints': dict(
        BASE, rule_10_Abdalla=False, percent_Abdalla=0,
        calc_combine_45_135=True, min_drop=1, pdl_spacing=False,
        covering=False, n_covering=0),
    'LAYLA_V02.constraints.Constraints': dict(BASE, ipo=False),
    'BELLA.parameters.Parameters': dict(
        NODES, group_size_min=4, group_size_max=12, global_node_limit=100,
        local_node_limit=100, local_node_limit_final=1,
        global_node_limit_final=5, global_node_limit2=10,
        local_node_limit2=10, global_node_limit3=10, local_node_limit3=10,
        n_ini_ply_drops=5, n_plies_ref_panel=1000, save_success_rate=False,
        time_limit_group_pdl=1, time_limit_all_pdls=100,
        save_buckling=False),
    'LAYLA_V02.parameters.Parameters': dict(
        NODES, n_outer_step=1, coeff_10=0, coeff_bal_ipo=1, coeff_oopo=1,
        group_size_min=6, group_size_max=np.array([8]),
        first_level_sensitivities=np.ones(12),
        lampam_to_be_optimised=np.ones(12), global_node_limit=100,
        global_node_limit_p=10, local_node_limit=1000,
        local_node_limit_final=1000, penalty_10_lampam_switch=False,
        penalty_10_pc_switch=False, penalty_bal_switch=False,
        penalty_ipo_switch=False, type_obj_func=2),
    'BELLA.obj_function.ObjFunction': dict(
        coeff_diso=0, coeff_contig=0, coeff_10=0, coeff_bal_ipo=1,
        coeff_oopo=1, coeff_spacing=1, n_modes=1),
    'BELLA.panels.Panel': dict(
        lampam_target=np.array([]), lampam_weightings=np.ones(12), area=0,
        length_x=0, length_y=0, N_x=0, N_y=0, weighting=1,
        neighbour_panels=[]),
    'LAYLA_V02.targets.Targets': dict(lampam=np.zeros(12), stack=None),
    'BELLA.materials.Material': PLY, 'LAYLA_V02.materials.Material': PLY}
OTHER = dict(
    set_of_angles=[-45, 0, 45, 90, 30, -30], n_contig=4, delta_angle=90,
    dam_tol_rule=1, min_drop=3, n_covering=2, percent_0=10, percent_45=5,
    percent_90=15, percent_135=5, percent_45_135=20, percent_Abdalla=8,
    group_size_min=5, group_size_max=20, lampam_target=np.ones(12)/9,
    lampam_weightings=np.arange(12)/3., neighbour_panels=[7, 9],
    first_level_sensitivities=np.arange(12.), stack=np.array([0, 45, 90]),
    lampam_to_be_optimised=np.array([1, 0]*6), lampam=np.ones(12)/4,
    type_obj_func=1, p_A=70, nu12=0.25, ply_t=0.0003, E11=1.4e11, E22=8e9,
    G12=3e9, length_x=0.3, length_y=0.7, area=0.2)


@st.composite
def default_case(draw):
    which = draw(st.sampled_from(sorted(DEFAULTS)))
    names = sorted(DEFAULTS[which])
    free = draw(st.lists(st.sampled_from(names), unique=True,
                         max_size=len(names)))
    return dict(which=which, left_out=free, changed=draw(st.lists(
        st.sampled_from(names), unique=True, max_size=6)),
        rules=draw(st.sampled_from([{}, {'rule_10_percent': True}, {
            'sym': True, 'bal': True, 'rule_10_percent': True,
            'oopo': True}, {'dam_tol': True, 'covering': True, 'n_covering': 1,
                            'diso': True, 'contig': True, 'n_contig': 3,
                            'pdl_spacing': True}])))


def state(x):
    "everything an object stores"
    if isinstance(x, dict):
        return {str(k): state(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [state(v) for v in x]
    if isinstance(x, (np.ndarray, np.generic)):
        return x.tolist()
    if hasattr(x, '__dict__'):
        return state(vars(x))
    return x


def check_defaults(case, ctx):
    """settings left out have the same effect as their documented values, in
    whatever objects were created before"""
    where, name = case['which'].rsplit('.', 1)
    make = getattr(importlib.import_module('src.' + where), name)
    usual = DEFAULTS[case['which']]
    full = copy.deepcopy(usual)
    for key in case['changed']:
        old = usual[key]
        full[key] = OTHER[key] if key in OTHER else not old if isinstance(
            old, bool) else old + 2
    if 'Constraints' in name:
        full.update((k, v) for k, v in case['rules'].items()
                    if k in usual and k not in case['changed'])
    given = {k: v for k, v in full.items() if k not in case['left_out']}
    full.update((k, usual[k]) for k in case['left_out'])
    first = []
    if name in ('Parameters', 'ObjFunction', 'Panel'):
        rules = {k: v for k, v in case['rules'].items() if k in DEFAULTS[
            where.split('.')[0] + '.constraints.Constraints']}
        for rule in ('diso', 'contig', 'pdl_spacing'):
            if 'BELLA' in where and rules:
                rules[rule] = True
        lib = importlib.import_module('src.%s.constraints'
                                      % where.split('.')[0])
        if rules:
            rules.update(percent_0=10, percent_45=10, percent_90=10,
                         percent_135=10, n_contig=3)
        first = [lib.Constraints(**rules)]
    if name == 'Panel':
        first = [3] + first + [12]
    if name == 'Targets':
        first = [12]

    def build(settings):
        settings = {k: np.array(v) if k == 'set_of_angles' else
                    copy.deepcopy(v) for k, v in settings.items()}
        return attempt(lambda: make(*first, **settings))
    one, two = build(given), build(full)
    expect((one is None) == (two is None), '%s %s: %s without %s, %s with '
           'their usual values', case['which'], given,
           'rejected' if one is None else 'accepted', case['left_out'],
           'rejected' if two is None else 'accepted')
    ctx.nontrivial(two is not None and bool(case['left_out']))
    ctx.label(case['which'])
    if one is None:
        return
    a, b = state(one), state(two)
    # what a setting is when its rule is off has no effect
    for key in sorted(set(a) | set(b)):
        expect(repr(a.get(key, '-')) == repr(b.get(key, '-')), '%s %s: %s '
               'is %s when %s are left out instead of %s', case['which'],
               given, key, a.get(key, '-'), case['left_out'], b.get(key, '-'))


SUBS = [
    Sub('constraints', con_case(), check_con, 3000, 60000,
        rule='an invalid definition, or two or more active guidelines'),
    Sub('settings', setting_case(), check_settings, 2000, 40000,
        rule='an invalid definition, or more than two active penalties'),
    Sub('layla', layla_case(), check_layla, 2000, 40000,
        rule='an invalid definition, or more than one active penalty'),
    Sub('defaults', default_case(), check_defaults, 3000, 60000,
        rule='an accepted definition with settings left out'),
    Sub('panel', panel_case(), check_panel, 2000, 40000,
        rule='an invalid definition, or orthotropy or balance required')]
