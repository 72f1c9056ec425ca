"""P27 complete repair of a single laminate"""
import random
import importlib
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, cla_stub, standin
from pbt.core import Sub, expect, expect_close
from pbt.props import p23, p24
from pbt.props.p25 import outer, broken


@st.composite
def case_(draw):
    layla = draw(st.booleans())
    kw = draw(gen.constraint_kwargs(
        percent_mode=draw(st.sampled_from(
            ['off', 'combined', 'separate'] + ([] if layla else ['abdalla']))),
        covering=False, pdl_spacing=False))
    if kw['rule_10_percent'] and not kw.get('rule_10_Abdalla'):
        for k in list(kw):
            if k.startswith('percent_') and draw(st.booleans()):
                kw[k] = draw(st.sampled_from([0, 10, 10, 15, 20]))
        if not kw.get('percent_45_135') and not kw.get('percent_45') and \
                not kw.get('percent_135'):
            kw['percent_45_135'] = 10
    n = draw(st.integers(8, 40))
    angles = kw['set_of_angles']
    kind = draw(st.sampled_from(['random', 'valid', 'changed', 'changed']))
    rng = random.Random(draw(st.integers(0, 10**6)))
    stack = None
    if kind != 'random':
        stack = ref.find_stack(kw, n, rng, nodes=600)
    if stack is None:
        stack = ref.find_stack(dict(kw, diso=False, contig=False,
                                    rule_10_percent=False), n, rng,
                               with_bal=False)
        if stack is None:
            stack = draw(gen.sym_stacks(angles, n//2, n//2, bool(n % 2))
                         if kw['sym'] else gen.stacks(angles, n, n))
    elif kind == 'changed':
        k = outer(kw)
        for _ in range(draw(st.integers(1, 5))):
            i = draw(st.integers(k, n - 1 - k))
            a = draw(st.sampled_from(angles))
            stack[i] = a
            if kw['sym']:
                stack[n - 1 - i] = a
    if kw['sym'] and n % 2 and stack[n//2] not in (0, 90):
        stack[n//2] = 90 if 90 in angles else 0
    if draw(st.booleans()):
        goal = draw(gen.stacks(angles, 1, 10))
        target = [float(x) for x in cla_stub.lampam_of(goal)]
    else:
        target = draw(st.lists(gen.coef(), min_size=12, max_size=12))
    weights = draw(st.lists(st.sampled_from([0, 1, 1, 2, 5]), min_size=12,
                            max_size=12))
    part = draw(st.sampled_from(['A', 'D', 'AD', 'AD', 'AD']))
    for k in (0, 1, 8, 9):
        weights[k] = max(1, weights[k])
    use = [int(k in range(0, 4) and 'A' in part or k in range(8, 12)
               and 'D' in part) for k in range(12)]
    return dict(kw=kw, stack=stack, layla=layla, target=target,
                weights=weights, use=use, p_A=draw(st.sampled_from(
                    [0, 50, 80, 80, 100])), n_D1=draw(st.sampled_from(
                        [2, 4, 6])), n_D2=draw(st.sampled_from([3, 10])),
                n_D3=draw(st.integers(1, 2)),
                membrane=draw(st.sampled_from([True]*4 + [False])),
                flexural=draw(st.sampled_from([True]*4 + [False])),
                norm=draw(st.sampled_from([1, 2, 2])),
                value=draw(st.booleans()))


def comfortable(stack, kw):
    """is the 10% rule satisfied?  The repair deliberately does not count on
    the middle ply of symmetric laminates"""
    n = len(stack)
    if kw['sym'] and n % 2 and kw['rule_10_percent']:
        if kw.get('rule_10_Abdalla'):
            return p24.ten_ok(stack, kw)
        return p23.missing(stack[:n//2], 0, kw, n, 2) == 0
    return p24.ten_ok(stack, kw)


def check(case, ctx):
    importlib.import_module('src.RELAY.repair_ss')
    with standin.abdalla(p23.distance):
        run(case, ctx)


def run(case, ctx):
    from src.RELAY.repair_ss import repair_ss
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    from src.RELAY.repair_membrane import repair_membrane
    from src.RELAY.repair_diso_contig import repair_diso_contig_list
    from src.LAYLA_V02.parameters import Parameters
    kw, stack = case['kw'], case['stack']
    n, sym = len(stack), kw['sym']
    con = gen.build_layla_constraints(kw) if case['layla'] else \
        gen.build_constraints(kw)
    par = Parameters(
        con, group_size_min=8, group_size_max=12, p_A=case['p_A'],
        n_D1=case['n_D1'], n_D2=case['n_D2'], n_D3=case['n_D3'],
        first_level_sensitivities=np.array(case['weights'], float),
        lampam_to_be_optimised=np.array(case['use']),
        type_obj_func=case['norm'], repair_membrane_switch=case['membrane'],
        repair_flexural_switch=case['flexural'])
    target = np.array(case['target'])
    given = gen.ints(stack)
    new, ok, calls = repair_ss(given, con, par, target, count_obj=True)
    expect([int(a) for a in given] == stack, 'stack of the caller modified')
    new, ok = [int(a) for a in new], bool(ok)
    again = repair_ss(gen.ints(stack), con, par, target)
    expect([int(a) for a in again[0]] == new and bool(again[1]) == ok,
           'result differs when the objective calls are not counted')
    if case['value']:
        from src.LAYLA_V02.objectives import objectives
        with_value = repair_ss(gen.ints(stack), con, par, target,
                               obj_no_constraints=0.5)
        expect([int(a) for a in with_value[0]] == new and
               bool(with_value[1]) == ok,
               'result differs when the objective is asked for')
        w = par.lampam_weightings_final
        gap = abs(cla_stub.lampam_of(new) - target)
        want = float(sum(w*gap**case['norm'])) if ok else 1e10
        expect_close(float(with_value[2]), want, 1e-9,
                     'objective reported for %s (success: %s)', new, ok)
    was_valid = comfortable(stack, kw) and not ref.broken_rules(
        stack, kw, ten=False)
    # laminates handed over by the first steps
    mini = calc_mini_10(con, n)
    ss, queue = repair_10_bal(gen.ints(stack), mini, con)
    ss_list, queue_list, _ = repair_membrane(
        ss=ss, ply_queue=queue, mini_10=mini,
        in_plane_coeffs=par.weighting_finalA, parameters=par, constraints=con,
        lampam_target=target)
    third, _, outward, ind = repair_diso_contig_list(
        ss_list, queue_list, con, par.n_D1)
    outward = outward and (not kw['dam_tol'] or ref.dam_tol(
        [int(a) for a in third], kw['dam_tol_rule']))
    expect(ok == bool(outward), 'repair %s although the third step %s',
           'successful' if ok else 'unsuccessful',
           'succeeds' if outward else 'fails')
    if not ok:
        expect(new == stack, 'unsuccessful repair returning %s instead of %s',
               new, stack)
        expect(calls == 0, '%s objectives evaluated', calls)
        expect(not was_valid, 'the laminate %s satisfies the guidelines but '
               'is not repaired', stack)
        ctx.label('failure')
        return
    third = [int(a) for a in third]
    expect(len(new) == n and set(new) <= set(kw['set_of_angles']),
           '%s is not a laminate of %d plies', new, n)
    expect(sorted(new) == sorted(third), 'plies %s, not those of the in-plane '
           'refinement %s', new, third)
    if kw['dam_tol']:
        expect(ref.dam_tol(new, kw['dam_tol_rule']), '%s breaks damage '
               'tolerance', new)
    if sym:
        expect(new == new[::-1], '%s is not symmetric', new)
    expect(not broken(new, kw), '%s breaks %s', new, broken(new, kw))
    if kw['bal']:
        expect(not ref.imbalance(new), '%s is not balanced', new)
    if p24.ten_ok(p23.complete([int(a) for a in ss], list(queue), sym), kw):
        expect(p24.ten_ok(new, kw), '%s breaks the 10%% rule', new)
    a, d = par.weighting_finalA, par.weighting_finalD
    lam0, lam3, lam = [cla_stub.lampam_of(s) for s in (stack, third, new)]

    def value(w, lp, low):
        return float(sum(w*(lp[low:low + 4] - target[low:low + 4])**2))

    expect(value(d, lam, 8) <= value(d, lam3, 8) + 1e-9, 'out-of-plane '
           'objective raised by the refinement: %s to %s', third, new)
    if not case['flexural'] or not any(d):
        expect(new == third, 'out-of-plane refinement not asked for')
    if was_valid:
        expect(value(a, lam, 0) <= value(a, lam0, 0) + 1e-9, 'in-plane '
               'objective raised: %s to %s', stack, new)
        if not case['membrane'] or not any(a):
            expect(sorted(new) == sorted(stack), 'in-plane refinement not '
                   'asked for: %s to %s', stack, new)
            if not case['flexural'] or not any(d):
                expect(new == stack, 'refinements not asked for: %s to %s',
                       stack, new)
    ctx.nontrivial(new != stack)
    ctx.label('%s%s' % ('valid' if was_valid else 'repaired',
                        '' if new != stack else ' unchanged'))


SUBS = [
    Sub('repair', case_(), check, 700, 12000,
        rule='successful repair changing the laminate'),
]
