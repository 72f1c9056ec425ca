"""P02 damage tolerance"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect


@st.composite
def case_(draw):
    angles = draw(gen.angle_sets(base=True, max_extra=1))
    n = draw(gen.size(2, 14, 60))
    stack = draw(gen.stacks(angles, n, n))
    edge = st.sampled_from([45, -45, 45, -45, draw(st.sampled_from(angles))])
    for i in {0, 1, n - 1, n - 2} if n > 1 else {0}:
        if draw(st.sampled_from([True, True, True, False])):
            stack[i] = draw(edge)
    return dict(angles=angles, stack=stack, on=draw(
        st.sampled_from([True]*5 + [False])),
        rule=draw(st.sampled_from([1, 2, 3])), layla=draw(st.booleans()),
        bal=draw(st.booleans()), covering=draw(st.booleans()),
        n_covering=draw(st.integers(0, 2)))


def check(case, ctx):
    from src.guidelines.dam_tol import is_dam_tol
    kw = dict(dam_tol=case['on'], dam_tol_rule=case['rule'],
              bal=case['bal'], set_of_angles=case['angles'])
    if case['layla']:
        from src.LAYLA_V02.constraints import Constraints
        con = gen.build_constraints(kw, Constraints, noise=case.get('noise', 0))
    else:
        kw.update(covering=case['covering'], n_covering=case['n_covering'])
        con = gen.build_constraints(kw, noise=case.get('noise', 0))
    stack = case['stack']
    want = (not case['on']) or ref.dam_tol(stack, case['rule'])
    ctx.nontrivial(case['on'] and sum(
        abs(a) == 45 for a in (stack[:2] + stack[-2:])) >= 2)
    ctx.label('rule %d %s' % (case['rule'], 'ok' if want else 'broken')
              if case['on'] else 'off')
    got = is_dam_tol(gen.ints(stack), con)
    expect(bool(got) == want, 'damage tolerance rule %s of %s: answered %s',
           case['rule'], stack, got)
    expect(bool(is_dam_tol(gen.ints(stack[::-1]), con)) == want,
           'damage tolerance differs for the flipped stack %s', stack)
    # the outer plies that carry damage tolerance must be continuous plies
    if case['on'] and not case['layla']:
        need = 1 if case['rule'] == 1 else 2
        expect(con.covering and con.n_covering >= need,
               'damage tolerance rule %s with covering %s, n_covering %s',
               case['rule'], con.covering, con.n_covering)


SUBS = [Sub('stack', gen.noisy(case_()), check, 8000, 200000,
            rule='rule active and at least two of the outer plies at +-45')]
