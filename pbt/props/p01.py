"""P01 balance"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect, expect_close


@st.composite
def stack_case(draw):
    angles = draw(gen.angle_sets(base=False))
    stack = draw(gen.stacks(angles, 1, draw(
        st.sampled_from([20]*7 + [90]))))
    if draw(st.booleans()):  # mostly balanced stacks, then one edit
        stack = stack + [-a if a not in (0, 90) else a for a in stack]
        stack = draw(st.permutations(stack))
        if draw(st.booleans()):
            i = draw(st.integers(0, len(stack) - 1))
            stack[i] = draw(st.sampled_from(angles))
    return dict(angles=angles, stack=stack,
                area=draw(gen.coef(0, 3)), seed=draw(st.integers(0, 99)))


def counts_of(stack, con):
    out = np.zeros(con.n_set_of_angles)
    for a in stack:
        out[con.ind_angles_dict[a]] += 1
    return out


def check_stack(case, ctx):
    from src.guidelines.balance import is_balanced, calc_penalty_bal
    con = gen.build_constraints(dict(bal=True,
                                     set_of_angles=case['angles']), noise=case.get('noise', 0))
    stack = case['stack']
    want = ref.imbalance(stack)
    ctx.nontrivial(any(a not in (0, 90) for a in stack) and len(stack) > 2)
    ctx.label('unbalanced' if want else 'balanced')
    got = is_balanced(gen.ints(stack), con)
    expect(bool(got) == (want == 0),
           'balance of %s: answered %s, imbalance is %d', stack, got, want)
    rng = np.random.RandomState(case['seed'])
    shuffled = list(rng.permutation(stack))
    expect(bool(is_balanced(gen.ints(shuffled), con)) == (want == 0),
           'balance depends on the ply order: %s', shuffled)
    negated = [-a if a != 90 else 90 for a in stack]
    expect(bool(is_balanced(gen.ints(negated), con)) == (want == 0),
           'balance depends on the sign convention: %s', negated)
    # penalties
    n1 = counts_of(stack, con)
    pen = calc_penalty_bal(n1, con, case['area'])
    expect_close(pen, case['area']*want/len(stack), 1e-9,
                 'balance penalty of %s', stack)
    two = np.array([n1, counts_of([45, -45, 0] if 0 in case['angles']
                                  and 45 in case['angles']
                                  else stack + stack, con), 0*n1, 2*n1])
    want2 = [ref.imbalance(stack)/len(stack),
             0 if (0 in case['angles'] and 45 in case['angles'])
             else want/len(stack), 0, want/len(stack)]
    got2 = calc_penalty_bal(two, con, case['area'])
    expect_close(got2, case['area']*np.array(want2), 1e-9,
                 'balance penalties of several laminates')
    expect_close(calc_penalty_bal(0*n1, con), 0, 0, 'penalty without plies')


SUBS = [Sub('stack', gen.noisy(stack_case()), check_stack, 8000, 200000,
            rule='more than two plies, at least one angled ply')]
