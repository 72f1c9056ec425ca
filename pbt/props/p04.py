"""P04 disorientation"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect, expect_close

DELTAS = [15, 20, 30, 45, 45, 45, 60, 75, 90, 8, 22.5, 37, 52]


@st.composite
def case_(draw):
    angles = draw(gen.angle_sets(base=False, max_extra=2))
    delta = draw(st.sampled_from(DELTAS))
    sizes = draw(st.lists(gen.size(4, 18, 50), min_size=1, max_size=draw(
        st.sampled_from([3]*5 + [9]))))
    out = []
    for n in sizes:
        stack = [draw(st.sampled_from(angles))]
        smooth = draw(st.booleans())
        while len(stack) < n:
            pool = [a for a in angles
                    if ref.diso_angle(a, stack[-1]) <= delta]
            stack.append(draw(st.sampled_from(pool if smooth else angles)))
        if smooth and draw(st.booleans()):  # one edit, often at the surface
            i = draw(st.sampled_from([0, 0, n - 1, n - 1, n//2]))
            stack[i] = draw(st.sampled_from(angles))
        out.append(stack)
    return dict(angles=angles, stacks=out, delta=delta,
                dam_tol=draw(st.booleans()),
                rule=draw(st.sampled_from([1, 2, 3])))


def check(case, ctx):
    from src.guidelines import disorientation as mod
    delta = case['delta']
    con = gen.build_constraints(dict(
        diso=True, delta_angle=delta, dam_tol=case['dam_tol'],
        dam_tol_rule=case['rule'], set_of_angles=case['angles']), noise=case.get('noise', 0))
    counts = []
    for stack in case['stacks']:
        arr = gen.ints(stack)
        for a, b in zip(stack, stack[1:]):
            want = ref.diso_angle(a, b) <= delta
            for p, q in ((a, b), (b, a)):
                expect(bool(mod.is_diso(p, q, delta)) == want,
                       'disorientation of %s/%s (limit %s): answered %s',
                       p, q, delta, not want)
        inner = ref.trimmed(stack, case['dam_tol'], case['rule'])
        bad = ref.diso_count(inner, delta)
        full = ref.diso_count(stack, delta)
        counts.append(bad)
        ctx.nontrivial(len(stack) > 3 and (full <= 2))
        ctx.label('%d bad interfaces' % min(full, 3))
        got = mod.is_diso_ss(arr, delta, case['dam_tol'], con.dam_tol_rule)
        expect(bool(got) == (bad == 0),
               'disorientation of %s (limit %s, damage tolerance %s rule %s):'
               ' answered %s', stack, delta, case['dam_tol'], case['rule'],
               got)
        expect(bool(mod.is_diso_ss(arr, delta)) == (full == 0),
               'disorientation of %s (limit %s)', stack, delta)
        got = mod.calc_n_penalty_diso_ss(arr, con)
        expect(int(got) == bad, 'disorientation violations of %s: counted %s,'
               ' expected %d', stack, got, bad)
    got = mod.calc_number_violations_diso_mp(
        [gen.ints(s) for s in case['stacks']], con)
    expect_close(got, counts, 0, 'disorientation violations per panel of %s',
                 case['stacks'])


SUBS = [Sub('stack', gen.noisy(case_()), check, 6000, 150000,
            rule='more than three plies and at most two bad interfaces')]
