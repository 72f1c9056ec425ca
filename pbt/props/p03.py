"""P03 contiguity"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect, expect_close


@st.composite
def case_(draw):
    angles = draw(gen.angle_sets(base=False, max_extra=1))
    sizes = draw(st.lists(gen.size(1, 22, 60), min_size=1, max_size=draw(
        st.sampled_from([3]*5 + [9]))))
    return dict(angles=angles,
                stacks=[draw(gen.stacks(angles, n, n)) for n in sizes],
                n_contig=draw(st.integers(2, 6)),
                dam_tol=draw(st.booleans()),
                rule=draw(st.sampled_from([1, 2, 3])))


def check(case, ctx):
    from src.guidelines import contiguity as mod
    from src.guidelines.internal_contig import internal_contig2
    n = case['n_contig']
    con = gen.build_constraints(dict(
        contig=True, n_contig=n, dam_tol=case['dam_tol'],
        dam_tol_rule=case['rule'], set_of_angles=case['angles']), noise=case.get('noise', 0))
    counts = []
    for stack in case['stacks']:
        arr = gen.ints(stack)
        longest = max(k for _, k in ref.runs(stack))
        ctx.nontrivial(longest >= n)
        ok = ref.contig_ok(stack, n)
        ctx.label('longest run - limit: %d' % max(-2, min(2, longest - n)))
        expect(bool(mod.is_contig(arr, n)) == ok,
               'contiguity (limit %d) of %s: answered %s', n, stack, not ok)
        expect(bool(internal_contig2(arr, con)) == ok,
               'contiguity filter (limit %d) of %s: answered %s',
               n, stack, not ok)
        expect(bool(mod.is_contig(arr[::-1], n)) == ok,
               'contiguity differs for the flipped stack %s', stack)
        expect(bool(mod.is_contig(arr, 1)), 'limit 1 means inactive rule')
        want = ref.contig_windows(stack, n)
        counts.append(want)
        got = mod.calc_penalty_contig_ss(arr, con)
        expect(int(got) == want, 'contiguity violations (limit %d) of %s: '
               'counted %s, expected %d', n, stack, got, want)
        vec = mod.calc_contig_vector(arr, n)
        expect(int(np.sum(vec)) == ref.contig_windows(stack, n),
               'violation vector of %s (limit %d): %s', stack, n, vec)
    got = mod.calc_penalty_contig_mp(
        [gen.ints(s) for s in case['stacks']], con)
    expect_close(got, counts, 0, 'contiguity violations per panel of %s',
                 case['stacks'])
    expect(all(gen.ints(s).tolist() == s for s in case['stacks']), 'input')


SUBS = [Sub('stack', gen.noisy(case_()), check, 6000, 150000,
            rule='a run of equal plies reaches the limit')]
