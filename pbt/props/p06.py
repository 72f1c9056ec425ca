"""P06 candidate filters for contiguity and disorientation"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect


@st.composite
def near_run(draw, base, few, n):
    run = [base]*n
    where = draw(st.integers(-3, n - 1))
    if where >= 0:
        run[where] = draw(st.sampled_from(few))
    return run


@st.composite
def case_(draw):
    angles = draw(gen.angle_sets(base=False, max_extra=1))
    few = angles[:draw(st.integers(2, len(angles)))]
    ncol = draw(st.integers(1, 8))
    row = st.lists(st.sampled_from(few), min_size=ncol, max_size=ncol)
    before = draw(gen.stacks(few, 0, 9))
    rows = draw(st.lists(row, min_size=1, max_size=8))
    if draw(st.booleans()):  # one run, broken at no more than one ply
        base = draw(st.sampled_from(few))
        before = draw(near_run(base, few, draw(st.integers(1, 9))))
        ncol = draw(st.integers(1, 9))
        rows = draw(st.lists(near_run(base, few, ncol), min_size=1,
                             max_size=8))
        return dict(angles=angles, rows=rows, before=before,
                    group=draw(st.integers(1, ncol)), diso=draw(
                        st.booleans()), contig=True,
                    n_contig=draw(st.integers(2, 6)), delta=draw(
                        st.sampled_from([30, 45, 45, 60, 90])))
    if before:  # rows that continue the preceding run
        for r in rows:
            k = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6]))
            r[:k] = [before[-1]]*min(k, ncol)
    return dict(angles=angles, rows=rows, before=before,
                group=draw(st.integers(1, ncol)),
                diso=draw(st.booleans()), contig=draw(
                    st.sampled_from([True, True, False])),
                n_contig=draw(st.integers(2, 6)),
                delta=draw(st.sampled_from([30, 45, 45, 60])))


def crossing_ok(before, row, group, n):
    "no window of n + 1 equal plies across the junction"
    whole = list(before) + list(row[:group])
    b = len(before)
    for start in range(max(0, b - n), b):
        window = whole[start:start + n + 1]
        if len(window) == n + 1 and len(set(window)) == 1 \
                and start + n >= b:
            return False
    return True


def check(case, ctx):
    from src.guidelines.external_contig import external_contig
    from src.guidelines.external_diso_contig import external_diso_contig
    from src.guidelines.internal_contig import internal_contig
    from src.guidelines.internal_diso_contig import internal_diso_contig
    con = gen.build_constraints(dict(
        contig=case['contig'], n_contig=case['n_contig'],
        diso=case['diso'], delta_angle=case['delta'],
        set_of_angles=case['angles']), noise=case.get('noise', 0))
    rows, before, group = case['rows'], case['before'], case['group']
    n, delta = case['n_contig'], case['delta']

    def ext_c(r):
        return not case['contig'] or crossing_ok(before, r, group, n)

    def ext_d(r):
        return (not case['diso'] or not before
                or ref.diso_angle(before[-1], r[0]) <= delta)

    def int_c(r):
        return not case['contig'] or ref.contig_ok(r, n)

    def int_d(r):
        return not case['diso'] or ref.diso_count(r, delta) == 0

    arr_before = gen.ints(before)
    kept_counts = []
    for name, func, args, keep in (
            ('external_contig', external_contig, (group, con, arr_before),
             ext_c),
            ('external_diso_contig', external_diso_contig,
             (group, con, arr_before), lambda r: ext_c(r) and ext_d(r)),
            ('internal_contig', internal_contig, (con,), int_c),
            ('internal_diso_contig', internal_diso_contig, (con,),
             lambda r: int_c(r) and int_d(r))):
        want = [i for i, r in enumerate(rows) if keep(r)]
        kept_counts.append(len(want))
        tag = np.array([[100 + i, i] for i in range(len(rows))])
        for angle2 in (None, tag):
            arr = gen.ints(rows)
            got, got2 = func(arr, *args) if angle2 is None \
                else func(arr, *args, angle2=angle2)
            expect(got.tolist() == [rows[i] for i in want],
                   '%s (preceding plies %s, %d plies per group, contiguity '
                   '%s/%d, disorientation %s/%s) kept %s of %s', name, before,
                   group, case['contig'], n, case['diso'], delta,
                   got.tolist(), rows)
            if angle2 is not None:
                expect(got2.tolist() == tag[want].tolist(),
                       '%s: companion rows %s do not follow the kept rows %s',
                       name, got2.tolist(), want)
            expect(arr.tolist() == rows, '%s modified its input', name)
    ctx.nontrivial(any(0 < k < len(rows) for k in kept_counts))
    # a one-dimensional candidate is one row
    got, _ = external_contig(gen.ints(rows[0]), group, con, arr_before)
    expect(got.shape[0] == int(ext_c(rows[0])),
           'single candidate %s after %s: kept %d', rows[0], before,
           got.shape[0])


SUBS = [Sub('filters', gen.noisy(case_()), check, 12000, 250000,
            rule='a filter keeps some candidates and rejects others')]
