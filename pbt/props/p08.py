"""P08 ply-drop spacing"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, structures
from pbt.core import Sub, expect, expect_close


@st.composite
def one_case(draw):
    n = draw(gen.size(1, 24, 70))
    return dict(layout=[draw(st.sampled_from([-1, i, i, i])) for i in range(n)],
                min_drop=draw(st.integers(1, 5)))


def check_one(case, ctx):
    from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss
    lay, m = case['layout'], case['min_drop']
    want = ref.spacing_penalty(lay, m)
    ctx.nontrivial(lay.count(-1) >= 2 and want > 0)
    ctx.label('penalised' if want else 'fine')
    for arr in (np.array(lay), np.array(lay, float), np.array(lay[::-1])):
        expect_close(calc_penalty_spacing_1ss(arr, m), want, 1e-12,
                     'spacing penalty (min_drop %d) of layout %s', m, lay)


@st.composite
def strip_case(draw):
    sym = draw(st.booleans())
    data = draw(st.one_of(*[structures.panel_graphs(
        sym, 2, 5, lo=4, hi=18)]*5 + [structures.panel_graphs(
            sym, 2, 9, lo=4, hi=50)]))
    counts = [p['n_plies'] for p in data['panels']]
    width = max(counts)
    parts = []
    # layouts of the groups before and after the current one
    rows = draw(structures.nested_layouts(counts, sym, width))
    cut1 = draw(st.integers(0, width//3))
    cut2 = draw(st.integers(0, width//3))
    return dict(data=data, sym=sym, rows=rows, cut1=cut1, cut2=cut2,
                min_drop=draw(st.integers(1, 4)),
                on=draw(st.sampled_from([True]*6 + [False])))


def want_penalty(data, rows, min_drop):
    total = 0
    for (i, j), w in zip(data['edges'], structures.edge_weights(data)):
        ci = sum(p != -1 for p in rows[i])
        cj = sum(p != -1 for p in rows[j])
        if ci == cj:
            continue
        thin, thick = (rows[i], rows[j]) if ci < cj else (rows[j], rows[i])
        shared = [a for a, b in zip(thin, thick) if b != -1]
        total += w*ref.spacing_penalty(shared, min_drop)
    return total


def check_strip(case, ctx):
    from src.guidelines.ply_drop_spacing import calc_penalty_spacing
    from src.guidelines.one_stack import check_ply_drop_rules
    con = gen.build_constraints(dict(
        sym=case['sym'], pdl_spacing=case['on'], min_drop=case['min_drop'],
        covering=False, set_of_angles=gen.BASE), noise=case.get('noise', 0))
    data, rows = case['data'], case['rows']
    mp = structures.build(data, con)
    want = want_penalty(data, rows, case['min_drop']) if case['on'] else 0
    ctx.nontrivial(case['on'] and want > 0)
    ctx.label('penalised' if want else 'fine')
    pdl = np.array(rows)
    got = calc_penalty_spacing(pdl=pdl, multipanel=mp, constraints=con,
                               on_blending_strip=False)
    expect_close(got, want, 1e-9, 'spacing penalty (min_drop %d) of the '
                 'layouts %s', case['min_drop'], rows)
    mp.from_mp_to_blending_strip(con, n_plies_ref_panel=1)
    order = sorted(set(len([p for p in r if p != -1]) for r in rows))
    strip = [next(r for r in rows
                  if len([p for p in r if p != -1]) == c) for c in order]
    got = calc_penalty_spacing(pdl=np.array(strip), multipanel=mp,
                               constraints=con, on_blending_strip=True)
    expect_close(got, want, 1e-9, 'spacing penalty (min_drop %d) of the '
                 'blending strip %s', case['min_drop'], strip)
    # same layouts, split between previous, current and next groups
    a, b = case['cut1'], len(rows[0]) - case['cut2']
    arr = np.array(strip)
    if b - a >= 2:
        got = calc_penalty_spacing(
            pdl=arr[:, a:b], multipanel=mp, constraints=con,
            on_blending_strip=True, pdl_before=arr[:, :a], pdl_after=arr[:, b:])
        expect_close(got, want, 1e-9, 'spacing penalty of the layouts %s split'
                     ' at %d and %d', strip, a, b)
    expect(pdl.tolist() == rows, 'input modified')
    try:
        check_ply_drop_rules(arr, mp, con, reduced=True)
        accepted = True
    except Exception as exc:
        if 'spacing' not in str(exc):
            raise
        accepted = False
    expect(accepted == (want == 0), 'ply drop rules (min_drop %d) %s for %s '
           'with penalty %s', case['min_drop'],
           'accepted' if accepted else 'rejected', strip, want)


SUBS = [
    Sub('layout', gen.noisy(one_case()), check_one, 4000, 80000,
        rule='two or more drops closer than the required spacing'),
    Sub('structure', gen.noisy(strip_case()), check_strip, 3000, 60000,
        rule='rule active and a positive penalty')]
