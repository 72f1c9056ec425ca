"""P16 conversions between stacks, stacking sequence tables and layouts"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, structures
from pbt.core import Sub, expect


@st.composite
def layout_case(draw):
    sym = draw(st.booleans())
    step = 2 if sym else 1
    counts = sorted(draw(st.lists(
        st.integers(2, draw(
            st.sampled_from([24]*5 + [70]))//step).map(lambda k: k*step), min_size=1,
        max_size=draw(st.sampled_from([5]*5 + [9])), unique=True)))
    layout = draw(structures.nested_layouts(counts, sym))
    angles = draw(gen.angle_sets())
    guide = draw(gen.stacks(angles, counts[-1], counts[-1]))
    i_ref = draw(st.integers(0, len(counts) - 1))
    other = draw(gen.stacks(angles, counts[i_ref], counts[i_ref]))
    width = counts[-1]
    positions = draw(st.lists(st.integers(1, width), max_size=6, unique=True))
    return dict(layout=layout, guide=guide, i_ref=i_ref, other=other,
                positions=positions)


def reference_table(layout, guide):
    return [[g if keep != -1 else -1 for keep, g in zip(row, guide)]
            for row in layout]


def lists(x):
    return [[int(a) for a in row] for row in x]


def check_tables(case, ctx):
    from src.BELLA import format_pdl as fp
    layout, guide = case['layout'], case['guide']
    pdl = np.array(layout)
    table = reference_table(layout, guide)
    stacks = [[a for a in row if a != -1] for row in table]
    ctx.nontrivial(len(layout) > 1 and len(set(guide)) > 1)
    got = fp.convert_ss_guide_to_sst(gen.ints(guide), pdl)
    expect(lists(got) == table, 'guide %s with layout %s gives %s', guide,
           layout, lists(got))
    ss = fp.convert_sst_to_ss(np.array(table))
    expect(lists(ss) == stacks, 'table %s gives stacks %s', table, lists(ss))
    back = fp.convert_ss_to_sst([gen.ints(s) for s in stacks], pdl)
    expect(lists(back) == table, 'stacks %s with layout %s give %s', stacks,
           layout, lists(back))
    # modified reference panel: its plies replaced in every panel they cover
    i_ref, other = case['i_ref'], case['other']
    new = [list(row) for row in table]
    k = 0
    for col in range(len(guide)):
        if layout[i_ref][col] != -1:
            for row in new:
                if row[col] != -1:
                    row[col] = other[k]
            k += 1
    got = fp.convert_ss_ref_to_reduced_sst(
        ss_ref=gen.ints(other), ind_ref=i_ref, reduced_pdl=pdl,
        reduced_ss_before=[gen.ints(s) for s in stacks])
    expect(lists(got) == new, 'panel %d modified from %s to %s in table %s '
           'gives %s', i_ref, stacks[i_ref], other, table, lists(got))
    expect(lists(pdl) == layout, 'layout modified')


def check_positions(case, ctx):
    from src.BELLA import format_pdl as fp
    layout, i_ref = case['layout'], case['i_ref']
    row = layout[i_ref]
    kept = [k + 1 for k, x in enumerate(row) if x != -1]
    ctx.nontrivial(len(kept) < len(row) and len(case['positions']) > 1)
    in_ref = [p for p in case['positions'] if p <= len(kept)]
    got = [int(x) for x in fp.pos_in_ss_ref_to_pos_in_sst(
        list(in_ref), np.array(row))]
    want = [kept[p - 1] for p in in_ref]
    expect(got == want, 'plies %s of the panel %s are plies %s of the table, '
           'not %s', in_ref, row, want, got)
    for other in layout:
        there = [k + 1 for k, x in enumerate(other) if x != -1]
        ordered = sorted(case['positions'])
        got = [int(x) for x in fp.pos_in_sst_to_pos_in_panel(
            list(ordered), np.array(other))]
        want = [there.index(p) + 1 for p in ordered if p in there]
        expect(got == want, 'plies %s of the table are plies %s of the panel '
               '%s, not %s', ordered, want, other, got)
        got = [float(x) for x in fp.pos_in_sst_to_pos_in_panel_2(
            list(case['positions']), np.array(other))]
        want = [there.index(p) + 1 if p in there else 1e10
                for p in case['positions']]
        expect(got == want, 'plies %s of the table are plies %s of the panel '
               '%s, not %s', case['positions'], want, other, got)


@st.composite
def strip_case(draw):
    sym = draw(st.booleans())
    return dict(sym=sym, data=draw(structures.panel_graphs(
        sym, 1, 7, lo=4, hi=20)), ref=draw(st.sampled_from([1, 10, 100])))


def check_strip(case, ctx):
    "panels -> blending strip -> panels"
    from src.BELLA import format_pdl as fp
    con = gen.build_constraints(dict(sym=case['sym'],
                                     set_of_angles=gen.BASE), noise=case.get('noise', 0))
    mp = structures.build(case['data'], con)
    mp.from_mp_to_blending_strip(con, case['ref'])
    plies = [p['n_plies'] for p in case['data']['panels']]
    distinct = sorted(set(plies))
    ctx.nontrivial(1 < len(distinct) < len(plies))
    reduced = [gen.ints([n]*n) for n in distinct]
    full = fp.extend_after_guide_based_blending(mp, reduced)
    expect([len(s) for s in full] == plies and
           all((s == n).all() for s, n in zip(full, plies)),
           'stacks of %s plies extended to panels of %s plies: %s', distinct,
           plies, [len(s) for s in full])
    back = fp.reduce_for_guide_based_blending(mp, full)
    expect([len(s) for s in back] == distinct,
           'stacks of panels of %s plies reduced to stacks of %s plies',
           plies, [len(s) for s in back])
    table = np.array([[n]*3 for n in distinct])
    full = fp.extend_after_guide_based_blending(mp, table)
    expect(isinstance(full, np.ndarray)
           and lists(full) == [[n]*3 for n in plies],
           'table rows %s extended to %s', distinct, lists(full))
    back = fp.reduce_for_guide_based_blending(mp, full)
    expect(lists(back) == lists(table), 'table rows %s reduced to %s', plies,
           lists(back))


@st.composite
def input_case(draw):
    sym = draw(st.booleans())
    step = 2 if sym else 1
    cov = draw(st.sampled_from([0, 1, 2]))
    inner = sorted(draw(st.lists(
        st.integers(1, 20//step).map(lambda k: k*step), min_size=1,
        max_size=4, unique=True)))
    layout = draw(structures.nested_layouts(inner, sym))
    layout = [[0]*cov + row + [0]*cov for row in layout]
    guide = draw(gen.stacks(gen.BASE, len(layout[0]), len(layout[0])))
    if sym:
        guide = guide[:len(guide)//2]
        guide += guide[::-1]
    return dict(sym=sym, cov=cov, layout=layout, guide=guide)


def check_input(case, ctx):
    "layout recovered from a stacking sequence table"
    import numpy.matlib  # noqa: F401
    from src.BELLA.pdl_tools import input_pdl_from_sst
    con = gen.build_constraints(dict(
        sym=case['sym'], set_of_angles=gen.BASE, covering=case['cov'] > 0,
        n_covering=case['cov']), noise=case.get('noise', 0))
    counts = [sum(x != -1 for x in row) for row in case['layout']]
    n = len(counts)
    mp = structures.build(dict(
        panels=[dict(ID=i + 1, n_plies=c, length_x=1, length_y=1, weighting=1)
                for i, c in enumerate(counts)],
        edges=[[i, i + 1] for i in range(n - 1)], decl=['first']*(n - 1),
        weights=None), con)
    mp.from_mp_to_blending_strip(con, 1)
    table = np.array(reference_table(case['layout'], case['guide']))
    before = table.copy()
    pdl = input_pdl_from_sst(table, mp, con)[0]
    ctx.nontrivial(n > 1)
    expect((table == before).all(), 'stacking sequence table modified')
    expect(lists(pdl != -1) == lists(before != -1),
           'plies %s of the layout for the table %s', lists(pdl),
           lists(before))
    for row in np.asarray(pdl):
        if case['sym']:
            expect((row == row[::-1]).all(), 'layout not symmetric %s', row)
            row = row[:len(row)//2]
        row = row[row != -1]
        expect((np.diff(row) == 1).all(), 'plies of the layout numbered %s',
               row)


@st.composite
def rules_case(draw):
    n_panels = draw(st.integers(1, 4))
    widths = [draw(st.integers(0, 4)), draw(st.integers(1, 8)),
              draw(st.integers(0, 4))]
    total = sum(widths)

    bit = st.sampled_from([False, False, False, True])

    def row_bits():
        return st.lists(bit, min_size=total, max_size=total)
    n_layouts = draw(st.integers(1, 4))
    outer = [draw(row_bits()) for _ in range(n_panels)]
    inner = [[draw(st.lists(bit, min_size=widths[1],
                            max_size=widths[1])) for _ in range(n_panels)]
             for _ in range(n_layouts)]
    edges = [[i, i + 1] for i in range(n_panels - 1)]
    if n_panels > 2 and draw(st.booleans()):
        edges.append([0, n_panels - 1])
    return dict(widths=widths, outer=outer, inner=inner, edges=edges,
                min_drop=draw(st.sampled_from([1, 2, 2, 3])),
                spacing=draw(st.sampled_from([True, True, True, False])))


def check_rules(case, ctx):
    "selection of the layouts that satisfy the spacing rule"
    from src.BELLA.pdl_tools import ply_drops_rules
    w0, w1, w2 = case['widths']
    num = np.arange(w0 + w1 + w2)
    outer = [np.where(b, -1, num) for b in case['outer']]
    inner = np.array([[np.where(b, -1, num[w0:w0 + w1]) for b in lay]
                      for lay in case['inner']])
    want = []
    for lay in inner:
        ok = True
        for i, j in case['edges']:
            rows = [np.hstack((outer[k][:w0], lay[k], outer[k][w0 + w1:]))
                    for k in (i, j)]
            both = [(a, b) for a, b in zip(*rows) if a != -1 or b != -1]
            for side in (0, 1):
                if ref.spacing_penalty([p[side] for p in both],
                                       case['min_drop']) > 0:
                    ok = False
        want.append(ok or not case['spacing'])
    kw = {}
    if w0:
        kw['pdl_before'] = np.array([r[:w0] for r in outer])
    if w2:
        kw['pdl_after'] = np.array([r[w0 + w1:] for r in outer])
    got = ply_drops_rules(inner, case['min_drop'], np.array(
        case['edges'], int).reshape(-1, 2), pdl_spacing=case['spacing'], **kw)
    ctx.nontrivial(case['spacing'] and 0 < sum(want) < len(want))
    got = [lists(lay) for lay in got]
    expect(got == [lists(lay) for lay, w in zip(inner, want) if w],
           'layouts kept: %s, expected those with %s', got, want)


SUBS = [
    Sub('tables', gen.noisy(layout_case()), check_tables, 2500, 40000,
        rule='at least two panels and two fibre angles'),
    Sub('positions', gen.noisy(layout_case()), check_positions, 2500, 40000,
        rule='a panel with dropped plies and several positions'),
    Sub('strip', gen.noisy(strip_case()), check_strip, 1500, 20000,
        rule='panels sharing thicknesses, at least two thicknesses'),
    Sub('input', gen.noisy(input_case()), check_input, 1500, 20000,
        rule='at least two thicknesses'),
    Sub('rules', gen.noisy(rules_case()), check_rules, 2000, 30000,
        rule='some layouts kept and some removed')]
