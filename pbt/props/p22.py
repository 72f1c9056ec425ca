"""P22 initial ply-drop layouts given in a workbook"""
import importlib
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import bella, gen, standin, structures
from pbt.core import Sub, expect
from pbt.props.p21 import book, ints, tables


def write(name, layouts, order=None, first=1):
    "layouts saved as the script pdls_in_excel saves them"
    import pandas as pd
    from src.divers.excel import append_df_to_excel
    for k in range(len(layouts)) if order is None else order:
        append_df_to_excel(name, pd.DataFrame(layouts[k]),
                           'pdl' + str(k + first), index=False, header=False)


@st.composite
def matrices(draw):
    # from ten layouts on, the numbers have two digits
    many = draw(st.sampled_from([False]*3 + [True]))
    n = draw(st.integers(9, 14) if many else st.integers(0, 6))
    out = []
    for _ in range(n):
        rows = draw(st.integers(1, 2 if many else 5))
        cols = draw(st.integers(1, 3 if many else 9))
        row = st.lists(st.integers(-1, 30), min_size=cols, max_size=cols)
        out.append(draw(st.lists(row, min_size=rows, max_size=rows)))
    return dict(layouts=out, order=list(draw(st.permutations(range(n)))),
                gap=draw(st.sampled_from([None, None, None] + list(range(n)))),
                others=draw(st.lists(st.sampled_from(
                    ['Constraints', 'penalties', 'pdl', 'pdl01']),
                    unique=True, max_size=2)),
                before=draw(st.booleans()), fit=draw(st.booleans()))


def check_file(case, ctx):
    import pandas as pd
    from src.BELLA.pdl_ini import read_pdls_excel
    from src.divers.excel import append_df_to_excel, autofit_column_widths
    layouts, gap = case['layouts'], case['gap']
    order = [k for k in case['order'] if k != gap]
    want = layouts if gap is None else layouts[:gap]
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'layouts.xlsx')
        if case['before'] or not order:
            append_df_to_excel(name, pd.DataFrame([[1, 2]]), 'notes')
        write(name, layouts, order)
        for other in case['others']:
            append_df_to_excel(name, pd.DataFrame([[7, 8]]), other,
                               index=False, header=False)
        if case['fit']:
            autofit_column_widths(name)
        got = read_pdls_excel(name)
    expect([np.array(m).tolist() for m in got] == want, 'layouts %s read as '
           '%s', want, [np.array(m).tolist() for m in got])
    ctx.nontrivial(len(want) > 1)
    ctx.label('%d layouts' % len(want))


@st.composite
def sized(draw):
    data = draw(structures.panel_graphs(True, 1, 5, lo=4, hi=16))
    counts = sorted(set(p['n_plies'] for p in data['panels']))
    layouts = [draw(structures.nested_layouts(counts))
               for _ in range(draw(st.integers(1, 3)))]
    bad = draw(st.sampled_from([None, None, 'short', 'long', 'missing',
                                'extra']))
    return dict(data=data, layouts=layouts, bad=bad,
                which=draw(st.integers(0, 10)), row=draw(st.integers(0, 10)),
                pos=draw(st.integers(0, 40)))


def check_sizes(case, ctx):
    from src.BELLA.pdl_ini import check_pdls_ini
    con = gen.build_constraints(dict(sym=True, set_of_angles=gen.BASE))
    mp = structures.build(case['data'], con)
    mp.from_mp_to_blending_strip(con, 1)
    layouts = [[list(r) for r in m] for m in case['layouts']]
    k = case['which'] % len(layouts)
    row = layouts[k][case['row'] % len(layouts[k])]
    bad = case['bad']
    if bad == 'short':
        keep = [i for i, v in enumerate(row) if v != -1]
        row[keep[case['pos'] % len(keep)]] = -1
    elif bad == 'long':
        gone = [i for i, v in enumerate(row) if v == -1]
        if gone:
            row[gone[case['pos'] % len(gone)]] = 3
        else:
            bad = None
    elif bad == 'missing':
        layouts[k].pop()
    elif bad == 'extra':
        layouts[k].append(list(layouts[k][-1]))
    ctx.label(str(bad))
    ctx.nontrivial(bad is not None and len(layouts[0]) > 1)
    try:
        check_pdls_ini(mp, [np.array(m).reshape(-1, mp.n_plies_max)
                            for m in layouts])
        ok = True
    except Exception as exc:
        expect('wrong number' in str(exc), 'error %r', exc)
        ok = False
    expect(ok == (bad is None), 'layouts (%s) accepted: %s, %s', bad, ok,
           layouts)


@st.composite
def reruns(draw):
    case = draw(bella.problem(max_panels=4, max_half=9))
    return dict(case=case, save=draw(st.sampled_from([False]*3 + [True])),
                keep=draw(st.lists(st.integers(0, 2), max_size=4)))


def facts(s, k):
    return ([list(map(int, x)) for x in s.res.ss_tab[k]],
            np.array(s.res.ss_tab_tab[k]).tolist(),
            float(s.res.obj_constraints_tab[k]),
            np.array(s.res.obj_no_constraints_tab[k]).tolist())


def check_rerun(case, ctx):
    importlib.import_module('src.BELLA.optimiser')
    made = []
    inner = standin.find('src.BELLA.pdl_ini', 'create_initial_pdls')
    if inner is None:
        return

    def record(*args, **kw):
        out = inner(*args, **kw)
        made[:] = [np.array(m).tolist() for m in out]
        return out
    with standin.replaced((inner, record)):
        one = bella.run(case['case'])
    if not made:
        ctx.label(one.why)
        return
    # layouts dropped, repeated or exchanged in the workbook
    pick = [k % len(made) for k in case['keep']] or list(range(len(made)))
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'layouts.xlsx')
        write(name, [made[k] for k in pick])
        kw = {}
        if case['save']:
            kw = dict(save=True, filename=os.path.join(folder, 'res.xlsx'))
        two = bella.run(case['case'], filename_initial_pdls=name, **kw)
        content = book(kw['filename']) if kw and two.res else None
    objs = [float(one.res.obj_constraints_tab[k]) if one.res else np.nan
            for k in pick]
    good = [k for k, o in enumerate(objs) if not np.isnan(o)]
    expect((two.res is None) == (not good), 'layouts %s read from a workbook: '
           'results %s', pick, two.res is not None)
    if not good:
        ctx.label('no design')
        return
    expect(len(two.res.obj_constraints_tab) == len(pick), '%d results for %d '
           'layouts', len(two.res.obj_constraints_tab), len(pick))
    for j, k in enumerate(pick):
        if j not in good:
            expect(np.isnan(two.res.obj_constraints_tab[j]), 'layout %d', j)
            continue
        a, b = facts(one, k), facts(two, j)
        expect(str(a) == str(b), 'layout %d generated: %s, read: %s', k, a, b)
    expect(objs[two.res.ind_mini] == min(objs[k] for k in good),
           'best design')
    ctx.nontrivial(len(good) > 1)
    ctx.label('%d designs' % len(good))
    if content is None:
        return
    mp = one.mp
    found = tables(content['Results'], 'obj_constraints')
    expect(len(found) == len(good), 'sheet Results: %d tables', len(found))
    distinct = sorted(set(p['n_plies'] for p in case['case']['data']['panels']))
    for j, table in zip(good, found):
        for p, row in zip(case['case']['data']['panels'], table):
            expect(ints(row['initial ply drop layout'])
                   == made[pick[j]][distinct.index(p['n_plies'])],
                   'sheet Results: layout of a panel of %d plies: %s in %s',
                   p['n_plies'], row['initial ply drop layout'],
                   made[pick[j]])


SUBS = [
    Sub('file', matrices(), check_file, 200, 6000,
        rule='several layouts in the workbook'),
    Sub('sizes', sized(), check_sizes, 1500, 40000,
        rule='layout of the wrong size for several thicknesses'),
    Sub('rerun', reruns(), check_rerun, 200, 8000,
        rule='designs found with several layouts'),
]
