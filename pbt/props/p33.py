"""P33 tools: workbooks, sorting, maxima, subset sums"""
import builtins
import contextlib
import io
import itertools
import os
import tempfile
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from pbt.core import Sub, expect, expect_close
from pbt.props.p21 import book

SHEETS = ['Results', 'Best Result', 'pdl1', 'x']


@st.composite
def frames(draw):
    rows, cols = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    cell = st.one_of(st.integers(-1000, 1000), st.text('ab 0-', min_size=1,
                                                       max_size=6),
                     st.sampled_from([0.5, -2.25, 1e-9, 1e12]),
                     st.booleans())
    # one kind of values in each column, as pandas stores them
    data = []
    for _ in range(cols):
        first = draw(cell)
        kind = {bool: st.booleans(), int: st.integers(-1000, 1000),
                float: st.sampled_from([0.5, -2.25, 1e12, 3e-7])}.get(
                    type(first), st.text('ab 0-', min_size=1, max_size=6))
        data.append([draw(kind) for _ in range(rows)])
    return [list(r) for r in zip(*data)]


@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(['append', 'append', 'append', 'at',
                                     'truncate', 'fit']))
        op = dict(kind=kind)
        if kind != 'fit':
            op.update(sheet=draw(st.sampled_from(SHEETS)),
                      data=draw(frames()), index=draw(st.booleans()),
                      header=draw(st.booleans()),
                      engine=draw(st.sampled_from([False, False, True])))
        if kind == 'at':
            op['row'] = draw(st.integers(0, 12))
        ops.append(op)
    return dict(ops=ops)


def cells(op):
    "rows written"
    n = len(op['data'][0])
    out = [list(r) for r in op['data']]
    if op['header']:
        out.insert(0, ['c%d' % k for k in range(n)])
    if op['index']:
        shift = 1 if op['header'] else 0
        out = [[None if k < shift else k - shift] + r
               for k, r in enumerate(out)]
    return out


def check_workbook(case, ctx):
    import pandas as pd
    from src.divers.excel import append_df_to_excel, autofit_column_widths
    model, order = {}, []
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'tables.xlsx')
        for step, op in enumerate(case['ops']):
            if op['kind'] == 'fit':
                if order:
                    autofit_column_widths(name)
                continue
            frame = pd.DataFrame(op['data'], columns=[
                'c%d' % k for k in range(len(op['data'][0]))])
            kw = {'startrow': op['row']} if 'row' in op else {}
            if op['kind'] == 'truncate':
                kw['truncate_sheet'] = True
            if op['engine']:
                kw['engine'] = 'openpyxl'
            append_df_to_excel(name, frame, op['sheet'], index=op['index'],
                               header=op['header'], **kw)
            grid = model.setdefault(op['sheet'], {})
            if op['sheet'] not in order:
                order.append(op['sheet'])
            if op['kind'] == 'truncate':
                grid.clear()
            start = op['row'] if 'row' in op else max(
                [r + 1 for r, _ in grid], default=0)
            for i, row in enumerate(cells(op)):
                for j, value in enumerate(row):
                    # the corner of an index is left blank
                    if value is not None:
                        grid[start + i, j] = value
            content = book(name)
            expect(list(content) == order, 'step %d: sheets %s instead of '
                   '%s', step, list(content), order)
            for sheet, grid in model.items():
                got = {(i, j): v for i, row in enumerate(content[sheet])
                       for j, v in enumerate(row) if v is not None}
                expect(set(got) == set(grid), 'step %d, sheet %s: cells %s '
                       'instead of %s', step, sheet, sorted(got),
                       sorted(grid))
                for key, value in grid.items():
                    expect(got[key] == value, 'step %d, sheet %s, cell %s: '
                           '%r instead of %r', step, sheet, key, got[key],
                           value)
        if order:
            autofit_column_widths(name)
            after = book(name)
            expect(after == content, 'values changed by the resizing')
            from openpyxl import load_workbook
            for ws in load_workbook(name).worksheets:
                for col in ws.columns:
                    longest = max(len(str(c.value)) for c in col)
                    width = ws.column_dimensions[col[0].column_letter].width
                    expect(width >= longest, 'column %s of width %s for %d '
                           'characters', col[0].column_letter, width, longest)
    ctx.nontrivial(len([o for o in case['ops'] if o['kind'] != 'fit'])
                   > len(order) > 0)
    ctx.label('%d sheets' % len(order))


@st.composite
def overwrites(draw):
    return dict(exists=draw(st.sampled_from([True, True, False])),
                answer=draw(st.sampled_from(['y', 'Y', 'yes', 'Yes', 'YES',
                                             'n', 'no', '', 'yy', 'N',
                                             'maybe', 'ye'])),
                others=draw(st.integers(0, 2)))


def check_overwrite(case, ctx):
    from src.divers.excel import delete_file
    asked = []

    def fake(*text):
        asked.append(text)
        return case['answer']
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'r.xlsx')
        names = [name + str(k) for k in range(case['others'])]
        if case['exists']:
            names.append(name)
        for one in names:
            with open(one, 'w') as f:
                f.write('data')
        stopped = False
        with mock.patch.object(builtins, 'input', fake), \
                contextlib.redirect_stdout(io.StringIO()):
            try:
                delete_file(name)
            except SystemExit:
                stopped = True
        left = sorted(os.path.join(folder, f) for f in os.listdir(folder))
        agreed = case['answer'] in ('y', 'Y', 'yes', 'Yes', 'YES')
        expect(bool(asked) == case['exists'], 'question asked: %s', asked)
        expect(stopped == (case['exists'] and not agreed),
               'answer %r, interrupted: %s', case['answer'], stopped)
        want = sorted(n for n in names if n != name or not agreed)
        expect(left == want, 'answer %r: files %s instead of %s',
               case['answer'], left, want)
    ctx.nontrivial(case['exists'] and not agreed)
    ctx.label('exists' if case['exists'] else 'new')


@st.composite
def sortings(draw):
    value = st.one_of(st.integers(-5, 9), st.sampled_from([0.5, 2.5]))
    first = draw(st.lists(value, max_size=14))
    order = draw(st.lists(st.sampled_from(first or [0]) | value, max_size=8,
                          unique=True))
    return dict(first=first, order=order)


def check_sort(case, ctx):
    from src.divers.sorting import sortAccording
    first, order = case['first'], case['order']
    got = list(first)
    sortAccording(got, list(order))
    want = [x for v in order for x in first if x == v] \
        + sorted(x for x in first if x not in order)
    expect(got == want, '%s sorted according to %s: %s instead of %s', first,
           order, got, want)
    ctx.nontrivial(len(set(first) & set(order)) > 1)


@st.composite
def pairs_of_arrays(draw):
    value = st.floats(-1e3, 1e3, allow_nan=False, width=32)

    def one(n):
        form = draw(st.sampled_from(['array', 'array', 'number', 'ints'])) \
            if n == 1 else draw(st.sampled_from(['array', 'ints']))
        data = draw(st.lists(st.integers(-9, 9) if form == 'ints' else value,
                             min_size=n, max_size=n))
        return dict(form=form, data=data)
    n = draw(st.integers(1, 6))
    m = draw(st.sampled_from([n, n, 1, 1, draw(st.integers(1, 6))]))
    if draw(st.booleans()):
        n, m = m, n
    return dict(one=one(n), two=one(m))


def check_max(case, ctx):
    from src.divers.arrays import max_arrays

    def make(d):
        if d['form'] == 'number':
            return d['data'][0]
        return np.array(d['data'], int if d['form'] == 'ints' else float)
    a, b = case['one']['data'], case['two']['data']
    n = max(len(a), len(b))
    arrays = make(case['one']), make(case['two'])
    before = [np.array(x).copy() for x in arrays]
    try:
        got = max_arrays(*arrays)
    except ValueError:
        expect(len(a) != len(b) and 1 not in (len(a), len(b)),
               'sizes %d and %d rejected', len(a), len(b))
        ctx.label('rejected')
        return
    expect(len(a) == len(b) or 1 in (len(a), len(b)),
           'sizes %d and %d accepted', len(a), len(b))
    a, b = (x*n if len(x) == 1 else x for x in (a, b))
    expect_close(got, np.array([max(x, y) for x, y in zip(a, b)], float), 0,
                 'maxima of %s and %s', a, b)
    expect(all((x == y).all() for x, y in zip(
        before, map(np.array, arrays))), 'arguments modified')
    ctx.nontrivial(any(x > y for x, y in zip(a, b))
                   and any(x < y for x, y in zip(a, b)))
    ctx.label('%s' % (len(case['one']['data']) == len(case['two']['data'])))


@st.composite
def sums(draw):
    w = sorted(draw(st.lists(st.integers(1, draw(st.sampled_from(
        [3, 9, 40]))), min_size=1, max_size=8)))
    if draw(st.booleans()):
        t = sum(x for x in w if draw(st.booleans()))
    else:
        t = draw(st.integers(0, sum(w) + 3))
    return dict(w=w, t=t, order=list(draw(st.permutations(range(len(w))))))


class Counted(list):
    "a list that is not read for ever"
    reads = 0

    def __getitem__(self, key):
        self.reads += 1
        expect(self.reads < 1000 + 10*len(self), 'endless search in a table')
        return list.__getitem__(self, key)


def check_sums(case, ctx):
    from src.divers import subset_sum as mod
    w, t, n = case['w'], case['t'], len(case['w'])
    mixed = [w[k] for k in case['order']]
    subsets = list(itertools.product([0, 1], repeat=n))
    rank, seen, u = -1, [], np.zeros(n, bool)
    while True:
        u, rank = mod.subset_next(n, u, rank)
        if rank == -1:
            break
        expect(rank == len(seen) and rank <= 2**n, 'rank %s after %d '
               'subsets', rank, len(seen))
        seen.append(tuple(int(x) for x in u))
    expect(seen == subsets, 'subsets of %d elements: %s', n, seen)
    expect(not np.any(u), 'the cycle does not end with the empty subset')
    want = sum(1 for s in subsets
               if sum(x for x, y in zip(mixed, s) if y) == t)
    expect(mod.subset_sum_count(n, np.array(mixed), t) == want,
           'number of subsets of %s of sum %s', mixed, t)
    found = mod.subset_sum_find(n, np.array(mixed), t)
    total = sum(x for x, y in zip(mixed, found) if y)
    expect(total == (t if want else 0), 'subset of %s of sum %s: %s', mixed,
           t, found)
    # one solution after the other, for positive sums
    if t > 0:
        more, u, k, got = False, np.zeros(n), 0, set()
        for _ in range(2**n + 2):
            more, u, k = mod.subset_sum_next(t, n, np.array(w), more, u, k)
            if not more:
                break
            sel = tuple(int(x) for x in u)
            expect(sum(x for x, y in zip(w, sel) if y) == t, 'subset %s of '
                   '%s for the sum %s', sel, w, t)
            expect(max(i for i in range(n) if sel[i]) == k, 'highest index '
                   '%s of %s', k, sel)
            expect(sel not in got, 'subset %s of %s twice', sel, w)
            got.add(sel)
        # equal weights may stand for one another
        values = [{tuple(x for x, y in zip(w, s) if y) for s in group}
                  for group in (got, [s for s in subsets if sum(
                      x for x, y in zip(w, s) if y) == t])]
        expect(values[0] == values[1], 'sums %s of %s, found %s',
               sorted(values[1]), w, sorted(values[0]))
    if t > 0:
        table = mod.subset_sum_table(t, n, np.array(mixed))
        sums_of = {sum(x for x, y in zip(mixed, s) if y) for s in subsets}
        for i in range(1, t + 1):
            expect((table[i] != 0) == (i in sums_of), 'table of %s: sum %d '
                   'reachable: %s', mixed, i, table[i])
        m, items = mod.subset_sum_table_to_list(
            t, Counted(int(x) for x in table))
        items = [int(x) for x in items]
        expect(m == len(items) and sum(items) == (t if want else 0),
               'weights %s for the sum %s', items, t)
        pool = list(mixed)
        for x in items:
            expect(x in pool, 'weights %s taken among %s', items, mixed)
            pool.remove(x)
    ctx.nontrivial(want > 1)
    ctx.label('%d solutions' % min(want, 3))


@st.composite
def displays(draw):
    angle = st.integers(-90, 90)
    number = st.floats(-10, 10, allow_nan=False, width=32)
    kind = draw(st.sampled_from(['ss', 'list_ss', 'list', 'lampam', 'two',
                                 'diff']))
    case = dict(kind=kind, width=draw(st.sampled_from([None, 1, 2, 3, 5, 8])),
                array=draw(st.booleans()))
    if kind == 'ss':
        case['data'] = draw(st.lists(angle, max_size=20))
    elif kind == 'list_ss':
        n = draw(st.integers(1, 12))
        size = st.just(n) if case['array'] else st.integers(0, 12)
        case['data'] = [draw(st.lists(angle, min_size=k, max_size=k))
                        for k in draw(st.lists(size, min_size=1,
                                               max_size=4))]
    elif kind == 'list':
        case['data'] = draw(st.lists(number, max_size=20))
    else:
        case['data'] = [draw(st.lists(number, min_size=12, max_size=12))
                        for _ in range(2)]
    return case


def check_display(case, ctx):
    import re
    from src.divers import pretty_print as mod
    data, kind, width = case['data'], case['kind'], case['width']
    kw = {} if width is None else dict(elem_per_line=width)
    width = width or 200
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if kind == 'ss':
            mod.print_ss(np.array(data, int), **kw)
        elif kind == 'list_ss':
            stacks = [np.array(x, int) for x in data]
            mod.print_list_ss(np.array(stacks) if case['array'] else stacks,
                              **kw)
        elif kind == 'list':
            mod.print_list(np.array(data) if case['array'] else data, **kw)
        elif kind == 'lampam':
            mod.print_lampam(np.array(data[0]))
        else:
            mod.print_lampam(*map(np.array, data), diff=kind == 'diff')
    text = re.sub('\x1b[^m]*m', '', out.getvalue())
    number = r'-?\d+\.\d{5}'
    ctx.label(kind)
    if kind in ('ss', 'list_ss'):
        rows = [data] if kind == 'ss' else data
        got = [[int(x) for x in line.split(',')[:-1]]
               for line in text.split('\n') if ',' in line]
        want = [row[k:k + width] for row in rows
                for k in range(0, len(row), width)]
        expect(got == want, '%s displayed as\n%s', rows, text)
        ctx.nontrivial(max(map(len, rows)) > width)
        return
    if kind == 'list':
        got = [line.split(',')[:-1] for line in text.split('\n')
               if ',' in line]
        expect(all(re.fullmatch(number, x.strip()) for row in got
                   for x in row), 'decimals in\n%s', text)
        got = [[float(x) for x in row] for row in got]
        want = [data[k:k + width] for k in range(0, len(data), width)]
        ctx.nontrivial(len(data) > width)
    else:
        lines = [x for x in text.split('\n') if x.strip()]
        expect([re.match(r'lampam (\d+) *:', x).group(1) for x in lines]
               == [str(k + 1) for k in range(12)], 'lines\n%s', text)
        got = [[float(x) for x in re.findall(number, x)] for x in lines]
        want = [[x] + ([y] if kind != 'lampam' else [])
                + ([y - x] if kind == 'diff' else []) for x, y in zip(*data)]
        ctx.nontrivial(kind != 'lampam')
    expect([len(x) for x in got] == [len(x) for x in want],
           '%s displayed as\n%s', data, text)
    for x, y in zip(got, want):
        expect_close(x, y, 6e-6, '%s displayed as\n%s', data, text)


@st.composite
def rotations(draw):
    angle = st.one_of(st.sampled_from([0, 45, -45, 90, 60, -60]),
                      st.integers(-89, 90))
    n = draw(st.integers(1, 40))
    return dict(angles=[draw(angle), draw(angle)], n=n, plies=[
        draw(st.integers(0, n - 1)) for _ in range(2)])


def check_rotations(case, ctx):
    from src.RELAY import repair_tools as mod
    (one, two), n, (i, j) = case['angles'], case['n'], case['plies']
    turn = (two - one) % 180
    small = min(turn, 180 - turn)
    expect(mod.calc_delta_angle(one, two) == small, 'angle between plies at '
           '%d and %d degrees: %s', one, two, mod.calc_delta_angle(one, two))
    expect(mod.calc_delta_angle_2(one, two) == (
        turn if turn <= 90 else turn - 180), 'rotation from %d to %d degrees:'
           ' %s', one, two, mod.calc_delta_angle_2(one, two))
    # depth from the closest surface
    depth = [min(k, n - 1 - k) for k in (i, j)]
    expect_close(mod.calc_distanciation(i, n), (n - 2*depth[0])/n, 1e-12,
                 'distance of ply %d of %d from the middle', i, n)
    apart = 2*abs(depth[0] - depth[1])/n
    expect_close(mod.calc_distanciation(i, n, j), apart, 1e-12,
                 'distance of the plies %d and %d of %d', i, j, n)
    coef = [.25, .5, 2]
    expect_close(mod.objective_repair(small, i, j, n, 3, *coef),
                 -.75 + .5*small/180 + 2*apart, 1e-12, 'measure of the change '
                 'of the plies %d and %d of %d', i, j, n)
    ctx.nontrivial(abs(two - one) > 90 or max(i, j) >= n/2)


SUBS = [
    Sub('display', displays(), check_display, 1500, 40000,
        rule='several lines of plies or columns of values'),
    Sub('rotations', rotations(), check_rotations, 1500, 40000,
        rule='angles more than 90 degrees apart, or plies of the upper half'),
    Sub('workbook', histories(), check_workbook, 120, 4000,
        rule='a table is added to an existing sheet'),
    Sub('overwrite', overwrites(), check_overwrite, 150, 1000,
        rule='a file exists and the user refuses'),
    Sub('sort', sortings(), check_sort, 1500, 40000,
        rule='two values of the order are present'),
    Sub('maximum', pairs_of_arrays(), check_max, 1500, 40000,
        rule='maxima come from both arrays'),
    Sub('subsets', sums(), check_sums, 1000, 20000,
        rule='several solutions'),
]
