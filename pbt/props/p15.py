"""P15 generation of initial ply-drop layouts"""
import contextlib
import importlib
import random
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, standin, structures
from pbt.core import Sub, expect, expect_close


class Clock:
    "deterministic clock, in place of the time module: dt seconds per reading"

    def __init__(self, dt):
        self.now, self.dt = 0., dt

    def __call__(self):
        self.now += self.dt
        return self.now
    time = perf_counter = monotonic = process_time = __call__

    def sleep(self, _):
        pass


@contextlib.contextmanager
def clocks(**dts):
    with contextlib.ExitStack() as stack:
        for name, dt in dts.items():
            mod = importlib.import_module('src.BELLA.' + name)
            stack.enter_context(standin.clock(Clock(dt), [mod]))
        yield


@st.composite
def case_(draw, wide=False):
    sym = draw(st.sampled_from([True, True, False]))
    cov = draw(st.sampled_from([0, 1, 1, 2]))
    odd = sym and draw(st.sampled_from([False, False, True]))
    lo = 2*cov + 4
    data = draw(structures.panel_graphs(
        sym, 1, draw(st.sampled_from([4, 4, 4, 4, 4, 7])), lo=lo,
        hi=draw(st.sampled_from([20, 40, 20, 40, 20, 40, 70])), weights=True))
    if odd:
        # middle plies in all panels, or in the thickest ones only
        counts = sorted(p['n_plies'] for p in data['panels'])
        least = draw(st.sampled_from([counts[0], *counts]))
        for p in data['panels']:
            p['n_plies'] += p['n_plies'] >= least
    return dict(sym=sym, cov=cov, data=data, gmin=draw(st.integers(1, 6)),
                gmax=draw(st.integers(6, 14)),
                ref=draw(st.sampled_from([1, 1, 12, 100])),
                min_drop=draw(st.sampled_from([1, 2, 2, 3])),
                spacing=draw(st.sampled_from([True, True, False])),
                n_ini=draw(st.integers(1, 4)),
                seed=draw(st.integers(0, 10**6)))


def set_up(case):
    from src.BELLA.divide_panels import divide_panels, PartitioningError
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.parameters import Parameters
    con = gen.build_constraints(dict(
        sym=case['sym'], set_of_angles=gen.BASE, covering=case['cov'] > 0,
        n_covering=case['cov'], pdl_spacing=case['spacing'],
        min_drop=case['min_drop']), noise=case.get('noise', 0))
    mp = structures.build(case['data'], con)
    par = Parameters(con, group_size_min=case['gmin'],
                     group_size_max=case['gmax'],
                     n_ini_ply_drops=case['n_ini'],
                     time_limit_all_pdls=1, time_limit_group_pdl=1)
    mp.from_mp_to_blending_strip(con, case['ref'])
    try:
        divide_panels(mp, par, con)
    except PartitioningError:
        return None
    return con, mp, par, ObjFunction(con)


def check_layout(pdl, case, mp, what):
    plies = sorted({p['n_plies'] for p in case['data']['panels']})
    width = plies[-1]
    pdl = np.asarray(pdl)
    expect(pdl.shape == (len(plies), width), '%s of size %s for panels of %s '
           'plies', what, pdl.shape, plies)
    present = pdl != -1
    show = '\n'.join(str(r.tolist()) for r in pdl)
    expect(present.sum(1).tolist() == plies, '%s with %s plies per panel '
           'instead of %s\n%s', what, present.sum(1).tolist(), plies, show)
    c = case['cov']
    if c:
        expect(present[:, :c].all() and present[:, -c:].all(),
               '%s dropping covering plies\n%s', what, show)
    for i in range(len(plies) - 1):
        expect((present[i] <= present[i + 1]).all(), '%s where a ply of panel '
               '%d is missing in a thicker panel\n%s', what, i, show)
    for i, n in enumerate(plies):
        row = pdl[i]
        if case['sym']:
            expect((row == row[::-1]).all(), '%s not symmetric\n%s', what,
                   show)
            row = row[:(width + 1)//2]
        row = row[row != -1]
        expect((np.diff(row) > 0).all(), '%s with plies out of order\n%s',
               what, show)


def penalty_of(pdl, case, mp, con):
    "independent spacing penalty of a layout"
    if not case['spacing']:
        return 0
    total = 0
    for (i, j), w in mp.reduced.boundary_weights.items():
        both = [(a, b) for a, b in zip(pdl[i], pdl[j])
                if a != -1 or b != -1]
        thin = [a if a == -1 else b for a, b in both]
        total += w*ref.spacing_penalty(thin, case['min_drop'])
    return total


def group_drops(case, mp):
    red = mp.reduced
    return [[int(x) for x in p.n_ply_drops] for p in red.panels]


def check_one(case, ctx):
    from src.BELLA.pdl_ini import create_initial_pdl
    built = set_up(case)
    if built is None:
        ctx.label('no partition')
        return
    con, mp, par, obj = built
    random.seed(case['seed'])
    with clocks(pdl_group=0.05):
        pdl = create_initial_pdl(mp, con, par, obj)
    plies = sorted({p['n_plies'] for p in case['data']['panels']})
    ctx.nontrivial(len(plies) > 1)
    ctx.label('%d groups' % min(mp.reduced.n_groups, 4))
    check_layout(pdl, case, mp, 'layout')
    # the drops of each group are those of the division into groups
    if case['sym'] or mp.reduced.n_groups == 1:
        start = case['cov']
        for g in range(mp.reduced.n_groups):
            stop = start + int(mp.reduced.n_plies_per_group[g])
            for i in range(len(plies)):
                n = int((np.asarray(pdl)[i, start:stop] == -1).sum())
                want = int(mp.reduced.n_plies_per_group[g]
                           - mp.reduced.panels[i].n_plies_per_group[g])
                expect(n == want, 'panel %d drops %d plies in group %d '
                       'instead of %d', i, n, g, want)
            start = stop


def check_all(case, ctx):
    import src.BELLA.pdl_ini as mod
    built = set_up(case)
    if built is None:
        ctx.label('no partition')
        return
    con, mp, par, obj = built
    random.seed(case['seed'])
    seen = []
    original = mod.create_initial_pdl

    def spy(*args, **kwargs):
        out = original(*args, **kwargs)
        seen.append(np.array(out))
        return out
    mod.create_initial_pdl = spy
    try:
        with clocks(pdl_group=0.34, pdl_ini=0.05):
            pdls = mod.create_initial_pdls(mp, con, par, obj)
    finally:
        mod.create_initial_pdl = original
    pdls = [np.array(p) for p in pdls]
    expect(1 <= len(pdls) <= case['n_ini'], '%d layouts for %d asked',
           len(pdls), case['n_ini'])
    for k, pdl in enumerate(pdls):
        check_layout(pdl, case, mp, 'layout %d' % k)
    if not seen:
        return
    distinct = []
    for s in seen:
        if not any((s == d).all() for d in distinct):
            distinct.append(s)
    pens = [penalty_of(d, case, mp, con) for d in distinct]
    good = [d for d, p in zip(distinct, pens) if abs(p) < 1e-12]
    bad = sorted(p for p in pens if abs(p) >= 1e-12)
    n_good = min(case['n_ini'], len(good))
    ctx.label('%s layouts, %s' % (
        'enough' if n_good == case['n_ini'] else
        'not enough', 'with violations' if bad else 'all feasible'))
    ctx.nontrivial(len(distinct) > 1)
    got = [penalty_of(p, case, mp, con) for p in pdls]
    # layouts satisfying the spacing rule first, then those violating it least
    want = [0]*n_good + bad[:case['n_ini'] - n_good]
    if len(good) + len(bad) >= case['n_ini']:
        expect(len(pdls) == case['n_ini'], '%d layouts for %d asked, %d found',
               len(pdls), case['n_ini'], len(distinct))
        for i, p in enumerate(pdls):
            expect(not any((p == q).all() for q in pdls[:i]),
                   'layout %d repeats a previous one', i)
    expect_close(sorted(got)[:len(want)], want, 1e-9,
                 'spacing penalties of the layouts retained among %s', pens)


@st.composite
def group_(draw):
    case = draw(case_())
    return dict(case, asked=draw(st.sampled_from([1, 2, 3, 5])),
                top=draw(st.booleans()), bottom=draw(st.booleans()),
                pick=draw(st.integers(0, 9)))


def check_group(case, ctx):
    "several layouts asked for one group of plies"
    import src.BELLA.pdl_group as mod
    built = set_up(case)
    if built is None:
        ctx.label('no partition')
        return
    con, mp, par, obj = built
    g = case['pick'] % mp.reduced.n_groups
    drops = np.array(mp.calc_ply_drops(g))
    n_max = int(mp.reduced.n_plies_per_group[g])
    sides = [case['top'], case['bottom']]
    if max(drops) > n_max - sum(sides):
        sides = [False, False]
    seen = []
    real = getattr(mod, 'calc_penalty_spacing', None)

    def spy(*args, **kwargs):
        out = real(*args, **kwargs)
        seen.append(np.array(kwargs.get('pdl', args[0] if args else None)))
        return out
    if real is not None:
        mod.calc_penalty_spacing = spy
    random.seed(case['seed'])
    try:
        with clocks(pdl_group=0.05):
            got = mod.randomly_pdl_guide(
                multipanel=mp, boundaries=mp.reduced.boundaries,
                n_ply_drops=drops, n_max=n_max, parameters=par,
                obj_func_param=obj, constraints=con, n_pdl_max=case['asked'],
                covering_top=sides[0], covering_bottom=sides[1])
    finally:
        if real is not None:
            mod.calc_penalty_spacing = real
    got = [np.array(p) != -1 for p in got]
    expect(1 <= len(got) <= case['asked'], '%d layouts for %d asked',
           len(got), case['asked'])
    for present in got:
        show = present.astype(int).tolist()
        expect((present.sum(1) == n_max - drops).all(), 'layout with %s plies '
               'per panel instead of %s\n%s', present.sum(1).tolist(),
               (n_max - drops).tolist(), show)
        expect((present[:-1] <= present[1:]).all(), 'layout where a ply is '
               'missing in a thicker panel\n%s', show)
        expect(not sides[0] or present[:, 0].all(), 'first ply dropped\n%s',
               show)
        expect(not sides[1] or present[:, -1].all(), 'last ply dropped\n%s',
               show)
    distinct = []
    for s in seen:
        if not any(((s != -1) == (d != -1)).all() for d in distinct):
            distinct.append(s)
    want = sorted(penalty_of(d, case, mp, con) for d in distinct)
    pens = [penalty_of(np.where(p, 1, -1), case, mp, con) for p in got]
    for i, p in enumerate(got):
        expect(not any((p == q).all() for q in got[:i]),
               'layout %d repeats a previous one', i)
    if distinct:
        expect(len(got) == min(case['asked'], len(distinct)), '%d layouts '
               'returned, %d asked, %d found', len(got), case['asked'],
               len(distinct))
        expect_close(pens, want[:len(got)], 1e-9, 'spacing penalties of the '
                     'layouts retained among %s', want)
    ctx.nontrivial(len(distinct) > 1)
    ctx.label('%d layouts of %d' % (len(got), case['asked']))


SUBS = [
    Sub('group', gen.noisy(group_()), check_group, 1200, 20000,
        rule='at least two different layouts found'),
    Sub('one', gen.noisy(case_()), check_one, 1600, 30000,
        rule='panels of at least two thicknesses'),
    Sub('all', gen.noisy(case_()), check_all, 1200, 20000,
        rule='at least two different layouts found')]
