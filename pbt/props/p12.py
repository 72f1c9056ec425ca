"""P12 partition of laminates into groups of plies"""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import gen, structures
from pbt.core import Sub, expect


@st.composite
def case_(draw):
    sym = draw(st.booleans())
    lo, hi = draw(st.sampled_from([(8, 40), (8, 40), (8, 40), (20, 100), (8, 16), (4, 8),
                                  (120, 400)]))
    data = draw(structures.panel_graphs(
        sym, 1, draw(st.sampled_from([5, 5, 5, 10])), lo=lo, hi=hi, odd=draw(st.booleans()), weights=False))
    gmin = draw(st.integers(1, 10))
    return dict(data=data, sym=sym, covering=draw(st.sampled_from([0, 1, 2])),
                gmin=gmin, gmax=gmin + draw(st.sampled_from(
                    [0, 1, 1, 2, 3, 4, 8])))


def total_of(n, sym, covering):
    n -= 2*covering
    return n//2 if sym else n


def feasible(h, gmin, gmax):
    return h > 0 and math.ceil(h/gmax) <= h//gmin


def shares(total, drops, sizes):
    return [drops*s/total for s in sizes]


def check(case, ctx):
    from src.BELLA.divide_panels import divide_panels, PartitioningError
    from src.BELLA.parameters import Parameters
    sym, cov = case['sym'], case['covering']
    gmin, gmax = case['gmin'], case['gmax']
    con = gen.build_constraints(dict(
        sym=sym, set_of_angles=gen.BASE, covering=cov > 0, n_covering=cov), noise=case.get('noise', 0))
    plies = [p['n_plies'] for p in case['data']['panels']]
    odd = [p for p in plies if p % 2]
    if sym and odd and any(p > min(odd) and p % 2 == 0 for p in plies):
        return  # the middle ply would vanish
    h = total_of(max(plies), sym, cov)
    mp = structures.build(case['data'], con)
    par = Parameters(con, group_size_min=gmin, group_size_max=gmax)
    mp.from_mp_to_blending_strip(con)
    ok = feasible(h, gmin, gmax)
    try:
        divide_panels(mp, par, con)
    except PartitioningError:
        expect(not ok, '%d plies can be divided into groups of %d to %d', h,
               gmin, gmax)
        ctx.label('impossible')
        ctx.nontrivial()
        return
    red = mp.reduced
    sizes = [int(x) for x in red.n_plies_per_group]
    expect(ok, '%d plies cannot be divided into groups of %d to %d but %s',
           h, gmin, gmax, sizes)
    expect(sum(sizes) == h and all(gmin <= s <= gmax for s in sizes),
           'groups %s of %d plies, sizes allowed: %d to %d', sizes, h, gmin,
           gmax)
    expect(len(sizes) == red.n_groups == math.ceil(h/gmax),
           '%d groups for %d plies and a maximum of %d', red.n_groups, h, gmax)
    expect(sizes == sorted(sizes), 'larger groups are not last: %s', sizes)
    ctx.nontrivial(len(sizes) > 1 and len(set(plies)) > 1)
    ctx.label('%d groups' % min(len(sizes), 5))
    thinner = None
    for panel in red.panels:
        per = [int(x) for x in panel.n_plies_per_group]
        drops = [float(x) for x in panel.n_ply_drops]
        total = (max(plies) - panel.n_plies)
        if sym:
            total = max(plies)//2 - panel.n_plies//2
        if total >= h:
            continue  # thinner than the covering plies
        # the plies of a panel continue in the thicker panels
        expect(thinner is None or all(a <= b for a, b in zip(thinner, per)),
               'a panel with groups of %s plies, and a thicker one of %s',
               thinner, per)
        thinner = per
        expect([s - d for s, d in zip(sizes, drops)] == per,
               'drops %s, groups %s and %s', drops, sizes, per)
        # a middle ply in the thickest panel only counts as half a drop
        expect(sum(drops) == total,
               '%d ply drops distributed instead of %d (%d plies, at most %d)',
               sum(drops), total, panel.n_plies, max(plies))
        share = [total*s/h for s in sizes]
        if sym and max(plies) % 2:
            share = [x + s/(2*h) for x, s in zip(share, sizes)]
        for d, x, s in zip(drops, share, sizes):
            expect(math.floor(x + 1e-9) - 1e-9 <= d or
                   math.floor(x - 1e-9) <= d, 'drops %s for shares %s', drops,
                   share)
            expect(d <= math.floor(x + 1e-9) + 1 and d <= s,
                   'drops %s for shares %s of groups %s', drops, share, sizes)


@st.composite
def forbid_case(draw):
    lo = draw(st.integers(2, 20))
    gmin = draw(st.integers(1, 10))
    return dict(sym=draw(st.booleans()), lo=lo,
                hi=lo + draw(st.integers(0, 60)),
                covering=draw(st.sampled_from([0, 1])), gmin=gmin,
                gmax=gmin + draw(st.sampled_from([0, 1, 1, 2, 3])))


def check_forbid(case, ctx):
    from src.BELLA.divide_panels import forbidden_ply_counts
    from src.BELLA.parameters import Parameters
    con = gen.build_constraints(dict(
        sym=case['sym'], set_of_angles=gen.BASE,
        covering=case['covering'] > 0, n_covering=case['covering']), noise=case.get('noise', 0))
    con.n_plies_min, con.n_plies_max = case['lo'], case['hi']
    par = Parameters(con, group_size_min=case['gmin'],
                     group_size_max=case['gmax'])
    got = [int(x) for x in forbidden_ply_counts(con, par)]
    want = [n for n in range(case['lo'], case['hi'] + 1)
            if not feasible(total_of(n, case['sym'], case['covering']),
                            case['gmin'], case['gmax'])]
    expect(got == want, 'impossible ply counts %s, expected %s', got, want)
    ctx.nontrivial(0 < len(want) < case['hi'] - case['lo'] + 1)


@st.composite
def layla_case(draw):
    gmin = draw(st.integers(1, 10))
    return dict(sym=draw(st.booleans()), n=draw(gen.size(1, 120, 600)),
                gmin=gmin, gmax=[gmin + k for k in draw(st.lists(
                    st.integers(0, 6), min_size=1, max_size=3))],
                scalar=draw(st.booleans()))


def check_layla(case, ctx):
    from src.LAYLA_V02 import divide_laminate_asym, divide_laminate_sym
    from src.LAYLA_V02.constraints import Constraints
    from src.LAYLA_V02.parameters import Parameters
    from src.LAYLA_V02.targets import Targets
    sym, n, gmin = case['sym'], case['n'], case['gmin']
    mod = divide_laminate_sym if sym else divide_laminate_asym
    fn = getattr(mod, 'divide_laminate_' + ('sym' if sym else 'asym'))
    con = gen.build_constraints(dict(sym=sym, set_of_angles=gen.BASE,
                                     contig=True, n_contig=2), Constraints, noise=case.get('noise', 0))
    if gmin < 2:
        con = gen.build_constraints(
            dict(sym=sym, set_of_angles=gen.BASE), Constraints, noise=case.get('noise', 0))
        con.n_contig = 1
    gmaxs = list(case['gmax'])
    if case['scalar']:
        gmaxs = [gmaxs[0]]*len(gmaxs)
    par = Parameters(
        con, n_outer_step=len(gmaxs), group_size_min=gmin,
        group_size_max=gmaxs[0] if case['scalar'] else np.array(gmaxs))
    target = Targets(n_plies=n)
    h = n//2 if sym else n
    for step, gmax in enumerate(gmaxs):
        ok = feasible(h, gmin, gmax)
        try:
            sizes, first, n_groups = fn(par, target, step)
        except mod.PartitioningError:
            expect(not ok, '%d plies can be divided into groups of %d to %d',
                   h, gmin, gmax)
            ctx.label('impossible')
            continue
        expect(ok, '%d plies cannot be divided into groups of %d to %d', h,
               gmin, gmax)
        sizes = [int(x) for x in sizes]
        first = [int(x) for x in first]
        expect(len(sizes) == len(first) == n_groups == math.ceil(h/gmax),
               '%d groups for %d plies and a maximum of %d', n_groups, h, gmax)
        expect(sum(sizes) == (n + 1)//2 if sym else sum(sizes) == n,
               'groups %s of a laminate of %d plies', sizes, n)
        middle = list(sizes)
        if sym and n % 2:
            middle[-1] -= 1  # the middle ply belongs to the last group
        expect(all(gmin <= s <= gmax for s in middle)
               and middle == sorted(middle),
               'groups %s, sizes allowed: %d to %d', sizes, gmin, gmax)
        # the groups tile the laminate, from the outside towards the inside
        where = [list(range(f, f + s)) for f, s in zip(first, sizes)]
        flat = sorted(x for w in where for x in w)
        expect(flat == list(range(sum(sizes))),
               'groups starting at %s of sizes %s', first, sizes)
        if sym:
            expect(first == sorted(first), 'order of the groups %s', first)
        else:
            bottom, top = first[0::2], first[1::2]
            expect(bottom == sorted(bottom)
                   and top == sorted(top, reverse=True)
                   and (not top or bottom[-1] < top[-1]),
                   'groups alternate between the bottom and the top: %s',
                   first)
        ctx.nontrivial(n_groups > 1)


SUBS = [
    Sub('panels', gen.noisy(case_()), check, 4000, 60000,
        rule='several groups and thicknesses, or an impossible partition'),
    Sub('forbidden', gen.noisy(forbid_case()), check_forbid, 1500, 15000,
        rule='some ply counts possible and some not'),
    Sub('layla', gen.noisy(layla_case()), check_layla, 4000, 60000,
        rule='more than one group of plies')]
