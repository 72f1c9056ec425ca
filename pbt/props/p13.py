"""P13 ply order, moments of areas and partial lamination parameters"""
import numpy as np
from hypothesis import strategies as st
from pbt import cla_stub, gen, structures
from pbt.core import Sub, expect, expect_close


@st.composite
def case_(draw):
    sym = draw(st.booleans())
    angles = draw(gen.angle_sets())
    data = draw(structures.panel_graphs(
        sym, 1, draw(st.sampled_from([4, 4, 4, 8])), lo=2,
        hi=draw(st.sampled_from([30, 30, 30, 80])), odd=draw(st.booleans()),
        weights=False))
    most = max(p['n_plies'] for p in data['panels'])
    half = (most + 1)//2 if sym else most
    guide = draw(st.lists(st.sampled_from(angles), min_size=half,
                          max_size=half))
    return dict(sym=sym, angles=angles, data=data, guide=guide,
                pick=draw(st.lists(st.integers(0, 1000), min_size=4,
                                   max_size=4)))


def full_stack(half, n, sym):
    return list(half[:n]) if not sym else \
        list(half[:n//2]) + list(half[n//2:(n + 1)//2]) \
        + list(half[:n//2])[::-1]


def thirds(n, k):
    "area, first moment and second moment of ply k among n, over the laminate"
    z0, z1 = 2*k/n - 1, 2*(k + 1)/n - 1
    if z0*z1 < 0:
        plus = [abs(z0)**p + abs(z1)**p for p in (1, 2, 3)]
    else:
        plus = [abs(z1**p - z0**p) for p in (1, 2, 3)]
    return ([(z1**p - z0**p)/2 for p in (1, 2, 3)], [x/2 for x in plus])


def check(case, ctx):
    from src.BELLA.ply_order import calc_ply_order
    from src.BELLA.moments_of_areas import calc_mom_of_areas
    from src.BELLA.lampam_matrix import calc_delta_lampams
    sym = case['sym']
    con = gen.build_constraints(dict(sym=sym, set_of_angles=case['angles']), noise=case.get('noise', 0))
    plies = [p['n_plies'] for p in case['data']['panels']]
    odd = [p for p in plies if p % 2]
    if sym and odd and any(p > min(odd) and p % 2 == 0 for p in plies):
        return
    mp = structures.build(case['data'], con)
    mp.from_mp_to_blending_strip(con)
    uniq = sorted(set(plies))
    order = calc_ply_order(mp, con)
    plus, mom = calc_mom_of_areas(mp, con, order)
    delta = calc_delta_lampams(mp, con, mom, order)
    expect(len(order) == len(plus) == len(mom) == len(delta) == len(uniq),
           'one entry per panel of the strip')
    ctx.nontrivial(len(uniq) > 1 and len(set(case['guide'])) > 1)
    for ind, n in enumerate(uniq):
        o = [int(x) for x in order[ind]]
        half = (n + 1)//2
        if sym:
            expect(o == list(range(half)), 'order of %d plies: %s', n, o)
        else:
            want = [None]*n
            want[0::2] = range(half)
            want[1::2] = range(n - 1, half - 1, -1)
            expect(o == want, 'order of %d plies: %s', n, o)
        for row, k in enumerate(o):
            signed, absolute = thirds(n, k)
            if sym:
                # a ply and its mirror image, and half of a middle ply twice
                full = 2 if 2*k + 1 != n else 1
                signed = [full*signed[0], 0, full*signed[2]]
                absolute = [full*x for x in absolute]
            expect_close(mom[ind][row], signed, 1e-9,
                         'moments of ply %d of %d (sym %s)', k, n, sym)
            expect_close(plus[ind][row], absolute, 1e-9,
                         'absolute moments of ply %d of %d (sym %s)', k, n,
                         sym)
        expect_close(np.sum(plus[ind], 0), [1, 1, 1], 1e-9,
                     'total of the absolute moments of %d plies', n)
        # lamination parameters are the sum of the contributions of the plies
        stack = full_stack(case['guide'], n, sym)
        total = np.zeros(12)
        for row, k in enumerate(o):
            total += delta[ind][row, con.ind_angles_dict[stack[k]]]
        expect_close(total, cla_stub.lampam_of(stack), 1e-9,
                     'lamination parameters of %s from its plies', stack)
    if len(uniq) < 2:
        return
    # ply-drop layouts
    from src.BELLA.moments_of_areas import calc_mom_of_areas2
    from src.BELLA.lampam_matrix import calc_delta_lampams2
    size = (lambda n: (n + 1)//2) if sym else (lambda n: n)
    width = size(max(uniq))
    rng = np.random.RandomState(case['pick'][0])
    pdl = -np.ones((len(uniq), width), int)
    keep = list(range(width))
    for ind in range(len(uniq) - 1, -1, -1):
        while len(keep) > size(uniq[ind]):
            del keep[rng.randint(len(keep))]
        for rank, col in enumerate(keep):
            pdl[ind, col] = rank
    cum = calc_mom_of_areas2(mp, con, plus, pdl, width)
    mat = calc_delta_lampams2(mp, con, delta, pdl, width)
    ctx.label('layout')
    todo = list(range(width)) if sym else [None]*width
    if not sym:
        todo[0::2] = range((width + 1)//2)
        todo[1::2] = range(width - 1, (width + 1)//2 - 1, -1)
    for ind in range(len(uniq)):
        row = {int(k): r for r, k in enumerate(order[ind])}
        acc = np.zeros(3)
        for level, col in enumerate(todo):
            want = np.zeros((len(case['angles']), 12))
            if pdl[ind, col] != -1:
                acc = acc + plus[ind][row[pdl[ind, col]]]
                want = delta[ind][row[pdl[ind, col]]]
            expect_close([c[ind, level] for c in cum], acc, 1e-9,
                         'cumulative moments of panel %d, level %d', ind,
                         level)
            expect_close(mat[ind, :, col], want, 1e-9,
                         'partial lamination parameters of panel %d, ply %d',
                         ind, col)


@st.composite
def layla_case(draw):
    n = draw(st.integers(2, 40))
    sym = draw(st.booleans())
    count = (n + 1)//2 if sym else n
    sizes = []
    while sum(sizes) < count:
        sizes.append(min(draw(st.integers(1, 8)), count - sum(sizes)))
    return dict(sym=sym, n=n, sizes=sizes)


def check_layla(case, ctx):
    from src.LAYLA_V02.constraints import Constraints
    from src.LAYLA_V02.targets import Targets
    from src.LAYLA_V02.ply_order import calc_ply_order, calc_levels
    from src.LAYLA_V02.moment_of_areas import calc_mom_of_areas
    sym, n, sizes = case['sym'], case['n'], case['sizes']
    con = gen.build_constraints(dict(sym=sym, set_of_angles=gen.BASE),
                                Constraints, noise=case.get('noise', 0))
    target = Targets(n_plies=n)
    order = calc_ply_order(con, target)
    o = [int(x) for x in order]
    half = (n + 1)//2
    if sym:
        expect(o == list(range(half)), 'order of %d plies: %s', n, o)
    else:
        want = [None]*n
        want[0::2] = range(half)
        want[1::2] = range(n - 1, half - 1, -1)
        expect(o == want, 'order of %d plies: %s', n, o)
    levels = calc_levels(order, np.array(sizes), len(sizes))
    ends = np.cumsum([0] + sizes)
    expect([[int(x) for x in lev] for lev in levels]
           == [o[a:b] for a, b in zip(ends, ends[1:])],
           'plies of the groups %s: %s', sizes, levels)
    mom, cumul, group = calc_mom_of_areas(con, target, order, np.array(sizes))
    ctx.nontrivial(len(sizes) > 1)
    each = []
    for row, k in enumerate(o):
        signed, absolute = thirds(n, k)
        if sym:
            # lower half of the laminate only
            full = 2 if 2*k + 1 != n else 1
            signed = [full*x for x in signed]
            if full == 1:
                signed[1] = absolute[1]
                signed[1] = -absolute[1]
            absolute = [full*x for x in absolute]
            expect_close(np.abs(mom[row]), np.abs(signed), 1e-9,
                         'moments of ply %d of %d', k, n)
            expect_close(mom[row][[0, 2]], [signed[0], signed[2]], 1e-9,
                         'moments of ply %d of %d', k, n)
        else:
            expect_close(mom[row], signed, 1e-9,
                         'moments of ply %d of %d', k, n)
        each.append(absolute)
    each = np.array(each)
    expect_close(cumul, np.cumsum(each, 0), 1e-9, 'cumulative moments')
    expect_close(group, [each[a:b].sum(0) for a, b in zip(ends, ends[1:])],
                 1e-9, 'moments of the groups %s', sizes)
    expect_close(group.sum(0), [1, 1, 1], 1e-9, 'total moments')


SUBS = [
    Sub('panels', gen.noisy(case_()), check, 1600, 25000,
        rule='at least two thicknesses and two fibre orientations'),
    Sub('layla', gen.noisy(layla_case()), check_layla, 3000, 40000,
        rule='more than one group of plies')]
