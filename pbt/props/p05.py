"""P05 10% rule, on ply percentages and on lamination parameters"""
import math
import numpy as np
from fractions import Fraction as F
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect, expect_close


@st.composite
def stack_case(draw):
    pc = draw(gen.percents(draw(st.sampled_from(
        ['combined', 'separate', 'combined', 'separate', 'off', 'abdalla']))))
    angles = draw(gen.angle_sets(base=True, max_extra=1))
    sym = draw(st.booleans())
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 9, 10, 10, 11, 12, 16, 20, 20,
                              25, 30, 40]))
    stack = draw(gen.stacks(angles, n, n))
    limits = ref.percent_limits(pc)
    if limits is not None and draw(st.sampled_from([True, True, False])):
        # ply counts at the limits, possibly one ply short
        lack = draw(st.sampled_from(['none', 'none', 0, 45, 90, -45]))
        m = n//2 if sym else n
        plies = []
        for a in (0, 45, 90, -45):
            k = math.ceil(limits[a]*(n//2*2 if sym else n)/(2 if sym else 1))
            plies += [a]*max(0, k - (lack == a))
        while plies.count(45) + plies.count(-45) < limits['both']*m \
                - (lack in (45, -45)):
            plies.append(draw(st.sampled_from([45, -45])))
        while len(plies) < m:
            plies.append(draw(st.sampled_from(angles)))
        stack = draw(st.permutations(plies[:m]))
        stack += [draw(st.sampled_from(angles)) for _ in range(n - len(stack))]
    if sym:
        half = stack[:n//2]
        stack = half + ([draw(st.sampled_from(angles))] if n % 2 else []) \
            + half[::-1]
    n_half = n//2 if sym else n
    hidden = draw(st.lists(st.integers(0, max(0, n_half - 1)), unique=True,
                           max_size=n_half)) if n_half else []
    return dict(angles=angles, pc=pc, sym=sym, stack=stack, hidden=hidden,
                area=draw(gen.coef(0, 2)), eq45=draw(st.booleans()),
                eq0=draw(st.booleans()))


def counts_of(stack, con):
    out = np.zeros(con.n_set_of_angles)
    for a in stack:
        out[con.ind_angles_dict[a]] += 1
    return out


def want_equal(stack, limits, eq45, eq0):
    "the 10% rule with +45/-45 or 0/90 not differentiated"
    if limits is None:
        return True
    n = len(stack)
    f = {a: F(stack.count(a), n) for a in (0, 90, 45, -45)}
    both = f[45] + f[-45]
    ok = both >= limits['both']
    if eq0:
        ok = ok and f[0] + f[90] >= limits[0] + limits[90]
    else:
        ok = ok and f[0] >= limits[0] and f[90] >= limits[90]
    if eq45:
        ok = ok and both >= limits[45] + limits[-45]
    else:
        ok = ok and f[45] >= limits[45] and f[-45] >= limits[-45]
    return ok


def check_stack(case, ctx):
    from src.guidelines import ten_percent_rule as mod
    kw = dict(sym=case['sym'], set_of_angles=case['angles'])
    kw.update(case['pc'])
    con = gen.build_constraints(kw, noise=case.get('noise', 0))
    limits = ref.percent_limits(kw)
    stack = case['stack']
    short = ref.shortfalls(ref.count(stack), len(stack), limits)
    ok = not any(short)
    pen = float(sum(short))
    ctx.nontrivial(limits is not None and len(stack) > 2
                   and any(limits.values()))
    ctx.label(('ok' if ok else 'broken') if limits is not None else 'off')
    arr = gen.ints(stack)
    expect(bool(mod.is_ten_percent_rule(con, stack=arr)) == ok,
           '10%% rule %s of %s: answered %s', case['pc'], stack, not ok)
    # partial stacks: unknown plies 666, their orientations in the ply queue
    part = list(stack)
    queue = []
    for i in case['hidden']:
        queue.append(stack[i])
        part[i] = 666
        if case['sym']:
            part[len(stack) - 1 - i] = 666
    got = mod.is_ten_percent_rule(con, stack=gen.ints(part), ply_queue=queue)
    expect(bool(got) == ok, '10%% rule %s of partial stack %s with queue %s:'
           ' answered %s', case['pc'], part, queue, not ok)
    got = mod.is_ten_percent_rule(
        con, stack=gen.ints(part), ply_queue=queue,
        equality_45_135=case['eq45'], equality_0_90=case['eq0'])
    want = want_equal(stack, limits, case['eq45'], case['eq0'])
    expect(bool(got) == want, '10%% rule %s (equalities %s %s) of %s: %s',
           case['pc'], case['eq45'], case['eq0'], stack, got)
    counts = counts_of(stack, con)
    got = mod.is_ten_percent_rule(con, n_plies_per_angle=counts)
    expect(bool(got) == ok, '10%% rule %s of ply counts %s: answered %s',
           case['pc'], counts.tolist(), not ok)
    # penalties
    tol = 1e-12
    expect_close(mod.calc_penalty_10_ss(arr, con), pen, tol,
                 '10%% penalty of %s', stack)
    expect_close(mod.calc_penalty_10_ss(stack, con), pen, tol,
                 '10%% penalty of the list %s', stack)
    many = [arr, gen.ints([0, 45, 90, -45]), arr[::-1]]
    pen4 = ref.ten_percent_penalty([0, 45, 90, -45], limits)
    expect_close(mod.calc_penalty_10_ss(many, con, mp=True),
                 [pen, pen4, pen], tol, '10%% penalties of several stacks')
    area = case['area']
    expect_close(mod.calc_penalty_10_pc(counts, con, area), area*pen, tol,
                 '10%% penalty of ply counts %s', counts.tolist())
    two = np.array([counts, 0*counts, 3*counts])
    expect_close(mod.calc_penalty_10_pc(two, con, area),
                 [area*pen, 0, area*pen], tol, '10%% penalties of counts')
    expect_close(mod.calc_penalty_10_pc(0*counts, con, area), 0, 0,
                 '10%% penalty without plies')
    # ply counting
    class MP:
        class reduced:
            n_panels = 2
    got = mod.calc_ply_counts(MP, [stack, stack + [0]], con)
    expect_close(got, [counts, counts_of(stack + [0], con)], 0,
                 'ply counts of %s', stack)


@st.composite
def count_case(draw):
    return dict(angles=draw(gen.angle_sets(base=True, max_extra=1)),
                rows=draw(st.lists(
                    st.lists(st.integers(0, 9), min_size=4, max_size=4),
                    min_size=1, max_size=3)),
                n1=draw(st.integers(1, 6)), middle=draw(st.integers(0, 1)),
                two=draw(st.booleans()))


def check_counting(case, ctx):
    from src.guidelines.ten_percent_rule import calc_n_plies_per_angle
    con = gen.build_constraints(dict(sym=True, set_of_angles=case['angles']), noise=case.get('noise', 0))
    na = len(case['angles'])
    rows = [[case['angles'][k % na] for k in r] for r in case['rows']]
    ini = np.arange(na, dtype=float)
    args = [gen.ints(rows)] + ([gen.ints(rows)] if case['two'] else [])
    got = calc_n_plies_per_angle(ini, con, case['middle'], *args)
    want = []
    for r in rows:
        c = ini + counts_of(r, con)*(2 if case['two'] else 1)
        if case['middle']:
            c[con.ind_angles_dict[r[-1]]] -= 0.5
        want.append(c)
    ctx.nontrivial(len(rows) > 1)
    expect_close(got, want, 0, 'ply counts of the groups %s', rows)
    expect_close(ini, np.arange(na), 0, 'initial counts modified')


@st.composite
def abdalla_case(draw):
    kind = draw(st.sampled_from(['point', 'point', 'near', 'stack']))
    return dict(p=draw(st.sampled_from([0, 2, 5, 10, 15, 20, 22.5])),
                kind=kind, x=draw(gen.coef()), y=draw(gen.coef()),
                off=draw(st.sampled_from([0.05, 0.01, 0.001, -0.001, -0.01])),
                stack=draw(gen.stacks(gen.BASE, 4, 20)))


def region_distance(x, y, p):
    """distance to {2 x^2/w - w <= y <= w}, w = 1 - 4p, by dense sampling and
    local refinement of the boundary"""
    w = 1 - 4*p
    if w*w + w*y - 2*x*x >= 0 and y <= w:
        return 0.
    best = None
    for f in (lambda t: (t, 2*t*t/w - w), lambda t: (t, w)):
        lo, hi = -w, w
        for _ in range(4):
            ts = np.linspace(lo, hi, 401)
            px, py = f(ts)
            d = np.hypot(px - x, py - y + 0*ts)
            k = int(np.argmin(d))
            step = (hi - lo)/400
            lo, hi = max(-w, ts[k] - 2*step), min(w, ts[k] + 2*step)
        best = d.min() if best is None else min(best, d.min())
    return float(best)


def check_abdalla(case, ctx):
    from src.guidelines import ten_percent_rule as mod
    from pbt.cla_stub import lampam_of
    p = case['p']/100
    w = 1 - 4*p
    con = gen.build_constraints(dict(
        sym=True, rule_10_percent=True, rule_10_Abdalla=True,
        percent_Abdalla=case['p'], set_of_angles=gen.BASE), noise=case.get('noise', 0))
    if case['kind'] == 'stack':
        lps = lampam_of(case['stack'])
    else:
        x, y = case['x'], case['y']
        if case['kind'] == 'near':
            x = x*w
            y = (w if case['y'] > 0 else 2*x*x/w - w) + case['off']
        lps = np.array([x, y] + [0.]*10)
    x, y = lps[:2]
    want = region_distance(x, y, p)
    margin = min(w*w + w*y - 2*x*x, w - y)
    ctx.nontrivial(abs(margin) < 0.3)
    ctx.label('inside' if want == 0 else 'outside')
    # any stack with at least p of each of the four orientations is inside
    if case['kind'] == 'stack':
        limits = {0: F(case['p'])/100, 90: F(case['p'])/100,
                  45: F(case['p'])/100, -45: F(case['p'])/100, 'both': F(0)}
        if ref.ten_percent_ok(case['stack'], limits):
            expect(mod.is_ten_percent_rule(con, LPs=lps), 'stack %s has %s%% '
                   'of each orientation but is reported to break the rule',
                   case['stack'], case['p'])
    if abs(margin) > 1e-9:
        got = mod.is_ten_percent_rule(con, LPs=lps)
        expect(bool(got) == (margin > 0), 'lamination parameters %s, limit %s:'
               ' answered %s', [x, y], p, got)
        dist = mod.calc_penalty_10_ss(None, con, LPs=lps)
        expect(dist is not None and abs(dist - want) <= 5e-4,
               'distance of %s to the region of the 10%% rule (limit %s): '
               'got %s, expected %s', [x, y], p, dist, want)
        dist = mod.calc_penalty_10_ss(
            [None, None], con, LPs=np.array([lps, np.zeros(12)]), mp=True)
        expect_close(dist, [want, 0], 5e-4, 'distances of several laminates')


SUBS = [
    Sub('stack', gen.noisy(stack_case()), check_stack, 6000, 150000,
        rule='a non-zero percentage limit and more than two plies'),
    Sub('counting', gen.noisy(count_case()), check_counting, 800, 8000,
        rule='several groups'),
    Sub('abdalla', gen.noisy(abdalla_case()), check_abdalla, 640, 12000,
        rule='within 0.3 of the boundary of the region')]
