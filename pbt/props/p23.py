"""P23 repair of a laminate for the 10% rule and balance"""
from fractions import Fraction as F
import math
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, cla_stub, standin
from pbt.core import Sub, expect


@st.composite
def case_(draw, mode=None):
    kw = draw(gen.constraint_kwargs(
        percent_mode=mode or draw(st.sampled_from(
            ['off', 'combined', 'combined', 'separate']))))
    if kw['rule_10_percent']:
        kw['set_of_angles'] = kw['set_of_angles'] if set(gen.BASE) <= set(
            kw['set_of_angles']) else gen.BASE
    n = draw(st.integers(4, 40 if mode is None else 24))
    if kw['sym']:
        half = draw(gen.stacks(kw['set_of_angles'], n//2, n//2))
        mid = [draw(st.sampled_from(kw['set_of_angles']))] if n % 2 else []
        stack = half + mid + half[::-1]
    else:
        stack = draw(gen.stacks(kw['set_of_angles'], n, n))
    return dict(kw=kw, stack=stack)


def required(kw, n):
    """least plies of a laminate of n plies at 0, 90, 45, -45 and +-45"""
    lim = ref.percent_limits(kw)
    if lim is None:
        return {k: F(0) for k in (0, 90, 45, -45, 'both')}
    return {k: lim[k]*n for k in (0, 90, 45, -45, 'both')}


def up(x, step=1):
    return step*math.ceil(F(x)/step)


def missing(kept, room, kw, n, unit):
    """fewest additional plies (in `unit`s of plies) for the outer plies kept
    to become a feasible laminate; room: not used for the count"""
    need = required(kw, n)
    c = ref.count(kept)
    lack = {a: max(0, up(need[a]/unit) - c.get(a, 0)) for a in (0, 90)}
    pm = {a: max(c.get(a, 0), up(need[a]/unit)) for a in (45, -45)}
    if kw['bal']:
        top = max(pm.values())
        top = max(top, up(need['both']/unit/2))
        pm = {45: top, -45: top}
    else:
        short = up(need['both']/unit) - pm[45] - pm[-45]
        pm[45] += max(0, short)
    total = sum(lack.values()) + sum(pm[a] - c.get(a, 0) for a in pm)
    if kw['bal']:
        total += sum(abs(c.get(a, 0) - c.get(-a, 0)) for a in
                     {abs(p) for p in kept} - {0, 90, 45})
    return total


def outer_first(n, sym):
    if sym:
        return list(range(n//2))
    order = []
    lo, hi = 0, n - 1
    while lo <= hi:
        order.append(hi)
        if lo < hi:
            order.append(lo)
        lo, hi = lo + 1, hi - 1
    return order


def complete(ss, queue, sym):
    "multiset of plies of the laminate described by outer plies and a queue"
    plies = [int(a) for a in ss if a != 666]
    return plies + [int(a) for a in queue]*(2 if sym else 1)


def basic(ss, queue, case, ctx):
    kw, stack = case['kw'], case['stack']
    n, sym = len(stack), kw['sym']
    ss = [int(a) for a in ss]
    plies = complete(ss, queue, sym)
    expect(len(ss) == n and len(plies) == n,
           '%d plies %s with the queue %s for a laminate of %d plies', len(ss),
           ss, queue, n)
    expect(set(plies) <= set(kw['set_of_angles']), 'orientations %s not '
           'allowed', sorted(set(plies) - set(kw['set_of_angles'])))
    if sym:
        expect(ss == ss[::-1], '%s is not symmetric', ss)
    if kw['bal']:
        expect(ref.imbalance(plies) == 0, 'not balanced: %s with %s', ss,
               queue)
    return ss, plies


def check(case, ctx):
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    kw, stack = case['kw'], case['stack']
    n, sym = len(stack), kw['sym']
    con = gen.build_constraints(kw)
    unit = 2 if sym else 1
    order = outer_first(n, sym)
    if missing([], 0, kw, n, unit) > n//unit:
        return  # no feasible laminate
    if sym and n % 2 and kw['rule_10_percent']:
        # the middle ply is not counted on
        if missing([], 0, kw, n + 1, unit) > n//2:
            return
    mini = calc_mini_10(con, n)
    ss, queue = repair_10_bal(gen.ints(stack), mini, con)
    ss, plies = basic(ss, queue, case, ctx)
    limits = ref.percent_limits(kw)
    expect(ref.ten_percent_ok(plies, limits), '10%% rule not satisfied by %s '
           'with the queue %s (from %s)', ss, queue, stack)
    kept = [i for i in order if ss[i] != 666]
    expect(kept == order[:len(kept)], 'inner plies kept before outer ones: %s',
           ss)
    for i in kept:
        expect(ss[i] == stack[i], 'outer ply %d changed: %s to %s', i, stack,
               ss)
    if not (sym and n % 2):
        best = 0
        while best < len(order):
            part = [stack[i] for i in order[:best + 1]]
            if missing(part, 0, kw, n, unit) > len(order) - best - 1:
                break
            best += 1
        if kw['bal'] or kw['rule_10_percent']:
            expect(len(kept) == best, '%d outer plies of %s kept instead of %d:'
                   ' %s with %s', len(kept), stack, best, ss, queue)
    ctx.nontrivial(0 < len(kept) < len(order))
    ctx.label('%s%s' % ('sym' if sym else 'asym', ' bal' if kw['bal'] else ''))


def distance(LPs, constraints, num=10000):
    "the distance of ten_percent_rule_Abdalla (see the sub-check distance), vectorised"
    r = 1 - 4*constraints.percent_Abdalla
    x, y = float(LPs[0]), float(LPs[1])
    if r*r + r*y - 2*x*x + 1e-15 > 0 and r - y + 1e-15 > 0:
        return 0
    t = np.linspace(-r, r, num)
    return math.sqrt(min(
        float(np.min((x - t)**2 + (y - 2*t*t/r + r)**2)),
        float(np.min((x - t)**2 + (y - r)**2))))


def check_abdalla(case, ctx):
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    with standin.abdalla(distance):
        run_abdalla(case, ctx, repair_10_bal, calc_mini_10)


def stuck(case, con, ss, queue, plies):
    "the repair is a descent: it only stops where no change brings it closer"
    kw, n = case['kw'], len(ss)
    sym = kw['sym']
    unit = 2 if sym else 1
    hold = 0 if not kw['dam_tol'] else 1 if kw['dam_tol_rule'] == 1 else 2
    free = queue + [ss[i] for i in (range(n//2) if sym else range(n))
                    if min(i, n - 1 - i) >= hold and ss[i] != 666]

    def far(now):
        return distance(np.mean(cla_stub.trig(now), axis=0), con)

    def closer(now, free, moves):
        start = far(now)
        for old, new in moves:
            if all(free.count(a) >= old.count(a) for a in old):
                other = list(now)
                for a in old*unit:
                    other.remove(a)
                if far(other + new*unit) < start - 1e-7:
                    return '%s to %s' % (old, new)
        return None

    angles = kw['set_of_angles']
    if not kw['bal']:
        better = closer(plies, free, [([a], [b]) for a in angles
                                      for b in angles if a != b])
    else:
        pairs = [[a, a if a == 90 else -a] for a in angles if a >= 0]
        moves = [(a, b) for a in pairs for b in pairs if a != b]
        singles = [([0], [90]), ([90], [0])]
        better = closer(plies, free, moves) or closer(plies, free, singles)
        for old, new in singles if better else ():
            # the last change may concern a single ply
            if new[0] in free:
                before, spare = list(plies), list(free)
                for a in new*unit:
                    before.remove(a)
                before += old*unit
                spare.remove(new[0])
                spare += old
                if far(before) > far(plies) and not closer(before, spare,
                                                           moves):
                    better = None
    expect(not better, '%s with the queue %s breaks the 10%% rule, from %s; '
           'changing %s would bring it closer', ss, queue, case['stack'],
           better)


def run_abdalla(case, ctx, repair_10_bal, calc_mini_10):
    kw, stack = case['kw'], case['stack']
    n, sym = len(stack), kw['sym']
    con = gen.build_constraints(kw)
    mini = calc_mini_10(con, n)
    ss, queue = repair_10_bal(gen.ints(stack), mini, con)
    ss, plies = basic(ss, queue, case, ctx)
    x, y = np.mean(cla_stub.trig(plies)[:, :2], axis=0)
    r = 1 - 4*kw['percent_Abdalla']/100
    inside = r*r + r*y - 2*x*x > -1e-6 and y < r + 1e-6
    if not inside:
        stuck(case, con, ss, [int(a) for a in queue], plies)
    x, y = np.mean(cla_stub.trig(stack)[:, :2], axis=0)
    ctx.nontrivial(not (r*r + r*y - 2*x*x >= 0 and y <= r))
    ctx.label('%s%s' % ('sym' if sym else 'asym', ' bal' if kw['bal'] else ''))


@st.composite
def distance_case(draw):
    return dict(pc=draw(st.sampled_from([0, 5, 10, 10, 15, 20, 24])),
                LPs=[draw(gen.coef()), draw(gen.coef())])


def check_distance(case, ctx):
    "distance to the region 2x^2 <= r(r + y), y <= r"
    from src.guidelines.ten_percent_rule_Abdalla import calc_distance_Abdalla
    con = gen.build_constraints(dict(
        set_of_angles=gen.BASE, rule_10_percent=True, rule_10_Abdalla=True,
        percent_Abdalla=case['pc']))
    x, y = case['LPs']
    r = 1 - 4*case['pc']/100
    got = float(calc_distance_Abdalla(np.array([x, y, 0, 0.]), con))
    inside = 2*x*x <= r*(r + y) and y <= r
    slack = min(r*(r + y) - 2*x*x, r - y)
    if abs(slack) < 1e-9:
        return
    ctx.nontrivial(not inside)
    if inside:
        expect(got == 0, '%s is in the region but at a distance of %s',
               (x, y), got)
        return
    t = np.linspace(-r, r, 4001)
    want = math.sqrt(min(np.min((x - t)**2 + (y - 2*t*t/r + r)**2),
                         np.min((x - t)**2 + (y - r)**2)))
    expect(got > 0 and abs(got - want) < 2e-3, 'distance of %s to the '
           'region: %s instead of %s', (x, y), got, want)


SUBS = [
    Sub('distance', distance_case(), check_distance, 150, 2000,
        rule='lamination parameters outside the region'),
    Sub('counts', case_(), check, 4000, 80000,
        rule='some outer plies kept and some inner plies redefined'),
    Sub('abdalla', case_('abdalla'), check_abdalla, 400, 6000, cpu=10,
        rule='the laminate to repair breaks the rule'),
]
