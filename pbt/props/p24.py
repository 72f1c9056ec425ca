"""P24 refinement of the in-plane properties of a laminate"""
import math
import importlib
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, cla_stub, standin
from pbt.core import Sub, expect, expect_close
from pbt.props import p23


@st.composite
def case_(draw, mode=None):
    case = draw(p23.case_(mode))
    kw = case['kw']
    if not set(gen.BASE) <= set(kw['set_of_angles']):
        kw['set_of_angles'] = gen.BASE
        case['stack'] = [a if a in gen.BASE else 90 for a in case['stack']]
    if draw(st.booleans()):
        goal = draw(gen.stacks(kw['set_of_angles'], 1, 10))
        target = [float(x) for x in cla_stub.lampam_of(goal)]
    else:
        target = draw(st.lists(gen.coef(), min_size=12, max_size=12))
    coeffs = draw(st.lists(st.sampled_from([0, 1, 1, 0.5, 2, 10]), min_size=4,
                           max_size=4))
    if kw['bal'] or draw(st.booleans()):
        coeffs[2:] = [0, 0]
    case.update(target=target, coeffs=coeffs, hide=draw(st.integers(0, 6)),
                p_A=draw(st.sampled_from([0, 20, 50, 75, 80, 100, 100])),
                mp=draw(st.booleans()), switch=draw(st.sampled_from([True]*9 + [False])))
    return case


def outer_kept(kw, n, p_A, rounding):
    """number of plies of each side that the refinement must not touch; the
    sign of rounding says how a proportion worth a whole number is read"""
    k = 0
    if kw['dam_tol']:
        k = 1 if kw['dam_tol_rule'] == 1 else 2
    return max(k, math.floor((1 - p_A/100)*n/2 + rounding))


def in_region(plies, pc):
    x, y = np.mean(cla_stub.trig(plies)[:, :2], axis=0)
    r = 1 - 4*pc/100
    return r*r + r*y - 2*x*x > -1e-7 and y < r + 1e-7


def ten_ok(plies, kw):
    if kw.get('rule_10_Abdalla') and kw.get('rule_10_percent'):
        return in_region(plies, kw['percent_Abdalla'])
    return ref.ten_percent_ok(plies, ref.percent_limits(kw))


def check(case, ctx):
    importlib.import_module('src.RELAY.repair_membrane')
    with standin.abdalla(p23.distance):
        run(case, ctx)


def run(case, ctx):
    from src.RELAY.repair_10_bal import repair_10_bal, calc_mini_10
    from src.RELAY.repair_membrane import repair_membrane
    from src.BELLA.parameters import Parameters
    kw, stack = case['kw'], list(case['stack'])
    n, sym = len(stack), kw['sym']
    if sym and n % 2 and stack[n//2] not in (0, 90):
        stack[n//2] = 90
    con = gen.build_constraints(kw)
    unit = 2 if sym else 1
    abdalla = bool(kw.get('rule_10_Abdalla'))
    if not abdalla and p23.missing([], 0, kw, n + n % 2*sym, unit) > n//unit:
        return
    mini = calc_mini_10(con, n)
    ss, queue = repair_10_bal(gen.ints(stack), mini, con)
    ss, queue = [int(a) for a in ss], [int(a) for a in queue]
    before = p23.complete(ss, queue, sym)
    if len(before) != n or not ten_ok(before, kw) or (
            kw['bal'] and ref.imbalance(before)):
        return  # judged by P23
    order = p23.outer_first(n, sym)
    kept = [i for i in order if ss[i] != 666]
    for i in kept[max(0, len(kept) - case['hide']):]:
        queue.append(ss[i])
        ss[i] = 666
        if sym:
            ss[n - 1 - i] = 666
    par = Parameters(con, p_A=case['p_A'],
                     repair_membrane_switch=case['switch'])
    w = np.array(case['coeffs'], float)
    target = np.array(case['target'])
    kept_in = ss[:], queue[:]
    more = dict(multipanel=object()) if case.get('mp') else {}
    out = repair_membrane(
        **more, ss=gen.ints(ss), ply_queue=queue, mini_10=mini, in_plane_coeffs=w,
        constraints=con, parameters=par, lampam_target=target)
    ss_list, queue_list, lam_list = out
    expect(queue == kept_in[1], 'queue of the caller modified')
    expect(len(ss_list) == len(queue_list) == len(lam_list) >= 1,
           '%d stacks, %d queues, %d lamination parameters', len(ss_list),
           len(queue_list), len(lam_list))
    hold = outer_kept(kw, n, case['p_A'], -1e-9)
    objs = []
    for s, q, lam in zip(ss_list, queue_list, lam_list):
        s, q = [int(a) for a in s], [int(a) for a in q]
        plies = p23.complete(s, q, sym)
        expect(len(s) == n and len(plies) == n,
               '%s with the queue %s has not %d plies', s, q, n)
        expect(set(plies) <= set(kw['set_of_angles']),
               'orientations not allowed: %s', plies)
        expect([a == 666 for a in s] == [a == 666 for a in ss],
               'plies in the queue changed: %s to %s', ss, s)
        for i in range(n):
            if min(i, n - 1 - i) < hold:
                expect(s[i] == ss[i], 'outer ply %d modified: %s to %s (p_A=%s'
                       ')', i, ss, s, case['p_A'])
        if sym:
            expect(s == s[::-1], 'not symmetric: %s', s)
            if n % 2:
                expect(s[n//2] == ss[n//2], 'middle ply modified: %s', s)
        if kw['bal']:
            expect(not ref.imbalance(plies), 'not balanced: %s with %s', s, q)
        expect(ten_ok(plies, kw), '10%% rule broken: %s with %s, from %s with '
               '%s', s, q, ss, queue)
        want = np.mean(cla_stub.trig(plies), axis=0)
        expect_close(lam, want, 1e-9, 'in-plane lamination parameters of %s '
                     'with %s', s, q)
        objs.append(float(sum(w*(want - target[:4])**2)))
    first = [int(a) for a in ss_list[-1]]
    expect(first == ss and sorted(int(a) for a in queue_list[-1]) == sorted(
        queue), 'the laminate to refine is not the last of the list')
    for a, b in zip(objs, objs[1:]):
        expect(a < b + 1e-12, 'objectives of the successive laminates: %s',
               objs)
    for k in range(len(ss_list) - 1):
        innermost(n, sym, hold, *([int(a) for a in x] for x in (
            ss_list[k + 1], queue_list[k + 1], ss_list[k], queue_list[k])))
    active = case['switch'] and w.any()
    if not active:
        expect(len(ss_list) == 1, 'refinement not asked for')
        return
    descent(kw, n, sym, outer_kept(kw, n, case['p_A'], 1e-9), w, target,
            [([int(a) for a in s], [int(a) for a in q])
             for s, q in zip(ss_list, queue_list)], objs)
    ctx.nontrivial(len(ss_list) > 1)
    ctx.label('%s%s %d' % ('sym' if sym else 'asym', ' bal' if kw['bal']
                           else '', min(len(ss_list) - 1, 3)))


def innermost(n, sym, hold, s, q, s2, q2):
    "the plies modified are the innermost of their orientation, queue first"
    side = range(n//2) if sym else range(n)
    for angle in set(s + q) - {666}:
        free = sorted(min(i, n - 1 - i) for i in side
                      if s[i] == angle and min(i, n - 1 - i) >= hold)
        changed = sorted(min(i, n - 1 - i) for i in side
                         if s[i] == angle and s2[i] != angle)
        left = q2.count(angle)
        expect(not changed or not left, 'a ply at %d degrees of %s modified, '
               'and not one of the queue %s', angle, s, q)
        expect(changed == free[len(free) - len(changed):], 'plies at %d '
               'degrees modified are not the innermost: %s to %s', angle, s,
               s2)


def counts_ok(new, kw, n, unit):
    "the 10% rule allows the refinement to reach these plies"
    if kw.get('rule_10_Abdalla'):
        x, y = np.mean(cla_stub.trig(new)[:, :2], axis=0)
        r = 1 - 4*kw['percent_Abdalla']/100
        return r*r + r*y - 2*x*x > 1e-7 and y < r - 1e-7
    req = p23.required(kw, n)
    need = {k: p23.up(v/unit)*unit for k, v in req.items()}
    c = ref.count(new)
    if any(c.get(a, 0) < p23.up(req[a]) for a in (0, 90)) or \
            any(c.get(a, 0) < need[a] for a in (45, -45)) or \
            c.get(45, 0) + c.get(-45, 0) < need['both']:
        return False
    if kw['bal'] and need['both'] and c.get(45, 0) < p23.up(
            need['both']/unit/2)*unit:
        return False
    return not (kw['bal'] and min(c.get(45, 0), c.get(-45, 0)) < max(
        need[45], need[-45]))


def options(kw, n, sym, hold, w, target, s, q):
    """objectives reached by the modifications allowed by the rules: changes of
    one ply (of couples of plies if balanced), changes between 0 and 90"""
    unit = 2 if sym else 1
    free = q + [s[i] for i in (range(n//2) if sym else range(n))
                if min(i, n - 1 - i) >= hold and s[i] != 666]
    plies = p23.complete(s, q, sym)

    def values(moves):
        out = {}
        for removed, added in moves:
            new = list(plies)
            for a in removed:
                for _ in range(unit):
                    new.remove(a)
            new += added*unit
            if counts_ok(new, kw, n, unit):
                lam = np.mean(cla_stub.trig(new), axis=0)
                out[tuple(removed + added)] = float(sum(
                    w*(lam - target[:4])**2))
        return out

    angles = kw['set_of_angles']
    if not kw['bal']:
        return values([([a], [b]) for a in set(free) for b in angles
                       if a != b]), {}
    moves = []
    for a in angles:
        for b in angles:
            pa = [a, -a] if a not in (0, 90) else [a, a]
            pb = [b, -b] if b not in (0, 90) else [b, b]
            if a != b and sorted(pa) != sorted(pb) and all(
                    free.count(x) >= pa.count(x) for x in pa):
                moves.append((pa, pb))
    return values(moves), values([([a], [90 - a]) for a in (0, 90)
                                  if a in free])


def descent(kw, n, sym, hold, w, target, states, objs):
    "each modification is the best one allowed, until none is an improvement"
    unit = 2 if sym else 1
    ended = False
    for k in range(len(states) - 1, -1, -1):
        s, q = states[k]
        if objs[k] < 1e-9:
            return
        main, single = options(kw, n, sym, hold, w, target, s, q)
        least = min(main.values(), default=np.inf)
        last = min(single.values(), default=np.inf)
        if k == 0:
            if not ended:
                least = min(least, last)
                expect(least > objs[0] - 1e-9, 'a modification of %s with the '
                       'queue %s lowers the objective from %s to %s', s, q,
                       objs[0], least)
            return
        expect(not ended, 'modifications after a change between 0 and 90')
        before = p23.complete(s, q, sym)
        after = p23.complete(*states[k - 1], sym)
        if kw['bal'] and sum(abs(after.count(a) - before.count(a))
                             for a in kw['set_of_angles']) == 2*unit:
            expect(least > objs[k] - 1e-9, 'a ply of %s with the queue %s '
                   'changed between 0 and 90, whereas changing a couple of '
                   'plies lowers the objective from %s to %s', s, q, objs[k],
                   least)
            ended, least = True, last
        expect(objs[k - 1] < least + 1e-9, '%s with the queue %s changed to '
               '%s with %s, objective %s, whereas another modification '
               'yields %s', s, q, *states[k - 1], objs[k - 1], least)


SUBS = [
    Sub('counts', case_(), check, 2500, 50000,
        rule='the laminate is modified'),
    Sub('abdalla', case_('abdalla'), check, 600, 10000, cpu=15,
        rule='the laminate is modified'),
]
