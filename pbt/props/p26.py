"""P26 refinement of the out-of-plane properties of a laminate"""
import random
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, cla_stub
from pbt.core import Sub, expect
from pbt.props.p25 import outer, broken


@st.composite
def case_(draw, rules=True):
    kw = draw(gen.constraint_kwargs())
    if not rules:
        kw['diso'] = kw['contig'] = False
    elif not (kw['diso'] or kw['contig']):
        kw[draw(st.sampled_from(['diso', 'contig']))] = True
    n = draw(st.sampled_from(list(range(6, 41)) + [7, 9, 11, 13, 15, 17]))
    if draw(st.integers(0, 3)) == 0:
        kw['set_of_angles'] = gen.BASE
    rng = random.Random(draw(st.integers(0, 10**6)))
    free = dict(kw, rule_10_percent=False) if draw(st.booleans()) else kw
    if rules and draw(st.integers(0, 3)) == 0:
        # two orientations in blocks of the largest size
        kw.update(contig=True, diso=False, n_contig=draw(st.integers(2, 5)))
        free = dict(kw, rule_10_percent=False, set_of_angles=draw(
            st.sampled_from([[0, 90], [45, -45], [45, 90], [-45, 0]])))
    stack = ref.find_stack(free, n, rng, nodes=600,
                           with_bal=draw(st.booleans()))
    if stack is None or draw(st.integers(0, 49)) == 0:
        stack = [draw(st.sampled_from([0, 90]))]*n
        kw = dict(kw, dam_tol=False, contig=False, rule_10_percent=False)
        if rules:
            kw['diso'] = True
    if draw(st.integers(0, 2)):
        goal = list(stack)
        m = n//2 if kw['sym'] else n
        part = goal[:m]
        rng.shuffle(part)
        goal = part + goal[m:m + n % 2] + part[::-1] if kw['sym'] else part
        target = [float(x) for x in cla_stub.lampam_of(goal)]
    else:
        target = draw(st.lists(gen.coef(), min_size=12, max_size=12))
    coeffs = draw(st.lists(st.sampled_from([0, 1, 1, 0.5, 2, 10]), min_size=4,
                           max_size=4))
    return dict(kw=kw, stack=stack, target=target, coeffs=coeffs,
                n_D2=draw(st.sampled_from([1, 2, 3, 6, 10, 10, 10])),
                n_D3=draw(st.integers(1, 3)),
                switch=draw(st.sampled_from([True]*9 + [False])),
                structure=draw(st.booleans()))


@st.composite
def tight(draw):
    "short laminates made of blocks, close to the limits of the rules"
    rng = random.Random(draw(st.integers(0, 10**9)))
    sym, diso = rng.random() < .6, rng.random() < .3
    n_contig = rng.choice([2, 2, 3, 4])
    angles = rng.choice([[0, 90, 45, -45], [0, 90], [0, 45, -45],
                         [0, 30, -30, 60, -60, 90]])
    kw = dict(sym=sym, bal=False, oopo=False, dam_tol=False, dam_tol_rule=1,
              rule_10_percent=False, diso=diso, delta_angle=rng.choice(
                  [45, 60, 90]), contig=not diso or rng.random() < .7,
              n_contig=n_contig, set_of_angles=sorted({0, 45, -45, 90,
                                                       *angles}))
    for trial in range(200):
        if trial == 30:
            kw['diso'], kw['contig'], angles = False, True, [0, 90, 45, -45]
        size = rng.randint(4, 9) if sym else rng.randint(6, 14)
        half = []
        while len(half) < size:
            half += [rng.choice(angles)]*rng.randint(1, n_contig)
        half = half[:size]
        mid = [rng.choice([0, 90])] if rng.random() < .4 else []
        stack = half + mid + half[::-1] if sym else half
        if not broken(stack, kw):
            break
    return dict(kw=kw, stack=stack,
                target=[rng.uniform(-1, 1) for _ in range(12)],
                coeffs=[rng.choice([0, 1, 1, 2]) for _ in range(4)],
                n_D2=rng.choice([2, 4, 10]), n_D3=1, switch=True,
                structure=False)


def check_tight(case, ctx):
    check_shift(case, ctx)
    check_swap(case, ctx)


def objective(case, stack):
    lam = cla_stub.lampam_of(list(stack))[8:12]
    return float(sum(np.array(case['coeffs'], float)*(
        lam - np.array(case['target'])[8:12])**2))


def integrity(case, new, who):
    "what holds for each refinement; returns the plies and both objectives"
    kw, old = case['kw'], case['stack']
    new = [int(a) for a in new]
    n, k = len(old), outer(kw)
    expect(sorted(new) == sorted(old), '%s: plies of %s changed to %s', who,
           old, new)
    if kw['sym']:
        expect(new == new[::-1], '%s: %s not symmetric', who, new)
        if n % 2:
            expect(new[n//2] == old[n//2], '%s: middle ply changed, %s to %s',
                   who, old, new)
    expect(new[:k] == old[:k] and new[n - k:] == old[n - k:],
           '%s: outer plies changed, %s to %s', who, old, new)
    expect(not broken(new, kw), '%s: %s, obtained from %s, breaks %s', who,
           new, old, broken(new, kw))
    before, after = objective(case, old), objective(case, new)
    expect(after <= before + 1e-9, '%s: objective raised from %s to %s, %s to '
           '%s', who, before, after, old, new)
    return new, before, after


def blocks(stack):
    "list of (first position, orientation, size)"
    out, i = [], 0
    for a, size in ref.runs(stack):
        out.append((i, a, size))
        i += size
    return out


def swaps(case, starts=None):
    """laminates obtained by swapping two blocks of plies of equal sizes,
    with the positions of both if these of the blocks are given"""
    kw, old = case['kw'], case['stack']
    n, k, sym = len(old), outer(kw), kw['sym']
    part = old[:n//2] if sym else list(old)
    inside = blocks(part)
    if sym and n % 2:
        while inside and inside[-1][1] == old[n//2]:
            inside.pop()
    for i, (p, a, s) in enumerate(inside):
        for q, b, t in inside[i + 1:]:
            if s != t or a == b or p < k or (not sym and q + t > n - k):
                continue
            if b in old[max(0, p - 1):p] + old[p + s:p + s + 1] or \
                    a in old[q - 1:q] + (old[q + t:q + t + 1] if not sym or
                                         n % 2 or q + t < n//2 else []):
                continue  # blocks would be joined
            new = list(part)
            new[p:p + s] = [b]*s
            new[q:q + s] = [a]*s
            full = new + old[n//2:n//2 + n % 2] + new[::-1] if sym else new
            if not broken(full, kw):
                yield full if starts is None else (full, p, q)


def move(case, stack, p, q):
    "a ply is moved outwards from position q to p"
    new, n = list(stack), len(stack)
    new.insert(p, new.pop(q))
    if case['kw']['sym']:
        new = new[:n//2 + n % 2] + new[:n//2][::-1]
    return new


def moves(case, grouped=False):
    "laminates obtained by moving one ply outwards, within n_D2 plies"
    kw, old = case['kw'], case['stack']
    n, k = len(old), outer(kw)
    if kw['sym']:
        order = list(range(k, n//2))
    else:
        order = []
        for i in range(n//2 + n % 2):
            order += [n - 1 - i, i] if i < n//2 else [n - 1 - i]
        order = order[2*k:]
    for index, p in enumerate(order):
        group = [(p, q) for q in order[index + 1:index + 1 + case['n_D2']]]
        if grouped:
            yield group
        else:
            for p, q in group:
                yield move(case, old, p, q)


class Tie(Exception):
    "too many changes are equally good"


def keep_best(case, states, change):
    "the laminates of the states, each with one of its best changes if better"
    out = set()
    for now in states:
        value = objective(case, now)
        options = {tuple(o) for o in change(list(now))} - {now}
        scores = [(objective(case, o), o) for o in options]
        least = min([v for v, _ in scores] + [value])
        # equally good: kept or changed
        if least > value - 1e-9:
            out.add(now)
        out.update(o for v, o in scores
                   if v < least + 1e-9 and v < value + 1e-9)
    if len(out) > 30:
        raise Tie
    return out


def shifted(case, rules):
    "each position in turn, from the outside, receives the best ply"
    states = {tuple(case['stack'])}
    for group in moves(case, grouped=True):
        states = keep_best(case, states, lambda now: [
            new for new in (move(case, now, p, q) for p, q in group)
            if not (rules and broken(new, case['kw']))])
    return states


def swapped(case):
    "each block in turn, from the outside, is swapped with the best block"
    now = case['stack']
    n, sym = len(now), case['kw']['sym']
    part = blocks(now[:n//2] if sym else now)
    if sym and n % 2:
        while part and part[-1][1] == now[n//2]:
            part.pop()
    part = sorted(part[::-1], key=lambda block: min(
        block[0], n - block[0] - block[2]))
    starts = [p for p, _, _ in part]
    states = {tuple(now)}
    for i, p in enumerate(starts):
        pairs = {(p, q) for q in starts[i + 1:]}
        states = keep_best(case, states, lambda now: [
            full for full, p1, q1 in swaps(dict(case, stack=now), starts)
            if (p1, q1) in pairs or (q1, p1) in pairs])
    return states


def check_model(case, ctx, got, who, model, *args):
    try:
        want = model(case, *args)
    except Tie:
        ctx.label('ties')
        return
    expect(tuple(got) in want, '%s: %s for the objective %s of %s, instead of '
           '%s', who, got, objective(case, got), case['stack'],
           [(list(s), objective(case, s)) for s in sorted(want)])
    ctx.label('predicted' if got != case['stack'] else 'predicted unchanged')


def call(fn, case, con, par=None):
    args = [gen.ints(case['stack']), np.array(case['coeffs'], float),
            np.array(case['target']), con]
    if par is not None:
        args.append(par)
    given = args[0]
    new, count = fn(*args, count_obj=True)
    expect([int(a) for a in given] == case['stack'], 'stack of the caller '
           'modified')
    expect([int(a) for a in fn(*args)] == [int(a) for a in new],
           'result differs when the objective calls are not counted')
    return new, count


def improved(case, who, before, after, new, options):
    "an improvement is found if there is one among the options"
    best = None
    for option in options:
        value = objective(case, option)
        if best is None or value < best[0]:
            best = value, option
    possible = best is not None and best[0] < before - 1e-7
    # a change of no effect on the objective may have altered the options
    if possible and new == case['stack']:
        expect(after < before - 1e-9, '%s: %s kept with the objective %s but '
               '%s gives %s', who, case['stack'], before, best[1], best[0])
    return possible


def parameters(case, con, **kwargs):
    from src.BELLA.parameters import Parameters
    return Parameters(con, n_D2=case['n_D2'], n_D3=case['n_D3'], **kwargs)


def check_swap(case, ctx):
    from src.RELAY.repair_flexural_1 import repair_flexural_1
    con = gen.build_constraints(case['kw'])
    new, count = call(repair_flexural_1, case, con)
    new, before, after = integrity(case, new, 'swap of blocks')
    possible = before > 1e-7 and improved(
        case, 'swap of blocks', before, after, new, swaps(case))
    check_model(case, ctx, new, 'swap of blocks', swapped)
    expect(count >= 1, 'no objective evaluated')
    ctx.nontrivial(after < before - 1e-9)
    ctx.label('possible' if possible else 'impossible')


def check_shift(case, ctx):
    from src.RELAY.repair_flexural_2 import repair_flexural_2
    kw = case['kw']
    con = gen.build_constraints(kw)
    new, count = call(repair_flexural_2, case, con, parameters(case, con))
    new, before, after = integrity(case, new, 'shift of plies')
    possible = improved(
        case, 'shift of plies', before, after, new,
        (s for s in moves(case) if not broken(s, kw)))
    check_model(case, ctx, new, 'shift of plies', shifted, True)
    expect(count >= 1, 'no objective evaluated')
    ctx.nontrivial(after < before - 1e-9)
    ctx.label('possible' if possible else 'impossible')


def check_redesign(case, ctx):
    from src.RELAY.repair_flexural_3 import repair_flexural_3
    kw = case['kw']
    con = gen.build_constraints(kw)
    new, count = call(repair_flexural_3, case, con, parameters(case, con))
    new, before, after = integrity(case, new, 'redesign')
    options = list(moves(case))
    possible = improved(case, 'redesign', before, after, new, options)
    check_model(case, ctx, new, 'redesign', shifted, False)
    expect(count == 1 + len(options), '%s objectives evaluated instead of %s',
           count, 1 + len(options))
    ctx.nontrivial(after < before - 1e-9)
    ctx.label('possible' if possible else 'impossible')


def check_steps(case, con, par, new, count):
    "the refinement alternates swaps of blocks and moves of plies n_D3 times"
    from src.RELAY.repair_flexural_1 import repair_flexural_1
    from src.RELAY.repair_flexural_2 import repair_flexural_2
    from src.RELAY.repair_flexural_3 import repair_flexural_3
    now, total = gen.ints(case['stack']), 0
    args = [np.array(case['coeffs'], float), np.array(case['target']), con]
    for _ in range(case['n_D3']):
        if case['kw']['diso'] or case['kw']['contig']:
            now, n = repair_flexural_1(now, *args, count_obj=True)
            total += n
            now, n = repair_flexural_2(now, *args, par, count_obj=True)
        else:
            now, n = repair_flexural_3(now, *args, par, count_obj=True)
        total += n
    expect([int(a) for a in now] == new, 'refinement of %s: %s instead of %s',
           case['stack'], new, now)
    expect(count == total, '%d objectives evaluated instead of %d', count,
           total)


def check_all(case, ctx):
    from src.RELAY.repair_flexural import repair_flexural
    kw = case['kw']
    con = gen.build_constraints(kw)
    par = parameters(case, con, repair_flexural_switch=case['switch'])
    args = dict(ss=gen.ints(case['stack']), constraints=con,
                out_of_plane_coeffs=np.array(case['coeffs'], float),
                parameters=par, lampam_target=np.array(case['target']))
    if case['structure']:
        args['multipanel'] = 'any'
    new, count = repair_flexural(count_obj=True, **args)
    expect([int(a) for a in new] == [int(a) for a in repair_flexural(**args)],
           'result differs when the objective calls are not counted')
    new, before, after = integrity(case, new, 'flexural refinement')
    if not case['switch'] or not any(case['coeffs']):
        expect(new == case['stack'] and count == 0, 'refinement not asked for')
    else:
        check_steps(case, con, par, new, count)
        options = moves(case) if not (kw['diso'] or kw['contig']) else \
            list(swaps(case)) + [s for s in moves(case) if not broken(s, kw)]
        if before > 1e-7 and case['n_D3'] == 1:
            improved(case, 'flexural refinement', before, after, new, options)
    ctx.nontrivial(after < before - 1e-9)
    ctx.label('%s%s' % ('sym' if kw['sym'] else 'asym',
                        ' rules' if kw['diso'] or kw['contig'] else ''))


SUBS = [
    Sub('blocks', case_(), check_swap, 900, 20000,
        rule='the objective is lowered'),
    Sub('shifts', case_(), check_shift, 600, 12000,
        rule='the objective is lowered'),
    Sub('tight', tight(), check_tight, 5000, 80000,
        rule='the swaps of blocks or the moves of plies improve the laminate'),
    Sub('redesign', case_(False), check_redesign, 400, 8000,
        rule='the objective is lowered'),
    Sub('refinement', st.one_of(case_(), case_(), case_(False)), check_all,
        400, 8000, rule='the objective is lowered'),
]
