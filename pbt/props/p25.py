"""P25 repair of a laminate for disorientation and contiguity"""
from itertools import permutations
import random
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect
from pbt.props import p23


@st.composite
def case_(draw, small=False):
    kw = draw(gen.constraint_kwargs())
    if draw(st.integers(0, 4)):
        kw['contig'] = True
    if draw(st.integers(0, 2)):
        kw['diso'] = True
    n = draw(st.sampled_from(
        [6, 7, 8, 9, 10, 11, 12, 13] if small else list(range(6, 41))))
    kind = draw(st.sampled_from(['random', 'valid', 'swapped', 'swapped']))
    stack = None
    if small:
        kind = draw(st.sampled_from(['random', 'swapped', 'swapped']))
    if kind != 'random':
        rng = random.Random(draw(st.integers(0, 10**6)))
        stack = ref.find_stack(kw, n, rng, nodes=600)
    if stack is None:
        if kw['sym']:
            half = draw(gen.stacks(kw['set_of_angles'], n//2, n//2))
            mid = [draw(st.sampled_from(kw['set_of_angles']))]*(n % 2)
            stack = half + mid + half[::-1]
        else:
            stack = draw(gen.stacks(kw['set_of_angles'], n, n))
    elif kind == 'swapped':
        for _ in range(draw(st.integers(1, 6 if small else 3))):
            top = n//2 if kw['sym'] else n
            i = draw(st.integers(0, top - 1))
            j = draw(st.integers(0, top - 1))
            stack[i], stack[j] = stack[j], stack[i]
            if kw['sym']:
                stack[n - 1 - i], stack[n - 1 - j] = stack[i], stack[j]
    hide = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 8, 99]))
    return dict(kw=kw, stack=stack, hide=min(hide, n//2 - 3 if small else
                                             n//2 if kw['sym'] else n),
                scatter=draw(st.booleans()), shuffle=draw(st.integers(0, 99)),
                n_D1=draw(st.sampled_from([3, 4, 5, 5, 5, 5])) if small else
                draw(st.integers(1, 6)))


def outer(kw):
    "plies of each side imposed by damage tolerance"
    if not kw['dam_tol']:
        return 0
    return 1 if kw['dam_tol_rule'] == 1 else 2


def partial(case):
    "the laminate as outer plies, inner plies (666) and queue"
    kw, ss = case['kw'], list(case['stack'])
    n = len(ss)
    order = p23.outer_first(n, kw['sym'])
    if case.get('scatter'):
        # the repair for the 10% rule may keep inner plies
        k = max(1, outer(kw))
        free = [i for i in order if k <= i < n - k]
        random.Random(case['shuffle'] + 1).shuffle(free)
        order = [i for i in order if i not in free] + free
    queue = []
    for i in order[len(order) - case['hide']:] if case['hide'] else []:
        queue.append(ss[i])
        ss[i] = 666
        if kw['sym']:
            ss[n - 1 - i] = 666
    random.Random(case['shuffle']).shuffle(queue)
    return ss, queue


def broken(stack, kw):
    out = []
    if kw['diso'] and ref.diso_count(ref.trimmed(
            stack, kw['dam_tol'], kw['dam_tol_rule']), kw['delta_angle']):
        out.append('disorientation')
    if kw['contig'] and not ref.contig_ok(stack, kw['n_contig']):
        out.append('contiguity')
    return out


def broken_outer(top, kw):
    "rules broken by the outer plies of one side of a laminate"
    skip = outer(kw) == 2
    if kw['diso'] and ref.diso_count(top[1:] if skip else top,
                                     kw['delta_angle']):
        return True
    return kw['contig'] and not ref.contig_ok(top, kw['n_contig'])


def integrity(new, ss, queue, kw, who):
    n = len(ss)
    new = [int(a) for a in new]
    plies = sorted([a for a in ss if a != 666] + queue*(
        2 if kw['sym'] else 1))
    expect(sorted(new) == plies, '%s: %s does not have the plies of %s with '
           'the queue %s', who, new, ss, queue)
    if kw['sym']:
        expect(new == new[::-1], '%s: %s is not symmetric', who, new)
        if n % 2:
            expect(new[n//2] == ss[n//2], '%s: middle ply changed, %s to %s',
                   who, ss, new)
    k = outer(kw)
    expect(all(new[i] == ss[i] or ss[i] == 666 for i in range(n)
               if min(i, n - 1 - i) < k),
           '%s: outer plies changed, %s to %s', who, ss, new)
    return new


def check(case, ctx):
    from src.RELAY.repair_diso_contig import repair_diso_contig
    kw = case['kw']
    con = gen.build_constraints(kw)
    ss, queue = partial(case)
    n = len(ss)
    new, inward, outward = repair_diso_contig(
        gen.ints(ss), list(queue), con, case['n_D1'])
    new = integrity(new, ss, queue, kw, 'repair')
    done = bool(inward) or bool(outward)
    bad = broken(new, kw)
    expect(not (done and bad), 'success reported for %s, obtained from %s with '
           'the queue %s, whereas %s is not satisfied', new, ss, queue, bad)
    if not case['hide'] and not broken(case['stack'], kw):
        expect(done and new == case['stack'], 'feasible laminate %s %s', ss,
               'changed to %s' % new if done else 'not recognised')
    if kw['sym'] and inward:
        fine = 0
        while fine < n//2 - case['n_D1'] and ss[fine] != 666 and not \
                broken_outer(ss[:fine + 1], kw):
            fine += 1
        expect(new[:fine] == ss[:fine], 'the outer plies %s satisfy the rules '
               'but were changed: %s to %s', ss[:fine], ss, new)
    ctx.nontrivial(done and new != case['stack'])
    ctx.label('%s %s' % ('sym' if kw['sym'] else 'asym', 'inward' if inward
                         else 'outward' if outward else 'failure'))


def check_small(case, ctx):
    "the innermost plies are all permuted: the inward repair is complete"
    from src.RELAY.repair_diso_contig import repair_diso_contig
    kw = case['kw']
    con = gen.build_constraints(kw)
    ss, queue = partial(case)
    n, sym = len(ss), kw['sym']
    k = max(1, outer(kw))
    inner = [a for a in (ss[k:n//2] if sym else ss[k:n - k]) if a != 666] + \
        queue
    if len(inner) > case['n_D1']:
        return
    new, inward, outward = repair_diso_contig(
        gen.ints(ss), list(queue), con, case['n_D1'])
    new = integrity(new, ss, queue, kw, 'repair')
    done = bool(inward) or bool(outward)
    some = None
    for perm in set(permutations(inner)):
        perm = list(perm)
        if sym:
            half = ss[:k] + perm
            full = half + ss[n//2:n//2 + n % 2] + half[::-1]
        else:
            full = ss[:k] + perm + ss[n - k:]
        if not broken(full, kw):
            some = full
            break
    if some is not None:
        expect(inward, 'inward repair of %s with the queue %s unsuccessful, '
               'but %s satisfies the rules', ss, queue, some)
        expect(not broken(new, kw), '%s breaks %s', new, broken(new, kw))
    elif done:
        expect(not broken(new, kw), '%s breaks %s', new, broken(new, kw))
    ctx.nontrivial(some is not None and new != case['stack'])
    ctx.label('possible' if some is not None else 'impossible')


def check_inside(case, ctx):
    "repair from the middle of the laminate outwards"
    from src.RELAY.repair_from_inside_sym import \
        repair_diso_contig_from_inside_sym as from_inside_sym
    from src.RELAY.repair_from_inside_asym import \
        repair_diso_contig_from_inside_asym as from_inside_asym
    kw = case['kw']
    con = gen.build_constraints(kw)
    ss, queue = list(case['stack']), []
    n, sym, k = len(ss), kw['sym'], outer(kw)
    if not sym and n - 2*k < case['n_D1'] + 1:
        return
    new, done = (from_inside_sym if sym else from_inside_asym)(
        gen.ints(ss), queue, con, case['n_D1'])
    new = integrity(new, ss, queue, kw, 'outward repair')
    bad = broken(new, kw)
    expect(not (done and bad), 'success reported by the outward repair of %s '
           'for %s, whereas %s is not satisfied', ss, new, bad)

    def fine(block):
        return not (kw['diso'] and ref.diso_count(block, kw['delta_angle'])) \
            and not (kw['contig'] and not ref.contig_ok(block, kw['n_contig']))

    # plies appended one by one: from the middle, kept while the rules hold
    if sym:
        left = (n - 1)//2
        room = left - k - case['n_D1']
        start, stop = left, n - left
        blocks = [(start - i, stop + i) for i in range(1, room + 1)]
    else:
        start = k + (n - 2*k)//2
        stop = start + 1
        blocks = []
        for i in range(n - 2*k - case['n_D1'] - 1):
            start, stop = (start - 1, stop) if i % 2 == 0 else (
                start, stop + 1)
            blocks.append((start, stop))
    kept = None
    for lo, up in blocks:
        if not fine(ss[lo:up]):
            break
        kept = lo, up
    if kept:
        lo, up = kept
        # asymmetric laminates: one ply may move to the other side of the block
        expect(any(new[lo + i:up + i] == ss[lo:up] for i in (
            (0,) if sym else (0, -1, 1))), 'the inner plies %s satisfy the rules '
               'but were changed by the outward repair: %s to %s', ss[lo:up],
               ss, new)
        if sym and (lo, up) == blocks[-1] and not hopeless(ss, lo, up, k, kw):
            expect(done, 'outward repair of %s unsuccessful, whereas '
                   'reordering its outermost plies is sufficient', ss)
    ctx.nontrivial(done and new != ss)
    ctx.label('%s %s' % ('sym' if sym else 'asym', 'done' if done else 'no'))


def hopeless(ss, lo, up, k, kw):
    "no order of the outermost plies satisfies the rules (symmetric laminate)"
    n = len(ss)
    return all(broken(ss[:k] + list(p) + ss[lo:up] + list(p[::-1]) +
                      ss[n - k:], kw) for p in set(permutations(ss[k:lo])))


@st.composite
def order_(draw):
    kw = draw(gen.constraint_kwargs())
    return dict(kw=kw, angle=draw(st.sampled_from(kw['set_of_angles'])),
                queue=[draw(st.sampled_from(kw['set_of_angles'])) for _ in range(
                    draw(st.sampled_from([1, 3, 5, 8, 12])))])


def check_order(case, ctx):
    from src.RELAY.repair_diso_contig_tools import order_plies_to_test
    con = gen.build_constraints(case['kw'])
    got = [int(a) for a in order_plies_to_test(
        [case['angle']], list(case['queue']), con)]
    expect(sorted(got) == sorted(set(case['queue'])), 'plies to stack next to '
           '%s: %s, plies of the queue: %s', case['angle'], got, case['queue'])
    gap = [ref.diso_angle(case['angle'], a) for a in got]
    expect(gap == sorted(gap), 'plies to stack next to %s: %s, not by '
           'increasing difference of fibre orientation %s', case['angle'], got,
           gap)
    want = order_of(case['angle'], case['queue'], case['kw'])
    expect(got == want, 'plies to stack next to %s: %s instead of %s, a '
           'positive difference of fibre orientation coming first',
           case['angle'], got, want)
    ctx.nontrivial(len(got) > 2)
    ctx.label(len(got))


@st.composite
def list_(draw):
    first = draw(case_())
    seed = draw(st.integers(0, 10**6))
    return dict(first=first, number=draw(st.integers(1, 4)), seed=seed)


def check_list(case, ctx):
    from src.RELAY.repair_diso_contig import repair_diso_contig_list
    from src.RELAY.repair_diso_contig import repair_diso_contig
    first = case['first']
    kw = first['kw']
    con = gen.build_constraints(kw)
    ss, queue = partial(first)
    n, k = len(ss), outer(kw)
    rng = random.Random(case['seed'])
    laminates = [(ss, queue)]
    for _ in range(case['number'] - 1):
        new = [a for a in ss]
        for i in range(k, n//2 if kw['sym'] else n - k):
            if new[i] != 666 and rng.random() < 0.4:
                new[i] = rng.choice(kw['set_of_angles'])
                if kw['sym']:
                    new[n - 1 - i] = new[i]
        laminates.append((new, [rng.choice(kw['set_of_angles'])
                                for _ in queue]))
    alone = [repair_diso_contig(gen.ints(s), list(q), con, first['n_D1'])
             for s, q in laminates]
    got, inward, outward, ind = repair_diso_contig_list(
        [gen.ints(s) for s, q in laminates], [list(q) for s, q in laminates],
        con, first['n_D1'])
    done = bool(inward) or bool(outward)
    works = [i for i, a in enumerate(alone) if a[1] or a[2]]
    expect(done == bool(works), 'success %s for the list, laminates that can '
           'be repaired: %s', done, works)
    want = works[0] if works else 0
    expect(ind == want, 'laminate %s reported, laminates repaired on their '
           'own: %s', ind, works)
    new = integrity(got, laminates[ind][0], laminates[ind][1], kw,
                    'laminate %d of the list' % ind)
    expect(new == [int(a) for a in alone[want][0]], 'laminate %d repaired as '
           '%s in the list and %s on its own', ind, new,
           [int(a) for a in alone[want][0]])
    ctx.nontrivial(ind > 0)
    ctx.label('%s of %d' % (ind if done else 'none', len(laminates)))


@st.composite
def steps_(draw):
    case = draw(case_())
    n, k = len(case['stack']), max(1, outer(case['kw']))
    case['hide'] = min(case['hide'], n//2 - k if case['kw']['sym'] else
                       n - 2*k)
    case['n_D1'] = draw(st.sampled_from([1, 2, 3, 4, 5]))
    return case


def order_of(angle, queue, kw):
    "queued plies: closest fibre orientation first, positive difference first"
    def gap(a):
        diff = (a - angle) % 180
        return (min(diff, 180 - diff), diff > 90)
    return sorted(set(queue), key=gap)


def grown(ss, queue, rest, steps, start, add, kw):
    """plies placed one at a time: at each step, the first remaining ply that
    satisfies the rules next to the plies already placed"""
    block, rest, queue = start, list(rest), list(queue)
    for step in range(steps):
        found = None
        for i in rest:
            angles = [ss[i]] if ss[i] != 666 else order_of(
                add(block, step, None), queue, kw)
            for angle in angles:
                new, seen = add(block, step, angle)
                if kw['diso'] and ref.diso_count(seen[:2], kw['delta_angle']):
                    continue
                if kw['contig'] and not ref.contig_ok(seen, kw['n_contig']):
                    continue
                found = i, angle, new
                break
            if found:
                break
        if not found:
            return None
        if ss[found[0]] == 666:
            queue.remove(found[1])
        rest.remove(found[0])
        block = found[2]
    return block, rest, queue


def left(ss, rest, queue):
    queue = list(queue)
    return [ss[i] if ss[i] != 666 else queue.pop(0) for i in rest]


def inward_model(ss, queue, kw, n_D1):
    "repaired laminate, or None"
    n, k = len(ss), max(1, outer(kw))
    if kw['sym']:
        def add(block, step, angle):
            if angle is None:
                return block[-1]
            return block + [angle], (block + [angle])[::-1]
        half = n//2
        out = grown(ss, queue, range(k, half), half - k - n_D1, ss[:k], add, kw)
        if out is None:
            return None
        block, rest, queue = out
        middle = ss[half:half + n % 2]
        for perm in permutations(left(ss, rest, queue)):
            top = block + list(perm)
            full = top + middle + top[::-1]
            if fine(full[k - 1:n - k + 1], kw, full):
                return full
        return None

    def add(block, step, angle):
        top, bottom = block
        if step % 2 == 0:
            if angle is None:
                return bottom[0]
            new = [angle] + bottom
            return (top, new), new
        if angle is None:
            return top[-1]
        new = top + [angle]
        return (new, bottom), new[::-1]
    tops = list(range(k, n//2))
    bottoms = list(range(n//2, n - k))[::-1]
    rest = []
    for i in range(max(len(tops), len(bottoms))):
        rest += bottoms[i:i + 1] + tops[i:i + 1]
    out = grown(ss, queue, rest, len(rest) - n_D1, (ss[:k], ss[n - k:]), add,
                kw)
    if out is None:
        return None
    (top, bottom), rest, queue = out
    for perm in permutations(left(ss, sorted(rest), queue)):
        full = top + list(perm) + bottom
        if fine(full[k - 1:n - k + 1], kw, full):
            return full
    return None


def fine(inner, kw, full):
    return not (kw['diso'] and ref.diso_count(inner, kw['delta_angle'])) \
        and not (kw['contig'] and not ref.contig_ok(full, kw['n_contig']))


def outward_model(ss, queue, kw, n_D1):
    """plies placed one at a time from the middle of the laminate, and whether
    some order of the remaining ones satisfies the rules; None if a ply cannot
    be placed"""
    n, k = len(ss), outer(kw)
    if kw['sym']:
        def add(block, step, angle):
            if angle is None:
                return block[-1]
            new = [angle] + block + [angle]
            return new, new
        lim = (n - 1)//2
        rest = list(range(k, lim))[::-1]
        out = grown(ss, queue, rest, len(rest) - n_D1, ss[lim:n - lim], add, kw)
        if out is None:
            return None
        block, rest, queue = out
        for perm in permutations(left(ss, rest, queue)):
            top = ss[:k] + list(perm)
            full = top + block + top[::-1]
            if fine(full[max(0, k - 1):n - max(0, k - 1)], kw, full):
                return block, True
        return block, False

    def add(block, step, angle):
        if step % 2 == 0:
            if angle is None:
                return block[0]
            return [angle] + block, [angle] + block
        if angle is None:
            return block[-1]
        return block + [angle], [angle] + block[::-1]
    start = k + (n - 2*k)//2
    tops = list(range(k, start))[::-1]
    bottoms = list(range(start + 1, n - k))
    rest = []
    for i in range(max(len(tops), len(bottoms))):
        rest += tops[i:i + 1] + bottoms[i:i + 1]
    out = grown(ss, queue, rest, len(rest) - n_D1, [ss[start]], add, kw)
    if out is None:
        return None
    block, rest, queue = out
    half = len(rest)//2
    for perm in permutations(left(ss, sorted(rest), queue)):
        full = ss[:k] + list(perm[:half]) + block + list(perm[half:]) + \
            ss[n - k:]
        if fine(full[max(0, k - 1):n - max(0, k - 1)], kw, full):
            return block, True
    return block, False


def inside_full(new, block):
    return any(new[i:i + len(block)] == block
               for i in range(len(new) - len(block) + 1))


def check_steps(case, ctx):
    "plies placed one at a time inwards, and if need be outwards"
    from src.RELAY.repair_diso_contig import repair_diso_contig
    from src.RELAY.repair_from_inside_sym import \
        repair_diso_contig_from_inside_sym as from_inside_sym
    from src.RELAY.repair_from_inside_asym import \
        repair_diso_contig_from_inside_asym as from_inside_asym
    kw = case['kw']
    con = gen.build_constraints(kw)
    ss, queue = partial(case)
    new, inward, _ = repair_diso_contig(
        gen.ints(ss), list(queue), con, case['n_D1'])
    want = inward_model(ss, queue, kw, case['n_D1'])
    expect(bool(inward) == (want is not None), 'inward repair of %s with the '
           'queue %s: success %s, plies placed one at a time give %s', ss,
           queue, bool(inward), want)
    if inward:
        expect([int(a) for a in new] == want, 'inward repair of %s with the '
               'queue %s: %s, plies placed one at a time give %s', ss, queue,
               new, want)
    k = outer(kw)
    out = None
    middle = ss[(len(ss) - 1)//2:len(ss)//2 + 1]
    if (kw['sym'] or len(ss) - 2*k > case['n_D1']) and 666 not in middle:
        new, done = (from_inside_sym if kw['sym'] else from_inside_asym)(
            gen.ints(ss), list(queue), con, case['n_D1'])
        new = [int(a) for a in new]
        out = outward_model(ss, queue, kw, case['n_D1'])
        expect(bool(done) == (out is not None and out[1]), 'outward repair of '
               '%s with the queue %s: success %s, plies placed one at a time '
               'and outermost ones permuted: %s', ss, queue, bool(done), out)
        if out:
            expect(inside_full(new, out[0]), 'outward repair of %s with the '
                   'queue %s: %s, plies placed one at a time give %s', ss,
                   queue, new, out[0])
    ctx.nontrivial(want is not None and want != case['stack'])
    ctx.label('%s %s %s' % (
        'sym' if kw['sym'] else 'asym', 'no' if want is None else 'inward',
        'not placed' if out is None else 'outward' if out[1] else 'placed'))


SUBS = [
    Sub('repair', case_(), check, 2000, 40000,
        rule='repaired by reordering the plies'),
    Sub('complete', case_(True), check_small, 1200, 20000,
        rule='repair needed and possible'),
    Sub('inside', case_(), check_inside, 1500, 30000,
        rule='repaired by reordering the plies'),
    Sub('steps', steps_(), check_steps, 1000, 30000,
        rule='repaired inwardly by reordering the plies'),
    Sub('order', order_(), check_order, 600, 10000,
        rule='three fibre orientations or more'),
    Sub('list', list_(), check_list, 600, 10000,
        rule='not the first laminate of the list'),
]
