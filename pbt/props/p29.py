"""P29 re-design of the ply drops around the reference panel"""
import random
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, structures, cla_stub
from pbt.core import Sub, expect, expect_close

KW = dict(oopo=False, sym=True, pdl_spacing=True)


@st.composite
def repair_case(draw, thick, limited, sym=True):
    """a reference panel satisfying the guidelines and thinner / thicker
    panels"""
    kw = draw(gen.constraint_kwargs(
        sym=sym, angles=draw(st.sampled_from(
            [gen.BASE, gen.BASE, gen.BASE, gen.BASE + [30, -30],
             gen.BASE + [60, -60]])),
        percent_mode=draw(st.sampled_from(['off', 'combined', 'separate']))))
    if kw['rule_10_percent']:
        for k in list(kw):
            if k.startswith('percent_'):
                kw[k] = draw(st.sampled_from([0, 10, 10, 15, 20]))
    kw.update(oopo=False, pdl_spacing=draw(st.booleans()))
    if limited and draw(st.integers(0, 2)) == 0:
        # contiguity decides which nodes are left
        kw.update(contig=True, n_contig=2, diso=False, pdl_spacing=True)
    odd = draw(st.sampled_from([0, 0, 0, 1])) if sym else 0
    per = 2 if sym else 1       # plies per step
    most = 2 if thick else draw(st.sampled_from([2, 3, 4]))
    if limited:
        most += draw(st.integers(1, 4))
    n_panels = draw(st.integers(1, min(3, most)))
    cuts = sorted(draw(st.lists(st.integers(1, most), min_size=n_panels,
                                max_size=n_panels, unique=True)))
    half = draw(st.integers(4, 9) if thick else
                st.integers(max(cuts) + 3, max(cuts) + 6))
    if not sym:
        half = max(half + draw(st.integers(0, 3)), 8)
    counts = [per*(half + c if thick else half - c) + odd for c in cuts]
    other = []   # panels on the other side of the reference panel
    if draw(st.booleans()):
        shift = draw(st.integers(1, 2))
        if thick and half - shift > (3 if sym else 7):
            other = [per*(half - shift) + odd]
        elif not thick:
            other = [per*(half + shift) + odd]
    plies = draw(st.permutations(counts + other + [per*half + odd]))
    data = draw(structures.panel_graphs(
        sym, len(plies), len(plies), ply_counts=plies))
    m = 12
    distinct = sorted(set(plies))
    targets = [draw(st.lists(gen.coef(), min_size=m, max_size=m))
               for _ in distinct]
    weights = [draw(st.lists(st.sampled_from([0, 1, 1, 2]), min_size=m,
                             max_size=m)) for _ in distinct]
    if limited and draw(st.booleans()):     # few equal objectives
        weights = [[draw(st.integers(1, 999))/100 for _ in range(m)]
                   for _ in distinct]
    limits = [draw(st.integers(1, 12)) for _ in range(4)] if limited else None
    return dict(kw=kw, data=data, n_ref=per*half + odd, targets=targets,
                weights=weights, limits=limits, thick=thick,
                seed=draw(st.integers(0, 10**6)),
                coeff_diso=draw(st.sampled_from([0, 1, 1, 5])),
                spacing=draw(st.sampled_from([0, 1])))


def keeps(stack, kw, diso):
    "what every intermediate panel must satisfy"
    if kw.get('contig') and not ref.contig_ok(stack, kw['n_contig']):
        return False
    if diso and kw.get('diso') and n_diso(stack, kw):
        return False
    return ref.ten_percent_ok(stack, ref.percent_limits(kw))


def n_diso(stack, kw):
    if not kw.get('diso'):
        return 0
    return ref.diso_count(ref.trimmed(
        stack, kw.get('dam_tol'), kw.get('dam_tol_rule')), kw['delta_angle'])


def protected(kw):
    "outer plies that are never dropped"
    n = kw['n_covering'] if kw['covering'] else 0
    if kw['covering']:
        n = max(n, 1)
    if kw['dam_tol']:
        n = max(n, 1 if kw['dam_tol_rule'] == 1 else 2)
    return n


def unmatched(plies, bal):
    "the angled ply waiting for its counterpart"
    if not bal:
        return None
    for a in plies:
        if a not in (0, 90) and plies.count(a) > plies.count(-a):
            return a
    return None


def explore_thin(stack, counts, kw, cap):
    """all designs of the thinner panels (decreasing counts): dict of tuples of
    stacks"""
    n = len(stack)
    sym = kw['sym']
    lo = protected(kw)
    hi = n//2 if sym else n - lo
    current = {((), frozenset())}
    steps = 0

    def left(gone):
        return tuple(p for k, p in enumerate(stack) if k not in gone and not
                     (sym and n - 1 - k in gone))
    for count in counts:
        while True:
            size = {len(left(s)) for _, s in current}
            if not size or size.pop() == count:
                break
            nxt = set()
            steps += 1
            for done, gone in current:
                wait = unmatched([stack[i] for i in gone], kw['bal'])
                for i in range(lo, hi):
                    if i in gone or (wait is not None and stack[i] != -wait):
                        continue
                    new = gone | {i}
                    if keeps(list(left(new)), kw, diso=False):
                        nxt.add((done, new))
            current = nxt
            if len(current) > cap:
                return None, steps
        current = {(done + (left(gone),), gone) for done, gone in current}
    return {done for done, _ in current}, steps


def explore_thick(stack, counts, kw, cap):
    "all designs of the thicker panels (increasing counts)"
    base = ref.count(list(stack))
    lo = protected(kw)
    current = {((), tuple(stack))}
    steps = 0
    for count in counts:
        while current and len(next(iter(current))[1]) < count:
            nxt = set()
            steps += 1
            for done, s in current:
                now = ref.count(list(s))
                wait = None
                if kw['bal']:
                    for a in kw['set_of_angles']:
                        if a not in (0, 90) and now.get(a, 0) - base.get(a, 0)\
                                > now.get(-a, 0) - base.get(-a, 0):
                            wait = a
                for a, new in changes(s, kw, lo, True):
                    if wait is not None and a != -wait:
                        continue
                    if keeps(list(new), kw, diso=True):
                        nxt.add((done, new))
            current = nxt
            if len(current) > cap:
                return None, steps
        current = {(done + (s,), s) for done, s in current}
    return {done for done, _ in current}, steps


def contains(long, short):
    "are the plies of the half stack short found in this order in long?"
    it = iter(long)
    return all(any(a == b for b in it) for a in short)


def waiting(s, base, kw, sign):
    if not kw['bal']:
        return None
    now = ref.count(list(s))
    for a in kw['set_of_angles']:
        if a not in (0, 90) and sign*(now.get(a, 0) - base.get(a, 0)) \
                > sign*(now.get(-a, 0) - base.get(-a, 0)):
            return a
    return None


def changes(s, kw, lo, thick):
    "orientation dropped or added and new stack, for every way of doing so"
    n = len(s)
    if kw['sym']:
        for i in range(lo, n//2 + thick):
            if thick:
                for a in kw['set_of_angles']:
                    yield a, s[:i] + (a,) + s[i:n - i] + (a,) + s[n - i:]
            else:
                yield s[i], s[:i] + s[i + 1:n - 1 - i] + s[n - i:]
    else:
        for i in range(lo, n - lo + thick):
            if thick:
                for a in kw['set_of_angles']:
                    yield a, s[:i] + (a,) + s[i:]
            else:
                yield s[i], s[:i] + s[i + 1:]


def reachable(stack, design, kw, thick):
    """can the design be reached ply by ply from the reference panel with
    every intermediate panel as required?"""
    base = ref.count(list(stack))
    lo = protected(kw)
    now = tuple(stack)

    def part(s):
        return s[:len(s)//2] if kw['sym'] else s
    for goal in design:
        target = part(goal)
        current = {now}
        while current and len(next(iter(current))) != len(goal):
            nxt = set()
            for s in current:
                wait = waiting(s, base, kw, 1 if thick else -1)
                for a, new in changes(s, kw, lo, thick):
                    if (wait is None or a == -wait) and new not in nxt and (
                            contains(target, part(new)) if thick else
                            contains(part(new), target)) \
                            and keeps(list(new), kw, diso=thick):
                        nxt.add(new)
            current = nxt
        if goal not in current:
            return False
        now = goal
    return True


def table_sym(kw, distinct, n_ref, stack, rng):
    width = distinct[-1]
    extra = (width - n_ref)//2
    half = list(range(n_ref//2)) + ['x']*extra
    head = half[:protected(kw)]
    tail = half[len(head):]
    rng.shuffle(tail)
    it = iter(range(len(head), n_ref//2))
    half = head + [next(it) if t != 'x' else 'x' for t in tail]
    mid = ['m'] if width % 2 else []
    columns = half + mid + [t if t == 'x' else -1 - t for t in half[::-1]]
    rows = []
    order = [k for k, t in enumerate(half) if t == 'x']
    rng.shuffle(order)
    angles = list(kw['set_of_angles'])
    fill = {k: rng.choice(angles) for k in order}
    for c in distinct:
        row = []
        if c < n_ref:
            inner = list(range(protected(kw), n_ref//2))
            gone = set(inner[len(inner) - (n_ref - c)//2:])
        else:
            gone = set()
        kept = order[:max(0, (c - n_ref)//2)]
        for k, t in enumerate(columns):
            if t == 'm':
                row.append(stack[n_ref//2])
            elif t == 'x':
                j = min(k, width - 1 - k)
                row.append(fill[j] if j in kept else -1)
            else:
                i = t if t >= 0 else -1 - t
                row.append(-1 if i in gone else stack[i])
        rows.append(row)
    return rows


def table_asym(kw, distinct, n_ref, stack, rng):
    width = distinct[-1]
    lo = protected(kw)
    spots = sorted(rng.sample(range(lo, width - lo), width - n_ref))
    order = spots[:]
    rng.shuffle(order)
    inner = [k for k in range(lo, width - lo) if k not in spots]
    rng.shuffle(inner)
    fill = {k: rng.choice(list(kw['set_of_angles'])) for k in spots}
    rows = []
    for c in distinct:
        gone = set(inner[:max(0, n_ref - c)])
        kept = set(order[:max(0, c - n_ref)])
        it = iter(stack)
        row = []
        for k in range(width):
            if k in fill:
                row.append(fill[k] if k in kept else -1)
            else:
                a = next(it)
                row.append(-1 if k in gone else a)
        rows.append(row)
    return rows


def prepare(case):
    from src.BELLA.obj_function import ObjFunction
    from src.BELLA.parameters import Parameters
    kw = case['kw']
    con = gen.build_constraints(kw)
    n_ref = case['n_ref']
    rng = random.Random(case['seed'])
    stack = ref.find_stack(kw, n_ref, rng)
    if stack is None or n_ref//2 < protected(kw) + (not kw['sym']):
        return None
    distinct = sorted({p['n_plies'] for p in case['data']['panels']})
    pos = {c: i for i, c in enumerate(distinct)}
    tg = [case['targets'][pos[p['n_plies']]] for p in case['data']['panels']]
    wt = [[w + (k in (0, 9) and not sum(case['weights'][
        pos[p['n_plies']]][:2])) for k, w in enumerate(
            case['weights'][pos[p['n_plies']]])]
          for p in case['data']['panels']]
    mp = structures.build(case['data'], con, tg, wt)
    # without limits, those of the other repair are kept tight
    big = 10**7
    lim = case['limits'] or (
        [1, 1, big, big] if case['thick'] else [big, big, 1, 1])
    par = Parameters(con, n_plies_ref_panel=n_ref, local_node_limit2=lim[0],
                     global_node_limit2=lim[1], local_node_limit3=lim[2],
                     global_node_limit3=lim[3])
    obj = ObjFunction(con, coeff_diso=case['coeff_diso'],
                      coeff_spacing=case['spacing'])
    mp.from_mp_to_blending_strip(con, n_ref)
    for p in mp.panels:
        p.filter_lampam_weightings(con, obj)
    for p in mp.reduced.panels:
        expect(p.n_plies in pos, 'unknown panel of %s plies', p.n_plies)
    # table: the columns dropped in the reference panel hold other plies
    if kw['sym']:
        rows = table_sym(kw, distinct, n_ref, stack, rng)
    else:
        rows = table_asym(kw, distinct, n_ref, stack, rng)
    return con, mp, par, obj, stack, distinct, rows


def lampam_of(stack, con):
    return cla_stub.lampam_of(np.array(stack))


def objective(stacks, distinct, mp, kw, coeff):
    "weighted objective of panels given by dict ply count -> stack"
    total = 0
    red = mp.reduced
    for i, c in enumerate(distinct):
        if c not in stacks:
            continue
        panel = red.panels[i]
        lam = lampam_of(stacks[c], None)
        val = float(sum(panel.lampam_weightings*(lam
                                                 - panel.lampam_target)**2))
        weight = sum(p.weighting for p in mp.panels if p.n_plies == c)
        total += weight*val*(1 + coeff*n_diso(list(stacks[c]), kw)/c)
    return total


class Tie(Exception):
    "two nodes too close to say which one is kept"


MARGIN = 1e-9


class Node:
    "rows of the panels designed so far, plies dropped, ply to compensate"

    def __init__(self, rows, gone=frozenset(), wait=None):
        self.rows, self.gone, self.wait = rows, gone, wait


def spacing_key(rows, mp, kw):
    "spacing penalty of every boundary between designed panels"
    if not kw['pdl_spacing']:
        return ()
    key = []
    for (i, j), w in sorted(mp.reduced.boundary_weights.items()):
        if rows[i] is None or rows[j] is None:
            continue
        both = [(a, b) for a, b in zip(rows[i], rows[j])
                if a != -1 or b != -1]
        key.append(w*ref.spacing_penalty(
            [a if a == -1 else b for a, b in both], kw['min_drop']))
    return tuple(key)


def select(items, limit, ties):
    """the `limit` items (value, key, node) of lowest value, in their order;
    with ties, also those equal to the last one"""
    if len(items) <= limit:
        return items
    order = sorted(range(len(items)), key=lambda k: items[k][0])
    last = items[order[limit - 1]]
    kept = set(order[:limit])
    for k in order[limit:]:
        v, key, _ = items[k]
        if v - last[0] > MARGIN*(1 + abs(v)):
            break
        if ties:
            if any(items[m][1] == key for m in kept):
                kept.add(k)
                continue
        elif all(items[m][1] == key for m in order[:limit]
                 if v - items[m][0] <= MARGIN*(1 + abs(v))):
            continue
        raise Tie
    if ties:
        # values equal up to rounding only
        low = last[0] - MARGIN*(1 + abs(last[0]))
        if len({items[m][1] for m in kept if items[m][0] >= low}) > 1:
            raise Tie
    return [items[k] for k in sorted(kept)]


def steps_of(distinct, i_ref, per, thick):
    "panel of each step, is it the first one of this panel?"
    todo = range(i_ref + 1, len(distinct)) if thick \
        else range(i_ref - 1, -1, -1)
    for i in todo:
        diff = abs(distinct[i] - distinct[i - 1 if thick else i + 1])
        for k in range(diff//per):
            yield i, k == 0


def thin_children(node, i, width, kw):
    lo, sym = protected(kw), kw['sym']
    for col in range(lo, width//2 if sym else width - lo):
        if col in node.gone:
            continue
        row = list(node.rows[i])
        angle = row[col]
        if node.wait is not None and angle != -node.wait:
            continue
        row[col] = -1
        if sym:
            row[width - 1 - col] = -1
        rows = list(node.rows)
        rows[i] = tuple(row)
        wait = angle if kw['bal'] and node.wait is None \
            and angle not in (0, 90) else None
        yield Node(rows, node.gone | {col}, wait)


def thick_children(node, i, kw, angles):
    lo, sym = protected(kw), kw['sym']
    n = len(node.rows[i])
    for pos in range(lo, (n//2 if sym else n - lo) + 1):
        for angle in angles:
            if node.wait is not None and angle != -node.wait:
                continue

            def insert(row, what):
                row = tuple(row)
                if sym:
                    return row[:pos] + (what,) + row[pos:n - pos] + (what,) \
                        + row[n - pos:]
                return row[:pos] + (what,) + row[pos:]
            rows = [None if r is None else insert(r, angle if k == i else -1)
                    for k, r in enumerate(node.rows)]
            wait = angle if kw['bal'] and node.wait is None \
                and angle not in (0, 90) else None
            yield Node(rows, node.gone, wait)


def beam(rows, i_ref, distinct, mp, kw, limits, coeff, thick, angles, ctx):
    """the rows of the panels designed by a search that keeps, of the children
    of a node then of all the nodes, those of lowest spacing penalty, then
    those of lowest objective; None if there is none"""
    local, everywhere = limits
    sym = kw['sym']
    cols = [k for k, a in enumerate(rows[i_ref]) if a != -1]
    if thick:
        start = [tuple(r[k] for k in cols) if i <= i_ref else None
                 for i, r in enumerate(rows)]
        nodes = [Node(start)]
    else:
        start = [tuple(r) if i == i_ref else None for i, r in enumerate(rows)]
        width = len(rows[0])
        nodes = [Node(start, frozenset(
            k for k, a in enumerate(rows[i_ref]) if a == -1))]
    todo = list(steps_of(distinct, i_ref, 1 + sym, thick))
    designed = range(i_ref + 1, len(rows)) if thick else range(i_ref)
    counts = {}
    for p in mp.panels:
        counts[p.n_plies] = counts.get(p.n_plies, 0) + p.weighting
    cuts = 0

    def stack(r):
        return tuple(a for a in r if a != -1)

    def scored(node):
        key = tuple(None if node.rows[j] is None else stack(node.rows[j])
                    for j in designed)
        total = 0
        for j, st_ in zip(designed, key):
            if st_ is None:
                continue
            panel = mp.reduced.panels[j]
            val = float(sum(panel.lampam_weightings*(
                lampam_of(st_, None) - panel.lampam_target)**2))
            if not thick:
                val *= 1 + coeff*n_diso(list(st_), kw)/len(st_)
            total += counts[distinct[j]]*val
        return total, key, node

    def spaced(node):
        key = spacing_key(node.rows, mp, kw)
        return sum(key), key, node
    for k, (i, first) in enumerate(todo):
        last = k == len(todo) - 1
        new = []
        for node in nodes:
            if first:
                node = Node(list(node.rows), node.gone, node.wait)
                node.rows[i] = node.rows[i - 1 if thick else i + 1]
            children = [spaced(c) for c in (
                thick_children(node, i, kw, angles) if thick else
                thin_children(node, i, width, kw))]
            cuts += len(children) > local
            children = select(children, local, ties=True)
            good = [scored(c) for _, _, c in children if keeps(
                list(stack(c.rows[i])), kw, diso=thick)]
            if not last:
                cuts += len(good) > local
                good = select(good, local, ties=False)
            new += good
        if not thick:
            new = [x for m, x in enumerate(new) if not any(
                x[2].rows == y[2].rows for y in new[m + 1:])]
        if not last:
            cuts += len(new) > everywhere
            keep = select([spaced(c) for _, _, c in new], everywhere,
                          ties=True)
            ids = {id(c) for _, _, c in keep}
            new = select([x for x in new if id(x[2]) in ids], everywhere,
                         ties=False)
        nodes = [c for _, _, c in new]
        if not nodes:
            return None, cuts
    best = select(new, 1, ties=False)[0][2]
    return best.rows, cuts


def check(case, ctx):
    from src.RELAY.thick_to_thin import repair_thick_to_thin
    from src.RELAY.thin_to_thick import repair_thin_to_thick
    made = prepare(case)
    if made is None:
        return
    con, mp, par, obj, stack, distinct, rows = made
    kw, thick, n_ref = case['kw'], case['thick'], case['n_ref']
    i_ref = distinct.index(n_ref)
    sst = np.array(rows)
    ss = [row[row != -1] for row in sst]
    expect(list(ss[i_ref]) == list(stack), 'harness: reference panel')
    lam = np.array([lampam_of(s, con) for s in ss])
    todo = distinct[i_ref + 1:] if thick else distinct[:i_ref][::-1]
    designs = None
    if not case['limits']:
        explore = explore_thick if thick else explore_thin
        designs, steps = explore(tuple(stack), todo, kw, 4000)
        if designs is None:
            return
    else:
        steps = abs(todo[-1] - n_ref)//(1 + kw['sym']) if todo else 0
    fn = repair_thin_to_thick if thick else repair_thick_to_thin
    ok, sst2, lam2, ss2 = fn(
        np.array(lam), np.array(sst), [np.array(s) for s in ss], mp, par, obj,
        con)
    label = 'thick' if thick else 'thin'
    wanted = False
    if case['limits'] and todo:
        try:
            wanted, cuts = beam(
                rows, i_ref, distinct, mp, kw, case['limits'][2:] if thick
                else case['limits'][:2], case['coeff_diso'], thick,
                [int(a) for a in con.set_of_angles], ctx)
        except Tie:
            ctx.label(label + ' tie')
        else:
            ctx.label('%s %d cuts' % (label, min(cuts, 3)))
            expect(ok == (wanted is not None), 'the search with the limits '
                   '%s %s a design of the panels %s around %s', case['limits'],
                   'finds' if ok else 'misses', todo, stack)
    if not ok:
        expect(designs is None or not designs,
               'no design of the panels %s around %s although %d designs '
               'satisfy the guidelines, such as %s', todo, stack, len(designs or ()),
               sorted(designs or ())[:1])
        ctx.label(label + ' none')
        return
    sst2 = [list(map(int, r)) for r in sst2]
    ss2 = [list(map(int, r)) for r in ss2]
    for i, c in enumerate(distinct):
        expect(ss2[i] == [p for p in sst2[i] if p != -1],
               'panel %d: stack %s but row %s', i, ss2[i], sst2[i])
        expect(len(ss2[i]) == c, 'panel of %d plies: %s', c, ss2[i])
        expect(not kw['sym'] or (
            ss2[i] == ss2[i][::-1] and sst2[i] == sst2[i][::-1]),
               'panel of %d plies is not symmetric: %s', c, sst2[i])
        expect_close(lam2[i], lampam_of(ss2[i], con), 1e-9,
                     'lamination parameters of the panel of %d plies', c)
    expect(len({len(r) for r in sst2}) == 1, 'rows of different lengths')
    expect(ss2[i_ref] == list(stack), 'reference panel %s changed to %s',
           stack, ss2[i_ref])
    if not thick:
        for i in range(i_ref, len(distinct)):
            expect(sst2[i] == rows[i], 'panel of %d plies changed: %s to %s',
                   distinct[i], rows[i], sst2[i])
    else:
        for i in range(i_ref):
            expect(ss2[i] == list(ss[i]), 'panel of %d plies changed: %s to '
                   '%s', distinct[i], list(ss[i]), ss2[i])
    for i in range(len(distinct) - 1):
        for a, b in zip(sst2[i], sst2[i + 1]):
            expect(a == -1 or a == b, 'ply %s of the panel of %d plies is not '
                   'in the next panel: %s / %s', a, distinct[i], sst2[i],
                   sst2[i + 1])
    got = tuple(tuple(ss2[distinct.index(c)]) for c in todo)
    if todo:
        expect(got in designs if designs is not None else
               reachable(stack, got, kw, thick), 'the design %s of the panels %s around %s '
               'breaks the guidelines', got, todo, stack)
    if wanted:
        want = tuple(tuple(a for a in wanted[distinct.index(c)] if a != -1)
                     for c in todo)
        expect(got == want, 'the search with the limits %s designs the panels '
               '%s around %s as %s instead of %s', case['limits'], todo, stack,
               got, want)
    if not case['limits']:
        coeff = 0 if thick else case['coeff_diso']
        value = {d: objective(dict(zip(todo, d)), distinct, mp, kw, coeff)
                 for d in designs}
        best = min(value, key=value.get)
        expect(value[got] <= value[best] + 1e-9*(1 + abs(value[best])),
               'panels %s around %s designed as %s with an objective of %s '
               'although %s has %s', todo, stack, got, value[got], best,
               value[best])
        ctx.nontrivial(len(designs) > 2 and steps > 1)
    else:
        ctx.nontrivial(steps > 1)
    ctx.label('%s %d steps %s' % (label, min(steps, 4),
                                  'bal' if kw['bal'] else ''))


SUBS = [
    Sub('thin-best', repair_case(False, False), check, 250, 4000,
        rule='several steps and more than two feasible designs'),
    Sub('thin-beam', repair_case(False, True), check, 500, 8000,
        rule='several steps'),
    Sub('thick-best', repair_case(True, False), check, 80, 1200,
        rule='several steps and more than two feasible designs'),
    Sub('thick-beam', repair_case(True, True), check, 250, 3000,
        rule='several steps'),
    Sub('asym-thin', repair_case(False, False, False), check, 120, 3000,
        rule='several steps and more than two feasible designs'),
    Sub('asym-thick', repair_case(True, False, False), check, 60, 1200,
        rule='several steps and more than two feasible designs'),
    Sub('asym-thin-beam', repair_case(False, True, False), check, 200, 4000,
        rule='several steps'),
    Sub('asym-thick-beam', repair_case(True, True, False), check, 120, 2000,
        rule='several steps'),
]
