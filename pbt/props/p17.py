"""P17 orientations kept when a ply is added during the guided search"""
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref
from pbt.core import Sub, expect


@st.composite
def case_(draw, layla=False):
    kw = draw(gen.constraint_kwargs(
        sym=True, max_extra=2,
        percent_mode='combined' if layla else None))
    half = draw(gen.size(3, 14, 30))
    middle = draw(st.sampled_from([False, False, True]))
    picks = draw(st.lists(st.integers(0, 30), min_size=half + 1,
                          max_size=half + 1))
    sticky = draw(st.booleans())
    cuts = draw(st.lists(st.integers(2, 12), max_size=3))
    return dict(kw=kw, half=half, middle=middle, picks=picks, sticky=sticky,
                cuts=cuts)


def feasible(kw, plies, new, last, middle):
    """may the orientation follow these outer plies?  None: free choice left
    to the search"""
    level = len(plies)
    s = list(plies) + [new]
    if kw['dam_tol'] and level == 0:
        return abs(new) == 45
    if kw['dam_tol'] and level == 1 and kw['dam_tol_rule'] > 1:
        if abs(new) != 45:
            return False
        if new != -plies[0]:
            return False if kw['dam_tol_rule'] == 2 else None
        return True
    if last and middle and new not in (0, 90):
        return False
    if kw['diso'] and plies and ref.diso_angle(
            plies[-1], new) > kw['delta_angle']:
        return False
    if kw['contig']:
        if last:
            s = s + (s[:-1] if middle else s)[::-1]
        return ref.contig_ok(s, kw['n_contig'])
    return True


def walk(case, ctx, step):
    kw, half, middle = case['kw'], case['half'], case['middle']
    n_levels = half + middle
    plies = []
    seen = 0
    for level in range(n_levels):
        last = level == n_levels - 1
        kept = step(level, list(plies), last)
        kept = [] if kept is None else [int(a) for a in kept]
        verdict = {a: feasible(kw, plies, a, last, middle)
                   for a in kw['set_of_angles']}
        free = {a for a in verdict if verdict[a] is None}
        want = {a for a in verdict if verdict[a]}
        expect(len(kept) == len(set(kept)), 'orientations %s repeated', kept)
        expect(want <= set(kept) <= want | free,
               'after the plies %s%s orientations %s are kept, expected %s',
               plies, ' (last ply, %s)' % (
                   'middle ply' if middle else 'no middle ply')
               if last else '', sorted(kept), sorted(want))
        seen += 0 < len(kept) < len(verdict)
        if not kept:
            ctx.label('dead end')
            break
        pick = case['picks'][level]
        if case['sticky'] and plies and plies[-1] in kept and pick % 4:
            plies.append(plies[-1])
        else:
            plies.append(sorted(kept)[pick % len(kept)])
    ctx.nontrivial(seen >= 2)
    ctx.label('%d levels' % (10*(n_levels//10)))


def check_bella(case, ctx):
    from src.BELLA.pruning import pruning_diso_contig_damtol as prune
    con = gen.build_constraints(case['kw'])
    n_levels = case['half'] + case['middle']

    def step(level, plies, last):
        return prune(child_ss=np.copy(con.set_of_angles),
                     mother_ss_bot=gen.ints(plies), level=level,
                     constraints=con, has_middle_ply=case['middle'],
                     n_plies_to_optimise=n_levels)
    walk(case, ctx, step)


def check_layla(case, ctx):
    from src.LAYLA_V02.pruning import pruning_diso_contig_damtol as prune
    from src.LAYLA_V02.targets import Targets
    con = gen.build_layla_constraints(case['kw'])
    n_levels = case['half'] + case['middle']
    targets = Targets(n_plies=2*case['half'] + case['middle'])
    starts = [0]
    for c in case['cuts']:
        if starts[-1] + c < n_levels:
            starts.append(starts[-1] + c)

    def step(level, plies, last):
        start = max(s for s in starts if s <= level)
        before = plies[:start]
        if (case['kw']['contig'] or case['kw']['diso']) \
        and len(before) > con.n_contig:
            before = before[-con.n_contig:]
        return prune(child_ss=np.copy(con.set_of_angles),
                     mother_ss_bot=gen.ints(plies[start:]),
                     ss_bot_simp=gen.ints(before), level=level,
                     constraints=con, targets=targets)
    walk(case, ctx, step)


@st.composite
def asym_case(draw, layla=False):
    kw = draw(gen.constraint_kwargs(
        sym=False, max_extra=2, percent_mode='combined' if layla else None))
    n = draw(st.integers(6, 20))
    picks = draw(st.lists(st.integers(0, 30), min_size=n, max_size=n))
    return dict(kw=kw, n=n, picks=picks, sticky=draw(st.booleans()),
                layla=layla, cuts=draw(st.lists(
                    st.integers(4, 12), max_size=3)) if layla else [])


def feasible_asym(kw, bot, top, new, level, last):
    "same as feasible, for plies alternately added below and above"
    side = bot if level % 2 == 0 else top[::-1]
    if kw['dam_tol'] and level < 2:
        return abs(new) == 45
    if kw['dam_tol'] and level < 4 and kw['dam_tol_rule'] > 1:
        if abs(new) != 45:
            return False
        if new != -side[0]:
            return False if kw['dam_tol_rule'] == 2 else None
        return True
    if kw['diso']:
        near = side[-1:] + (bot[-1:] + top[:1] if last else [])
        if any(ref.diso_angle(a, new) > kw['delta_angle'] for a in near):
            return False
    if kw['contig']:
        if last:
            return ref.contig_ok(bot + [new] + top, kw['n_contig'])
        return ref.contig_ok(side + [new], kw['n_contig'])
    return True


def prune_bella(case):
    from src.BELLA.pruning import pruning_diso_contig_damtol as prune
    con = gen.build_constraints(case['kw'])

    def step(level, bot, top):
        return prune(child_ss=np.copy(con.set_of_angles),
                     mother_ss_bot=gen.ints(bot), mother_ss_top=gen.ints(top),
                     level=level, constraints=con,
                     n_plies_to_optimise=case['n'])
    return step


def prune_layla(case):
    "plies of earlier groups are given apart"
    from src.LAYLA_V02.pruning import pruning_diso_contig_damtol as prune
    from src.LAYLA_V02.targets import Targets
    con = gen.build_layla_constraints(case['kw'])
    n = case['n']
    starts = [0]
    for c in case['cuts']:
        if starts[-1] + c <= n - 4:
            starts.append(starts[-1] + c)

    def step(level, bot, top):
        start = max(s for s in starts if s <= level)
        b, t = (start + 1)//2, start//2
        bot1, bot2, top1 = bot[:b], bot[b:], top[:len(top) - t]
        top2 = top[len(top) - t:]
        if case['kw']['contig'] or case['kw']['diso']:
            bot1 = bot1[-con.n_contig:]
            top2 = top2[:con.n_contig]
        return prune(child_ss=np.copy(con.set_of_angles),
                     mother_ss_bot=gen.ints(bot2), ss_bot_simp=gen.ints(bot1),
                     mother_ss_top=gen.ints(top1), ss_top_simp=gen.ints(top2),
                     level=n - 1 - level//2 if level % 2 else level//2,
                     constraints=con, targets=Targets(n_plies=n))
    return step


def check_asym(case, ctx):
    kw, n = case['kw'], case['n']
    step = (prune_layla if case.get('layla') else prune_bella)(case)
    bot, top = [], []
    seen = 0
    for level in range(n):
        last = level == n - 1
        kept = step(level, list(bot), list(top))
        kept = [] if kept is None else [int(a) for a in kept]
        verdict = {a: feasible_asym(kw, bot, top, a, level, last)
                   for a in kw['set_of_angles']}
        free = {a for a in verdict if verdict[a] is None}
        want = {a for a in verdict if verdict[a]}
        expect(len(kept) == len(set(kept)), 'orientations %s repeated', kept)
        expect(want <= set(kept) <= want | free,
               'between the plies %s and %s orientations %s are kept, '
               'expected %s', bot, top, sorted(kept), sorted(want))
        seen += 0 < len(kept) < len(verdict)
        if not kept:
            ctx.label('dead end')
            break
        pick = case['picks'][level]
        side = bot[-1:] if level % 2 == 0 else top[:1]
        new = side[0] if case['sticky'] and side and side[0] in kept \
            and pick % 4 else sorted(kept)[pick % len(kept)]
        if level % 2 == 0:
            bot.append(new)
        else:
            top.insert(0, new)
    ctx.nontrivial(seen >= 2)


SUBS = [
    Sub('asym', asym_case(), check_asym, 1600, 40000,
        rule='at least two levels where some orientations are pruned and '
        'some kept'),
    Sub('layla_asym', asym_case(layla=True), check_asym, 1600, 40000,
        rule='at least two levels where some orientations are pruned and '
        'some kept'),
    Sub('bella', case_(), check_bella, 3000, 60000,
        rule='at least two levels where some orientations are pruned and '
        'some kept'),
    Sub('layla', case_(layla=True), check_layla, 3000, 60000,
        rule='at least two levels where some orientations are pruned and '
        'some kept')]
