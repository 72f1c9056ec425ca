"""P18 complete optimisation: feasible and blended designs"""
import numpy as np
from hypothesis import strategies as st
from pbt import bella, ref
from pbt.core import Sub, expect
from pbt.props import p29
from pbt.props.p28 import reference_ok, stacks_of


def designs(s):
    "the designs found: (ss, sst, number of the layout)"
    res = s.res
    for k, obj in enumerate(res.obj_constraints_tab):
        if not np.isnan(obj) and obj < 1e10:
            yield k, [list(map(int, x)) for x in res.ss_tab[k]], \
                [list(map(int, x)) for x in res.ss_tab_tab[k]]


def check_design(case, s, ss, sst, what):
    kw = case['kw']
    panels = case['data']['panels']
    n = len(panels)
    expect(len(ss) == n and len(sst) == n, '%s: %d stacks and %d rows for %d '
           'panels', what, len(ss), len(sst), n)
    expect(len({len(r) for r in sst}) == 1, '%s: rows of different lengths',
           what)
    expect(stacks_of(sst) == ss, '%s: stacks %s but table %s', what, ss, sst)
    for p, stack in zip(panels, ss):
        expect(len(stack) == p['n_plies'], '%s: panel of %d plies designed '
               'with %d: %s', what, p['n_plies'], len(stack), stack)
        expect(set(stack) <= set(kw['set_of_angles']), '%s: fibre angles of '
               '%s not allowed', what, stack)
        expect(not kw['sym'] or stack == stack[::-1], '%s: not symmetric: %s', what, stack)
    # blending: by increasing thickness, each ply continues in thicker panels
    order = sorted(range(n), key=lambda i: panels[i]['n_plies'])
    expect(len(sst[order[-1]]) == max(p['n_plies'] for p in panels),
           '%s: table of %d columns', what, len(sst[0]))
    for i, j in zip(order, order[1:]):
        for a, b in zip(sst[i], sst[j]):
            expect(a == -1 or a == b, '%s: ply %s of a panel of %d plies is '
                   'not in a panel of %d plies:\n%s\n%s', what, a,
                   panels[i]['n_plies'], panels[j]['n_plies'], sst[i], sst[j])
    for r in sst:
        expect(not kw['sym'] or r == r[::-1], '%s: ply drops not symmetric: %s', what, r)
        for c in range(kw['n_covering'] if kw['covering'] else 0):
            expect(r[c] != -1 and r[-1 - c] != -1, '%s: covering ply dropped: '
                   '%s', what, r)
    # guidelines
    distinct = sorted({p['n_plies'] for p in panels})
    stack_of = {len(x): x for x in ss}
    for x in ss:
        if kw['contig']:
            expect(ref.contig_ok(x, kw['n_contig']), '%s: contiguity broken '
                   'by %s', what, x)
        if kw['dam_tol']:
            expect(ref.dam_tol(x, kw['dam_tol_rule']), '%s: damage tolerance '
                   'broken by %s', what, x)
        if not case['kw'].get('rule_10_Abdalla'):
            expect(ref.ten_percent_ok(x, ref.percent_limits(kw)),
                   '%s: 10%% rule broken by %s', what, x)
    i_ref = s.mp.reduced.ind_ref
    n_ref = distinct[i_ref]
    wanted = case['params']['n_plies_ref_panel']
    around = {max([c for c in distinct if c <= wanted] or distinct[:1]),
              min([c for c in distinct if c >= wanted] or distinct[-1:])}
    expect(n_ref in around, '%s: reference panel of %d plies instead of %s '
           'among %s', what, n_ref, wanted, distinct)
    if kw.get('rule_10_Abdalla'):
        kw = dict(kw, rule_10_percent=False)
    reference_ok(stack_of[n_ref], 'the beam search', kw)
    for thick in (False, True):
        todo = distinct[i_ref + 1:] if thick else distinct[:i_ref][::-1]
        if todo:
            d = tuple(tuple(stack_of[c]) for c in todo)
            expect(p29.reachable(tuple(stack_of[n_ref]), d, kw, thick),
                   '%s: panels %s around %s break the guidelines', what, d,
                   stack_of[n_ref])


def check(case, ctx):
    s = bella.run(case)
    if s.res is None:
        ctx.label(s.why)
        return
    n = 0
    for k, ss, sst in designs(s):
        check_design(case, s, ss, sst, 'layout %d' % k)
        n += 1
    expect(n > 0, 'no feasible design but a result')
    check_design(case, s, [list(map(int, x)) for x in s.res.ss],
                 [list(map(int, x)) for x in s.res.sst], 'best')
    thick = {p['n_plies'] for p in case['data']['panels']}
    ctx.nontrivial(len(thick) > 1)
    ctx.label('%d thicknesses, %d designs' % (len(thick), n))
    ctx.label('asymmetric' if not case['kw']['sym'] else
              'odd' if min(thick) % 2 else 'even')


@st.composite
def free(draw):
    "no guideline which can prevent a design"
    case = draw(bella.problem())
    case['kw'].update(bal=False, dam_tol=False, diso=False, contig=False,
                      rule_10_percent=False)
    return case


def check_free(case, ctx):
    s = bella.run(case)
    if s.res is None:
        expect(s.why == 'no partition', 'no design without guidelines: %s',
               s.why)
        ctx.label(s.why)
        return
    for k, ss, sst in designs(s):
        check_design(case, s, ss, sst, 'layout %d' % k)
    expect(len(list(designs(s))) == len(s.res.obj_constraints_tab)
           or min(s.res.obj_constraints_tab) < 1e-12,
           'a layout without design although there is no guideline: %s',
           s.res.obj_constraints_tab)
    ctx.nontrivial(len({p['n_plies'] for p in case['data']['panels']}) > 1)


SUBS = [
    Sub('run', bella.problem(), check, 480, 12000,
        rule='a feasible design with panels of different thicknesses'),
    Sub('asym', bella.problem(sym=False), check, 160, 4000,
        rule='a feasible design with panels of different thicknesses'),
    Sub('large', bella.problem(max_half=20, wide=True), check, 80, 3000,
        rule='a feasible design with panels of different thicknesses'),
    Sub('free', free(), check_free, 160, 3000,
        rule='panels of different thicknesses'),
]
