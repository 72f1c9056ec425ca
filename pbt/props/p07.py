"""P07 manufacturability checks of a stack and of a stacking sequence table"""
import random
import numpy as np
from hypothesis import strategies as st
from pbt import gen, ref, structures
from pbt.cla_stub import lampam_of
from pbt.core import Sub, expect


@st.composite
def stack_case(draw):
    kw = draw(gen.constraint_kwargs(max_extra=1))
    n = draw(gen.size(4, 28, 70))
    rng = random.Random(draw(st.integers(0, 10**6)))
    stack = ref.find_stack(kw, n, rng, nodes=400)
    if stack is None or draw(st.sampled_from([False]*6 + [True])):
        stack = draw(gen.stacks(kw['set_of_angles'], n, n))
        if kw['sym']:
            stack[n - n//2:] = stack[:n//2][::-1]
    edit = draw(st.sampled_from(['none', 'none', 'swap', 'swap', 'change']))
    if edit == 'swap':
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        stack[i], stack[j] = stack[j], stack[i]
    elif edit == 'change':
        stack[draw(st.integers(0, n - 1))] = draw(
            st.sampled_from(kw['set_of_angles']))
    return dict(kw=kw, stack=stack, no_bal=draw(st.booleans()),
                no_ipo=draw(st.booleans()),
                wrong_n=draw(st.sampled_from([0, 0, 0, 0, 1])))


def check_stack(case, ctx):
    from src.guidelines.one_stack import check_lay_up_rules
    kw, stack = case['kw'], case['stack']
    con = gen.build_constraints(kw)
    broken = set(ref.broken_rules(stack, kw)) - {'sym'}
    if kw['bal'] and (abs(lampam_of(stack)[2:4]) > 1e-10).any():
        broken.add('ipo')
    if case['no_bal']:
        broken.discard('bal')
    if case['no_ipo']:
        broken.discard('ipo')
    if case['wrong_n']:
        broken.add('n_plies')
    active = sum(bool(kw.get(k)) for k in (
        'bal', 'dam_tol', 'diso', 'contig', 'rule_10_percent'))
    ctx.nontrivial(active >= 2 and len(broken) <= 1)
    ctx.label('+'.join(sorted(broken)) if len(broken) <= 1 else 'several')
    try:
        res = check_lay_up_rules(
            gen.ints(stack), con, no_ipo_check=case['no_ipo'],
            no_bal_check=case['no_bal'],
            n_plies=len(stack) + case['wrong_n'])
        accepted = True
    except Exception as exc:
        if not any(t in str(exc) for t in (
                'not satisfied', 'Wrong number of plies')):
            raise
        accepted, res = False, 0
    expect(accepted == (not broken), 'lay-up rules %s %s, broken rules: %s',
           'accepted' if accepted else 'rejected', stack, sorted(broken))
    expect(res == 0, 'return value %r', res)


@st.composite
def drop_case(draw):
    sym = draw(st.booleans())
    data = draw(st.one_of(*[structures.panel_graphs(
        sym, 2, 4, lo=6, hi=18)]*4 + [structures.panel_graphs(
            sym, 2, 7, lo=6, hi=50)]))
    counts = sorted({p['n_plies'] for p in data['panels']})
    rows = draw(structures.nested_layouts(counts, sym))
    return dict(data=data, sym=sym, rows=rows, min_drop=draw(
        st.integers(1, 3)), covering=draw(st.booleans()),
        spacing=draw(st.booleans()), n_covering=draw(st.integers(0, 2)))


def check_drops(case, ctx):
    from src.guidelines.one_stack import check_ply_drop_rules
    con = gen.build_constraints(dict(
        sym=case['sym'], covering=case['covering'],
        n_covering=case['n_covering'] if case['covering'] else 0,
        pdl_spacing=case['spacing'], min_drop=case['min_drop'],
        set_of_angles=gen.BASE), noise=case.get('noise', 0))
    data, rows = case['data'], case['rows']
    mp = structures.build(data, con)
    mp.from_mp_to_blending_strip(con, n_plies_ref_panel=1)
    counts = [sum(p != -1 for p in r) for r in rows]
    k = con.n_covering if case['covering'] else 0
    cover_bad = any(-1 in r[:k] + (r[-k:] if k else []) for r in rows)
    spacing = 0
    by_count = dict(zip(counts, rows))
    for i, j in data['edges']:
        ci, cj = (data['panels'][i]['n_plies'], data['panels'][j]['n_plies'])
        if ci != cj and case['spacing']:
            thin, thick = by_count[min(ci, cj)], by_count[max(ci, cj)]
            spacing += ref.spacing_penalty(
                [a for a, b in zip(thin, thick) if b != -1],
                case['min_drop'])
    want = not cover_bad and not spacing
    ctx.nontrivial((case['covering'] or case['spacing']) and len(rows) > 1)
    ctx.label('ok' if want else
              ('covering' if cover_bad else 'spacing'))
    try:
        check_ply_drop_rules(np.array(rows), mp, con, reduced=True)
        accepted = True
    except Exception as exc:
        if 'not satisfied' not in str(exc):
            raise
        accepted = False
    expect(accepted == want, 'ply-drop rules (covering %s x%d, spacing %s/%d) '
           '%s the table %s', case['covering'], k, case['spacing'],
           case['min_drop'], 'accepted' if accepted else 'rejected', rows)


SUBS = [
    Sub('stack', stack_case(), check_stack, 3000, 60000,
        rule='two or more active rules, at most one of them broken'),
    Sub('drops', gen.noisy(drop_case()), check_drops, 2500, 50000,
        rule='covering or spacing active, panels of different thickness')]
