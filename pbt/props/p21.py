"""P21 saved results: the workbook agrees with the designs"""
import copy
import os
import tempfile
import numpy as np
from hypothesis import strategies as st
from pbt import bella, ref, gen, structures, cla_stub
from pbt.core import Sub, expect, expect_close
from pbt.props.p19 import spacing, target, weightings
from pbt.props.p29 import n_diso

MAT = dict(E11=141e9, E22=9.03e9, nu12=.32, G12=4.27e9, ply_t=.00019)
DENSITY = 300.5


def book(filename):
    "content of a workbook: rows of each sheet"
    from openpyxl import load_workbook
    wb = load_workbook(filename)
    return {ws.title: [list(r) for r in ws.iter_rows(values_only=True)]
            for ws in wb.worksheets}


def pairs(rows, sheet):
    "key-value sheet"
    out = {}
    for row in rows:
        expect(len([v for v in row if v is not None]) <= 2, 'sheet %s: row %s',
               sheet, row)
        expect(row[0] not in out, 'sheet %s: %s twice', sheet, row[0])
        out[row[0]] = row[1]
    return out


def tables(rows, first):
    "tables stacked in one sheet, as lists of dictionaries"
    out = []
    for row in rows:
        if row[0] == first:
            head = row
            expect(len(set(h for h in head if h is not None))
                   == len([h for h in head if h is not None]),
                   'repeated columns %s', head)
            out.append([])
        else:
            out[-1].append({h: v for h, v in zip(head, row)
                            if h is not None})
    return out


def same(got, want, tol, msg, *args):
    "numbers and Booleans of a sheet"
    expect(got is not None and not isinstance(got, str), msg + ': %s',
           *args, got)
    expect_close(float(got), float(want), tol*(1 + abs(float(want))), msg,
                 *args)


def ints(text):
    return [int(float(t)) for t in str(text).split()]


def design_row(case, i, stack, sst, mat, buckling):
    "expected values of the row of a panel"
    kw = case['kw']
    panel = case['data']['panels'][i]
    n = len(stack)
    lam = cla_stub.lampam_of(np.array(stack))
    diso = n_diso(stack, kw)
    contig = ref.contig_windows(
        stack, kw['n_contig']) if kw['contig'] else 0
    limits = ref.percent_limits(kw)
    out = {
        'index panel': i + 1, 'n_plies': n, 'n_violations_diso': diso,
        'n_violations_contig': contig,
        'ipo: |lampam[3]| + |lampam[4]|': abs(lam[2]) + abs(lam[3]),
        'oopo: |lampam[11]| + |lampam[12]|': abs(lam[10]) + abs(lam[11]),
        'percentage_0_plies': stack.count(0)/n,
        'percentage_90_plies': stack.count(90)/n,
        'percentage_+45_plies': stack.count(45)/n,
        'percentage_-45_plies': stack.count(-45)/n,
        'percentage_+-45_plies': (stack.count(45) + stack.count(-45))/n,
        'penalty_diso': diso/n, 'penalty_contig': contig/n,
        'penalty_ipo': (abs(lam[2]) + abs(lam[3]))/2 if kw['bal'] else 0,
        'penalty_oopo': (abs(lam[10]) + abs(lam[11]))/2 if kw['oopo'] else 0}
    if not kw.get('rule_10_Abdalla'):
        out['penalty_10'] = ref.ten_percent_penalty(stack, limits) \
            if limits else 0
    for a in kw['set_of_angles']:
        out['n_%dplies' % a] = stack.count(a)
    t = target(case, i)
    for k in range(12):
        out['lampam[%d]' % (k + 1)] = lam[k]
        out['lampam_error[%d]' % (k + 1)] = abs(lam[k] - t[k])
    if mat:
        d = ref.stiffness(stack, MAT, 3)
        out['gamma'] = abs(d[0, 2])/(d[0, 0]**3*d[1, 1])**.25
        out['delta'] = abs(d[1, 2])/(d[0, 0]*d[1, 1]**3)**.25
    if buckling:
        out['n_plies_'] = n
        out['lambda buckling'] = ref.buckling(
            stack, MAT, panel.get('N_x', 1), panel.get('N_y', 1),
            panel['length_x'], panel['length_y'])
    return out


def check_table(case, s, rows, k, what, save_buckling, ss=None, sst=None,
                extra=()):
    "one table of designs against the results"
    res = s.res
    ss = ss or [list(map(int, x)) for x in res.ss_tab[k]]
    sst = sst if sst is not None \
        else [list(map(int, x)) for x in res.ss_tab_tab[k]]
    expect(len(rows) == len(ss), '%s: %d rows for %d panels', what,
           len(rows), len(ss))
    for i, (row, stack) in enumerate(zip(rows, ss)):
        at = '%s, panel %d, column %%s' % (what, i)
        expect(ints(row['stacking sequences']) == stack, '%s: stack %s '
               'instead of %s', what, row['stacking sequences'], stack)
        expect(ints(row['stacking sequences with ply drops included'])
               == sst[i], '%s: stack with drops %s instead of %s', what,
               row['stacking sequences with ply drops included'], sst[i])
        want = design_row(case, i, stack, sst[i], case['mat'], save_buckling)
        known = set(want)
        for name, value in want.items():
            expect(name in row, '%s: no column %s', what, name)
            same(row[name], value, 1e-9, at, name)
        if 'penalty_10' not in want:
            expect(row['penalty_10'] >= 0, at, 'penalty_10')
            x, y = want['lampam[1]'], want['lampam[2]']
            r = 1 - 4*case['kw']['percent_Abdalla']/100
            slack = min(r*(r + y) - 2*x*x, r - y)
            expect(abs(slack) < 1e-6
                   or (row['penalty_10'] > 0) == (slack < 0), at,
                   'penalty_10')
            known.add('penalty_10')
        first = {'obj_constraints': res.obj_constraints_tab[k],
                 'n_obj_func_calls': res.n_obj_func_calls_tab[k],
                 'penalty_spacing': res.penalty_spacing_tab[k]}
        for name, value in first.items():
            if i == 0 and not np.isnan(value):
                same(row[name], value, 1e-9, at, name)
            else:
                expect(row.get(name) is None, at + ': %s', name,
                       row.get(name))
        value = res.obj_no_constraints_tab[k][i]
        if not np.isnan(value):
            same(row['obj_no_constraints'], value, 1e-9, at,
                 'obj_no_constraints')
        left = set(row) - known - set(first) - set(extra) - {
            'stacking sequences', 'obj_no_constraints', 'penalty_10',
            'stacking sequences with ply drops included', 'penalty_spacing'}
        expect(not left, '%s: columns %s', what, sorted(left))


def check_layout(case, rows, what):
    "initial ply-drop layout of a design"
    pdl = [ints(r['initial ply drop layout']) for r in rows]
    counts = [p['n_plies'] for p in case['data']['panels']]
    top = max(counts)
    for row, n in zip(pdl, counts):
        expect(len(row) == top and len(row) - row.count(-1) == n,
               '%s: ply-drop layout %s for %d plies', what, row, n)
    for a, n in zip(pdl, counts):
        for b, m in zip(pdl, counts):
            if n <= m:
                expect(all(x == -1 or y != -1 for x, y in zip(a, b)),
                       '%s: layouts %s and %s', what, a, b)


def constraints_sheet(case, got):
    kw = case['kw']
    ten = bool(kw['rule_10_percent'])
    lp = ten and bool(kw.get('rule_10_Abdalla'))
    want = {'symmetry': kw['sym'], 'balance': kw['bal'],
            'out-of-plane orthotropy': kw['oopo'],
            'damage tolerance': kw['dam_tol'],
            '10% rule': ten, '10% rule applied on LPs': lp,
            '10% rule applied on ply percentages': ten and not lp,
            'diso': kw['diso'], 'contig': kw['contig'],
            'number fibre orientations': len(kw['set_of_angles']),
            'ply drop spacing rule': kw['pdl_spacing']}
    if kw['dam_tol']:
        want['dam_tol_rule'] = kw['dam_tol_rule']
    if kw['diso']:
        want['delta_angle'] = kw['delta_angle']
    if kw['contig']:
        want['n_contig'] = kw['n_contig']
    if kw['pdl_spacing']:
        want['minimum number of continuous plies between ply drops'] \
            = kw['min_drop']
    want['percentage limit when rule applied on LPs'] \
        = kw['percent_Abdalla'] if lp else 0
    names = {0: 'percent_0', 90: 'percent_90', 45: 'percent_45',
             -45: 'percent_-45', 'both': 'percent_+-45'}
    limits = ref.percent_limits(kw)
    for angle, name in names.items():
        want[name] = float(100*limits[angle]) if limits else 0
    for name, value in want.items():
        expect(name in got, 'sheet Constraints: no %s', name)
        same(got[name], value, 1e-9, 'sheet Constraints: %s', name)
    expect(sorted(ints(got['fibre orientations']))
           == sorted(kw['set_of_angles']), 'sheet Constraints: '
           'orientations %s', got['fibre orientations'])


def setup_sheets(case, s, content, mat):
    data = case['data']
    panels = data['panels']
    constraints_sheet(case, pairs(content['Constraints'], 'Constraints'))
    got = pairs(content['Objective function'], 'Objective function')
    for name, rule in (('contig', 'contig'), ('diso', 'diso'),
                       ('10', 'rule_10_percent'), ('bal_ipo', 'bal'),
                       ('oopo', 'oopo'), ('spacing', 'pdl_spacing')):
        same(got['coeff_' + name], case['coeffs']['coeff_' + name]
             if case['kw'][rule] else 0, 1e-9,
             'sheet Objective function: %s', name)
    got = pairs(content['Parameters'], 'Parameters')
    names = {'number of initial ply drops': s.n_layouts,
             'minimum group size': case['params']['group_size_min'],
             'maximum group size': case['params']['group_size_max'],
             'time_limit_group_pdl': 1, 'time_limit_all_pdls': 1,
             'input number of plies in reference panel':
             case['params']['n_plies_ref_panel']}
    for name in case['params']:
        if 'node_limit' in name or name in ('n_D1', 'n_D2', 'n_D3', 'p_A') \
                or name.startswith('repair'):
            names[name] = case['params'][name]
    for name, value in names.items():
        expect(name in got, 'sheet Parameters: no %s', name)
        same(got[name], value, 1e-9, 'sheet Parameters: %s', name)
    expect(('Materials' in content) == mat, 'sheet Materials')
    if mat:
        got = pairs(content['Materials'], 'Materials')
        q = ref.stiffness([0], dict(MAT, ply_t=1), 1)
        want = {'E11': MAT['E11'], 'E22': MAT['E22'], 'G12': MAT['G12'],
                'nu12': MAT['nu12'],
                'nu21': MAT['nu12']*MAT['E22']/MAT['E11'],
                'areal density': DENSITY,
                'volumic density': DENSITY/MAT['ply_t'],
                'ply thickness': MAT['ply_t'], 'Q11': q[0, 0],
                'Q12': q[0, 1], 'Q22': q[1, 1], 'Q66': q[2, 2]}
        for name, value in want.items():
            same(got[name], value, 1e-9, 'sheet Materials: %s', name)
        # the invariants give the stiffness of a ply at any angle
        u = [got['U%d' % k] for k in range(1, 6)]
        for a in (0, 90, 30):
            q = ref.stiffness([a], dict(MAT, ply_t=1), 1)
            c2, c4 = np.cos(np.deg2rad(2*a)), np.cos(np.deg2rad(4*a))
            for k, (value, want) in enumerate((
                    (u[0] + u[1]*c2 + u[2]*c4, q[0, 0]),
                    (u[3] - u[2]*c4, q[0, 1]), (u[4] - u[2]*c4, q[2, 2]))):
                same(value, want, 1e-9, 'sheet Materials: invariants, '
                     'stiffness %d at %d degrees', k, a)
    got = pairs(content['Multipanel'], 'Multipanel')
    areas = [p['length_x']*p['length_y'] for p in panels]
    plies = [p['n_plies'] for p in panels]
    want = {'Number of panels': len(panels),
            'Number of plies max': max(plies), 'Area': sum(areas),
            'Area of all patches': sum(np.multiply(areas, plies))}
    if mat:
        want['Weight'] = DENSITY*sum(np.multiply(areas, plies))
    for name, value in want.items():
        same(got[name], value, 1e-9, 'sheet Multipanel: %s', name)
    expect(plies[int(got['Index of one thickest panel'])] == max(plies),
           'sheet Multipanel: thickest panel')
    rows = content['Panels']
    head, rows = rows[0], rows[1:]
    expect(len(rows) == len(panels), 'sheet Panels: %d rows', len(rows))
    links = {i: set() for i in range(len(panels))}
    for i, j in data['edges']:
        links[i].add(panels[j]['ID'])
        links[j].add(panels[i]['ID'])
    union = [set() for _ in panels]
    ids = [p['ID'] for p in panels]
    out = []
    for i, row in enumerate(rows):
        row = dict(zip(head, row))
        out.append(row)
        want = {'Panel ID': ids[i], 'Number of plies': plies[i],
                'Weighting in MP objective funtion': panels[i]['weighting'],
                'Length_x': panels[i]['length_x'],
                'Length_y': panels[i]['length_y'], 'Area': areas[i],
                'N_x': panels[i].get('N_x', 1), 'N_y': panels[i].get('N_y', 1)}
        if mat:
            want['Weight'] = DENSITY*areas[i]*plies[i]
        for name, value in want.items():
            expect(name in row, 'sheet Panels: no column %s', name)
            same(row[name], value, 1e-9, 'sheet Panels, panel %d: %s', i,
                 name)
        near = set(ints(row['Neighbour panel IDs'] or ''))
        expect(near <= links[i], 'sheet Panels, panel %d: neighbours %s, '
               'expected among %s', i, near, links[i])
        for j in near:
            union[i].add(j)
            union[ids.index(j)].add(ids[i])
    for i in range(len(panels)):
        expect(union[i] == links[i], 'sheet Panels: neighbours of panel %d '
               '%s instead of %s', i, union[i], links[i])
    return out


def check_panels_targets(case, rows):
    for i, row in enumerate(rows):
        t, w = target(case, i), weightings(case, i)
        ini = np.array(case['weights'][i], float)
        for k in range(12):
            same(row['lampam_target[%d]' % (k + 1)], t[k], 1e-9,
                 'sheet Panels, panel %d: target %d', i, k)
            same(row['lampam_weightings[%d]' % (k + 1)], w[k], 1e-9,
                 'sheet Panels, panel %d: weighting %d', i, k)
            same(row['lampam_weightings_ini[%d]' % (k + 1)],
                 ini[k], 1e-9, 'sheet Panels, panel %d: initial '
                 'weighting %d', i, k)


@st.composite
def saved(draw):
    case = draw(bella.problem(max_panels=4, max_half=9))
    for p in case['data']['panels']:
        p['N_x'] = draw(st.sampled_from([1, 2.5, 100]))
        p['N_y'] = draw(st.sampled_from([0, 1, 30]))
    case['save_buckling'] = case['mat'] and draw(st.booleans())
    return case


def with_buckling(case):
    tools = bella.build(case)
    tools.par.save_buckling = case['save_buckling']
    return tools


def check_report(case, ctx):
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'results.xlsx')
        s = bella.run(case, with_buckling(case), filename=name, save=True)
        if s.res is None:
            ctx.label(s.why)
            return
        expect(os.path.exists(name), 'no file saved')
        content = book(name)
    res = s.res
    s.n_layouts = len(res.obj_constraints_tab)
    want = {'Constraints', 'Parameters', 'Objective function', 'Multipanel',
            'Panels', 'Results', 'Best Result'}
    if case['mat']:
        want.add('Materials')
    expect(set(content) == want, 'sheets %s', sorted(content))
    rows = setup_sheets(case, s, content, case['mat'])
    check_panels_targets(case, rows)
    found = [k for k, o in enumerate(res.obj_constraints_tab)
             if not np.isnan(o)]
    got = tables(content['Results'], 'obj_constraints')
    expect(len(got) == len(found), 'sheet Results: %d tables for %d designs',
           len(got), len(found))
    for k, table in zip(found, got):
        what = 'sheet Results, layout %d' % k
        check_table(case, s, table, k, what, case['save_buckling'],
                    extra=['initial ply drop layout'])
        check_layout(case, table, what)
    best = tables(content['Best Result'], 'time (s)')
    expect(len(best) == 1, 'sheet Best Result: %d tables', len(best))
    check_table(case, s, best[0], res.ind_mini, 'sheet Best Result',
                case['save_buckling'],
                extra=['initial ply drop layout', 'time (s)'])
    same(best[0][0]['time (s)'], res.time, 1e-9, 'sheet Best Result: time')
    check_layout(case, best[0], 'sheet Best Result')
    expect(best[0][0]['obj_constraints'] == min(
        t[0]['obj_constraints'] for t in got), 'sheet Best Result: objective '
           '%s', best[0][0]['obj_constraints'])
    i = found.index(res.ind_mini)
    for a, b in zip(got[i], best[0]):
        for key in a:
            expect(a[key] == b[key], 'sheets Results and Best Result: %s',
                   key)
    ctx.nontrivial(len(found) > 1 or len(set(
        p['n_plies'] for p in case['data']['panels'])) > 1)
    ctx.label('%d designs' % len(found))



@st.composite
def tabled(draw):
    "a structure with a table of stacking sequences"
    case = draw(saved())
    data, kw = case['data'], case['kw']
    counts = [p['n_plies'] for p in data['panels']]
    width = max(counts)
    rows = draw(structures.nested_layouts(counts, kw['sym'], width))
    angle = st.sampled_from(list(kw['set_of_angles']))
    # a few angles dominate, so that all guidelines are broken at times
    pool = draw(st.lists(angle, min_size=1, max_size=6))
    top = draw(st.lists(st.sampled_from(pool), min_size=width,
                        max_size=width))
    if kw['sym']:
        top = top[:(width + 1)//2]
        top = top + top[::-1][width % 2:]
    case['sst'] = [[-1 if x == -1 else top[x] for x in row] for row in rows]
    case['penalties'] = draw(st.booleans())
    return case


def check_setup(case, ctx):
    from src.BELLA.results import BELLA_Results, BELLA_ResultsOnePdl
    from src.BELLA.save_result import save_result_BELLAs
    from src.BELLA.save_set_up import save_multipanel
    kw, mat = case['kw'], case['mat']
    s = bella.build(case)
    s.mp.filter_target_lampams(s.con, s.obj)
    s.mp.filter_lampam_weightings(s.con, s.obj)
    s.mp.from_mp_to_blending_strip(s.con, 1)
    sst = np.array(case['sst'])
    ss = [[int(a) for a in row if a != -1] for row in case['sst']]
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'set-up.xlsx')
        save_multipanel(name, s.mp, s.obj, sst=sst,
                        calc_penalties=case['penalties'],
                        constraints=s.con, mat=s.mat,
                        save_buckling=case['save_buckling'])
        one = BELLA_ResultsOnePdl()
        one.ss = [np.array(x) for x in ss]
        one.sst = sst
        one.penalty_spacing = spacing(case, s.mp, case['sst'])
        for key in ('n_diso', 'n_contig', 'penalty_diso', 'penalty_contig',
                    'penalty_10', 'penalty_bal_ipo', 'penalty_oopo'):
            setattr(one, key, np.zeros(len(ss)))
        s.res = BELLA_Results(s.con, s.mp)
        s.res.update(0, one)
        if mat:
            save_result_BELLAs(name, s.mp, s.con, None, s.obj, None, s.res,
                               s.mat, only_best=True)
        content = book(name)
    rows = content['Panels']
    got = pairs(content['Multipanel'], 'Multipanel')
    expect(('Penalty spacing' in got) == case['penalties'],
           'sheet Multipanel: penalties')
    if case['penalties']:
        same(got['Penalty spacing'], spacing(case, s.mp, case['sst']), 1e-9,
             'sheet Multipanel: spacing penalty of %s', case['sst'])
    rows = [dict(zip(rows[0], row)) for row in rows[1:]]
    check_panels_targets(case, rows)
    limits = ref.percent_limits(kw)
    for i, (row, stack) in enumerate(zip(rows, ss)):
        panel = case['data']['panels'][i]
        want = design_row(case, i, stack, case['sst'][i], False, False)
        names = {'Penalty disorientation': 'penalty_diso',
                 'Penalty contiguity': 'penalty_contig',
                 'Penalty 10% rule': 'penalty_10',
                 'Penalty balance': 'penalty_ipo',
                 'Penalty out-of-plane orthotropy': 'penalty_oopo'}
        for name, key in names.items():
            expect((name in row) == case['penalties'], 'sheet Panels: %s',
                   name)
            if case['penalties'] and key in want:
                same(row[name], want[key], 1e-9, 'sheet Panels: %s of panel '
                     '%d, %s', name, i, stack)
        if mat:
            same(row['Weight'], DENSITY*panel['length_x']*panel['length_y']
                 * len(stack), 1e-9, 'sheet Panels: weight of panel %d', i)
        expect(('lambda buckling' in row) == case['save_buckling'],
               'sheet Panels: buckling')
        if case['save_buckling']:
            same(row['lambda buckling'], plate(case, i, target(case, i)),
                 1e-9, 'sheet Panels: buckling of panel %d', i)
    if mat:
        best = [dict(zip(content['Best Result'][0], row))
                for row in content['Best Result'][1:]]
        check_table(case, s, best, 0, 'sheet Best Result', True, ss,
                    case['sst'], extra=['obj_no_constraints'])
    ctx.nontrivial(case['penalties'] and len(set(map(len, ss))) > 1)
    ctx.label('buckling' if case['save_buckling'] else 'no buckling')


def plate(case, i, lam):
    "buckling factor of a plate with the lamination parameters lam"
    from pbt.props.p30 import factor
    panel = case['data']['panels'][i]
    return factor(MAT, panel['n_plies'], lam[8:10], panel['N_x'],
                  panel['N_y'], panel['length_x'], panel['length_y'], 10)


SUBS = [
    Sub('report', saved(), check_report, 160, 6000,
        rule='several designs or panels with different ply counts'),
    Sub('setup', tabled(), check_setup, 200, 8000,
        rule='penalties saved for panels with different ply counts'),
]
