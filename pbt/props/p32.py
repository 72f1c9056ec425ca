"""P32 design problems survive saving to and reading from a workbook"""
import contextlib
import copy
import io
import os
import runpy
import sys
import tempfile
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from pbt import bella, env
from pbt.core import Sub, expect, expect_close
from pbt.props import p21

SCRIPTS = ('run_BELLA_from_input_file_SST_1.py',
           'run_BELLA_from_input_file_horseshoe.py')


class Captured(Exception):
    pass


@contextlib.contextmanager
def redirected(files, folder):
    """reading of workbooks redirected (files: name prefix -> workbook), no
    file deleted, everything written in a folder"""
    import pandas as pd
    from src.divers import excel
    real, book = pd.read_excel, pd.ExcelFile

    def where(name):
        base = os.path.basename(str(name).replace('\\', '/'))
        for prefix, path in files.items():
            if base.startswith(prefix):
                return path
        raise AssertionError('the script reads %s' % name)
    here, path = os.getcwd(), list(sys.path)
    os.chdir(folder)
    try:
        with mock.patch.object(pd, 'read_excel', lambda n, *a, **k: real(
                where(n), *a, **k) if isinstance(n, str) else real(
                    n, *a, **k)), \
             mock.patch.object(pd, 'ExcelFile', lambda n, *a, **k: book(
                 where(n), *a, **k)), \
             mock.patch.object(excel, 'delete_file', lambda *a, **k: 0,
                               create=True), \
             contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.chdir(here)
        sys.path[:] = path


def run_input_script(script, filename, folder):
    "arguments that the script gives to the optimiser"
    import src.BELLA.optimiser as opt
    calls = []

    def fake(*args, **kw):
        names = ('multipanel', 'parameters', 'obj_func_param', 'constraints',
                 'filename', 'mat')
        calls.append(dict(zip(names, args), **kw))
    with redirected({'input_file': filename}, folder), \
            mock.patch.object(opt, 'BELLA_optimiser', fake):
        runpy.run_path(os.path.join(env.REPO, script), run_name='__main__')
    expect(len(calls) == 1, '%d runs of the optimiser', len(calls))
    return calls[0]


def save_problem(name, s, filtered):
    from src.BELLA.save_set_up import (
        save_constraints_BELLA, save_multipanel, save_materials,
        save_objective_function_BELLA)
    if filtered:
        s.mp.filter_target_lampams(s.con, s.obj)
    s.mp.filter_lampam_weightings(s.con, s.obj)
    save_multipanel(name, s.mp, s.obj, constraints=s.con, mat=s.mat)
    save_constraints_BELLA(name, s.con)
    save_objective_function_BELLA(name, s.obj)
    save_materials(name, s.mat)


CON = ('sym', 'bal', 'ipo', 'oopo', 'dam_tol', 'covering', 'n_covering',
       'rule_10_percent', 'percent_Abdalla', 'percent_0', 'percent_45',
       'percent_90', 'percent_135', 'percent_45_135', 'percent_tot', 'diso',
       'contig', 'pdl_spacing')
OBJ = ('coeff_diso', 'coeff_contig', 'coeff_10', 'coeff_bal_ipo',
       'coeff_oopo', 'coeff_spacing')
MAT = ('E11', 'E22', 'G12', 'nu12', 'nu21', 'density_area',
       'density_volume', 'ply_t', 'Q11', 'Q12', 'Q22', 'Q66', 'U1', 'U2',
       'U3', 'U4', 'U5')


def equal(got, want, msg, *args):
    expect_close(np.array(got, float), np.array(want, float),
                 1e-9*(1 + np.abs(np.array(want, float)).max(initial=0)),
                 msg, *args)


def compare_setting(got, s):
    con = got['constraints']
    names = list(CON)
    if s.con.dam_tol:
        names.append('dam_tol_rule')
    if s.con.rule_10_percent:
        names.append('rule_10_Abdalla')
    if s.con.diso:
        names.append('delta_angle')
    if s.con.contig:
        names.append('n_contig')
    if s.con.pdl_spacing:
        names.append('min_drop')
    for name in names:
        equal(getattr(con, name), getattr(s.con, name),
              'guideline setting %s read: %s, saved: %s', name,
              getattr(con, name), getattr(s.con, name))
    equal(con.set_of_angles, s.con.set_of_angles, 'fibre orientations')
    for name in OBJ:
        equal(getattr(got['obj_func_param'], name), getattr(s.obj, name),
              '%s read: %s, saved: %s', name,
              getattr(got['obj_func_param'], name), getattr(s.obj, name))
    for name in MAT:
        equal(getattr(got['mat'], name), getattr(s.mat, name),
              'material: %s', name)


def compare_structure(got, s, case, loads):
    mp = got['multipanel']
    # as the optimiser does
    mp.filter_lampam_weightings(got['constraints'], got['obj_func_param'])
    data = case['data']
    expect(mp.n_panels == len(data['panels']), '%d panels', mp.n_panels)
    for i, (p, q) in enumerate(zip(mp.panels, s.mp.panels)):
        expect(p.ID == q.ID and p.n_plies == q.n_plies, 'panel %d: ID %s, %s '
               'plies', i, p.ID, p.n_plies)
        equal(p.weighting, q.weighting, 'panel %d: weighting', i)
        equal(p.lampam_target, q.lampam_target, 'panel %d: targets', i)
        equal(p.lampam_weightings, q.lampam_weightings,
              'panel %d: weightings of the lamination parameters', i)
        if loads:
            for name in ('length_x', 'length_y', 'area', 'N_x', 'N_y'):
                equal(getattr(p, name), getattr(q, name), 'panel %d: %s', i,
                      name)
    want = sorted(tuple(sorted(e)) for e in data['edges'])
    expect(sorted(tuple(sorted(map(int, e))) for e in mp.boundaries) == want,
           'boundaries %s, declared: %s', [list(e) for e in mp.boundaries],
           want)


@st.composite
def problems(draw):
    case = draw(bella.problem(max_panels=5))
    case['mat'] = True
    case['script'] = draw(st.sampled_from(SCRIPTS))
    case['filtered'] = draw(st.booleans())
    # boundary weights are not part of an input file
    case['data']['weights'] = None
    for p in case['data']['panels']:
        p['N_x'] = draw(st.sampled_from([1, 0, 2.5, 1e5]))
        p['N_y'] = draw(st.sampled_from([1, 0, 3, 123456.7]))
    return case


def check_problem(case, ctx):
    case = copy.deepcopy(case)
    s = bella.build(case)
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'problem.xlsx')
        save_problem(name, s, case['filtered'])
        got = run_input_script(case['script'], name, folder)
    compare_setting(got, s)
    compare_structure(got, s, case, 'horseshoe' in case['script'])
    ctx.nontrivial(len(case['data']['panels']) > 2)
    ctx.label('%d panels' % len(case['data']['panels']))


@st.composite
def external(draw):
    "a structure and a table of stacking sequences, from another optimiser"
    case = draw(p21.tabled())
    case['mat'] = True
    case['data']['weights'] = None
    case['script'] = draw(st.sampled_from(['SST_1', 'horseshoe']))
    # the table of the other optimiser: one column per ply count, in any
    # order, a few of which no panel has
    rows = {}
    for row in case['sst']:
        rows[len(row) - row.count(-1)] = row
    width = len(case['sst'][0])
    pad = draw(st.sampled_from([0, 0, 1, 3]))
    rows = [row[:width//2] + [-1]*pad + row[width//2:]
            for row in rows.values()]
    rows = list(draw(st.permutations(rows)))
    top = width + 2*pad if not case['kw']['sym'] else width
    if top > width and pad:
        extra = [a if a != -1 else 0 for a in rows[0]]
        if len(extra) > max(p['n_plies'] for p in case['data']['panels']):
            rows.append(extra)
    case['columns'] = rows
    return case


def check_external(case, ctx):
    import pandas as pd
    from src.BELLA.results import BELLA_Results, BELLA_ResultsOnePdl
    s = bella.build(case)
    script = 'format_restults_FXI_%s.py' % case['script']
    buckling = case['script'] == 'horseshoe'
    sst = case['sst']
    ss = [[a for a in row if a != -1] for row in sst]
    with tempfile.TemporaryDirectory() as folder:
        name = os.path.join(folder, 'problem.xlsx')
        save_problem(name, s, True)
        table = os.path.join(folder, 'table.xlsx')
        data = np.array(case['columns'], float).T
        data[data == -1] = np.nan
        pd.DataFrame(data, columns=['sst_%2d' % (k + 1) for k in range(
            data.shape[1])]).to_excel(
                table, sheet_name='Best result FXI', index=False)
        with redirected({'input_file': name, 'result_FXI': table}, folder):
            runpy.run_path(os.path.join(env.REPO, 'FXI-results', script),
                           run_name='__main__')
        done = [f for f in os.listdir(folder)
                if f.startswith('results_FXI')]
        expect(len(done) == 1, 'files %s', os.listdir(folder))
        content = p21.book(os.path.join(folder, done[0]))
    want = {'Constraints', 'Objective function', 'Multipanel', 'Panels',
            'Materials', 'Best Result'}
    expect(set(content) == want, 'sheets %s', sorted(content))
    p21.constraints_sheet(case, p21.pairs(content['Constraints'],
                                          'Constraints'))
    rows = content['Best Result']
    best = [dict(zip(rows[0], row)) for row in rows[1:]]
    s.mp.from_mp_to_blending_strip(s.con, 1)
    one = BELLA_ResultsOnePdl()
    one.ss = [np.array(x) for x in ss]
    one.sst = np.array(sst)
    one.penalty_spacing = p21.spacing(case, s.mp, sst)
    for key in ('n_diso', 'n_contig', 'penalty_diso', 'penalty_contig',
                'penalty_10', 'penalty_bal_ipo', 'penalty_oopo'):
        setattr(one, key, np.zeros(len(ss)))
    s.res = BELLA_Results(s.con, s.mp)
    s.res.update(0, one)
    p21.check_table(case, s, best, 0, 'sheet Best Result', buckling, ss, sst,
                    extra=['obj_no_constraints'])
    ctx.nontrivial(len(set(map(len, ss))) > 1)
    ctx.label(case['script'])


SUBS = [Sub('problem', problems(), check_problem, 150, 3000,
            rule='more than two panels'),
        Sub('external', external(), check_external, 150, 3000,
            rule='panels with different ply counts')]
