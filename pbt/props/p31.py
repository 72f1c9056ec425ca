"""P31 orthotropy measures"""
import numpy as np
from hypothesis import strategies as st
from pbt import ref, gen, cla_stub
from pbt.core import Sub, expect, expect_close
from pbt.props.p30 import materials, ANGLES


@st.composite
def laminates(draw):
    pool = draw(st.sampled_from([[0, 90, 45, -45], [30, -30, 60, 0], ANGLES,
                                 [0, 90]]))
    half = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=12))
    if draw(st.booleans()):     # balanced
        half = half + [-a if abs(a) != 90 else a for a in half]
        half = list(draw(st.permutations(half)))
    sym = draw(st.booleans())
    return dict(stack=half + half[::-1] if sym else half, sym=sym,
                mat=draw(materials()))


def ratio(x, y):
    return abs(x)/abs(y)


def check_params(case, ctx):
    from src.BELLA.materials import Material
    from src.guidelines import ipo_oopo as mod
    stack, mat, sym = case['stack'], dict(case['mat'], ply_t=1), case['sym']
    n = len(stack)
    mat = dict(mat, ply_t=1/n)
    a, b, d = (ref.stiffness(stack, mat, k) for k in (1, 2, 3))
    comp = np.linalg.inv(a - b @ np.linalg.inv(d) @ b)
    lam = cla_stub.lampam_of(np.array(stack))
    obj = Material(**case['mat'])
    want = []
    small = 1e-6*abs(a).max()
    tiny = 1e-6*abs(comp).max()
    for m, eps in ((a, small), (comp, tiny)):
        for i in range(2):
            for den in ((m[0, 0], m[0, 1], m[2, 2]),
                        (m[0, 1], m[1, 1], m[2, 2]))[i]:
                want.append((abs(m[i, 2]), abs(den), eps))
    got = {'twelve': mod.ipo_param_1_12(lam, obj, sym),
           'first six': mod.ipo_param_1_6(lam, obj, sym),
           'last six': mod.ipo_param_7_12(lam, obj, sym)}
    expect([got[k].size for k in got] == [12, 6, 6], 'sizes')
    for name, start in (('twelve', 0), ('first six', 0), ('last six', 6)):
        for k, value in enumerate(got[name]):
            num, den, eps = want[start + k]
            if den < eps:
                continue
            expect_close(value, num/den, 1e-7*(1 + num/den), 'parameter %d '
                         '(%s) of %s', start + k + 1, name, stack)
    param = got['twelve']
    if np.isfinite(param).all():
        pen = float(mod.calc_penalty_ipo_param(param, 0.01))
        expect(pen >= 0 and (pen > 1e-9) == (param.max() > 12e-9),
               'penalty %s of the parameters %s', pen, param)
        expect_close(float(mod.calc_penalty_ipo_param(2*param, 0.01)), 2*pen,
                     1e-9*(1 + pen), 'penalty of doubled parameters')
    balanced = ref.imbalance(stack) == 0
    ctx.nontrivial(not balanced)
    ctx.label('%s %s' % ('symmetric' if sym else 'asymmetric',
                         'balanced' if balanced else 'unbalanced'))
    if balanced:
        for k in range(6):
            num, den, eps = want[k]
            if den > eps:
                expect(param[k] < 1e-9, 'balanced laminate %s: parameter %s',
                       stack, param[k])


@st.composite
def panels(draw):
    n = draw(st.integers(1, 4))
    lam = [draw(st.lists(gen.coef(), min_size=12, max_size=12))
           for _ in range(n)]
    return dict(lam=lam, bal=draw(st.booleans()), oopo=draw(st.booleans()),
                switch=draw(st.booleans()), given=draw(st.booleans()),
                area=draw(st.sampled_from([1, 0.25, 4])),
                moment=draw(st.sampled_from([1, 0.125, 20])),
                form=draw(st.sampled_from(['list', 'array'])))


def check_penalties(case, ctx):
    from src.BELLA.parameters import Parameters
    from src.guidelines import ipo_oopo as mod
    con = gen.build_constraints(dict(
        sym=True, bal=case['bal'], oopo=case['oopo'],
        set_of_angles=gen.BASE), noise=case.get('noise', 0))
    lam = np.array(case['lam'])
    ipo = (abs(lam[:, 2]) + abs(lam[:, 3]))/2
    oopo = (abs(lam[:, 10]) + abs(lam[:, 11]))/2
    kw = dict(parameters=Parameters(con)) if case['given'] else {}
    a, b = mod.calc_penalty_ipo_oopo_mp(
        lam, con, penalty_ipo_switch=case['switch'],
        cummul_areas=case['area'], cummul_sec_mom_areas=case['moment'], **kw)
    want = ipo*case['area'] if case['bal'] and case['switch'] else 0*ipo
    expect_close(a, want, 1e-9, 'in-plane orthotropy penalties of %s', lam)
    want = oopo*case['moment'] if case['oopo'] else 0*oopo
    expect_close(b, want, 1e-9, 'out-of-plane orthotropy penalties of %s',
                 lam)
    expect_close(mod.calc_penalty_ipo(lam, case['area']), ipo*case['area'],
                 1e-9, 'balance penalties of %s', lam)
    expect_close(mod.calc_penalty_ipo(lam[0]), ipo[0], 1e-9, 'balance '
                 'penalty of %s', lam[0])
    rows = [r for r in lam] if case['form'] == 'list' and len(lam) > 1 \
        else lam
    want = oopo if case['oopo'] else 0*oopo
    expect_close(mod.calc_penalty_oopo_ss(rows, con, case['moment']),
                 want*case['moment'], 1e-9, 'out-of-plane orthotropy of %s',
                 lam)
    expect_close(mod.calc_penalty_oopo_ss(lam[0], con), want[0], 1e-9,
                 'out-of-plane orthotropy of %s', lam[0])
    # single laminates, guidelines of LAYLA
    if hasattr(mod, 'calc_penalty_ipo_oopo_ss'):
        from src.LAYLA_V02.parameters import Parameters as LAYLA_Parameters
        con = gen.build_layla_constraints(dict(
            sym=True, bal=False, ipo=case['bal'], oopo=case['oopo'],
            set_of_angles=gen.BASE), noise=case.get('noise', 0))
        kw = dict(parameters=LAYLA_Parameters(
            con, penalty_ipo_switch=case['switch'])) if case['given'] else {}
        used = case['bal'] and (case['switch'] or not case['given'])
        for k in (slice(None), 0):
            a, b = mod.calc_penalty_ipo_oopo_ss(
                lam[k], con, cummul_areas=case['area'],
                cummul_sec_mom_areas=case['moment'], **kw)
            expect_close(a, ipo[k]*case['area']*used, 1e-9, 'in-plane '
                         'orthotropy penalties of %s', lam[k])
            expect_close(b, oopo[k]*case['moment']*case['oopo'], 1e-9,
                         'out-of-plane orthotropy penalties of %s', lam[k])
    ctx.nontrivial(len(lam) > 1 and (case['bal'] or case['oopo']))
    ctx.label('parameters given' if case['given'] else 'no parameters')


SUBS = [
    Sub('parameters', gen.noisy(laminates()), check_params, 3000, 60000,
        rule='unbalanced laminates'),
    Sub('penalties', gen.noisy(panels()), check_penalties, 3000, 60000,
        rule='several panels with an active orthotropy rule'),
]
