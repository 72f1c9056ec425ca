"""P30 buckling of panels"""
import numpy as np
from hypothesis import strategies as st
from pbt import ref, cla_stub
from pbt.core import Sub, expect, expect_close


def constants(mat):
    "stiffnesses of a ply, as functions of cos 2t and cos 4t: least squares"
    rows, out = [], {}
    angles = [0, 20, 45, 70, 90]
    for a in angles:
        c2, c4 = np.cos(np.deg2rad(2*a)), np.cos(np.deg2rad(4*a))
        rows.append([1, c2, c4])
    q = [ref.stiffness([a], dict(mat, ply_t=1), 1) for a in angles]
    for name, (i, j) in (('11', (0, 0)), ('12', (0, 1)), ('22', (1, 1)),
                         ('66', (2, 2))):
        out[name] = np.linalg.lstsq(np.array(rows),
                                    np.array([x[i, j] for x in q]),
                                    rcond=None)[0]
    return out


def factor(mat, n_plies, lam_d, load_x, load_y, length_x, length_y, n_modes):
    "lowest factor for given bending lamination parameters (first two)"
    h = n_plies*mat['ply_t']
    d = {k: h**3/12*float(v @ np.array([1, lam_d[0], lam_d[1]]))
         for k, v in constants(mat).items()}
    best = np.inf
    for m in range(1, n_modes + 1):
        for n in range(1, n_modes + 1):
            kx, ky = np.pi*m/length_x, np.pi*n/length_y
            energy = d['11']*kx**4 + 2*(d['12'] + 2*d['66'])*kx**2*ky**2 \
                + d['22']*ky**4
            best = min(best, energy/(abs(load_x)*kx**2 + abs(load_y)*ky**2))
    return best


@st.composite
def materials(draw):
    e11 = draw(st.sampled_from([1e9, 130e9, 141e9, 200e9]))
    e22 = draw(st.sampled_from([0.05, 0.1, 0.5, 1]))*e11
    nu = draw(st.sampled_from([0, 0.1, 0.3, 0.32]))
    g = draw(st.sampled_from([0.02, 0.05, 0.3]))*e11
    return dict(E11=e11, E22=e22, nu12=nu, G12=g,
                ply_t=draw(st.sampled_from([1e-4, .00019, 1e-3])))


ANGLES = list(range(-85, 91, 5))


@st.composite
def plates(draw):
    stack = draw(st.lists(st.sampled_from(draw(st.sampled_from(
        [[0, 90, 45, -45], [30, -30, 60], ANGLES]))), min_size=1,
        max_size=24))
    if draw(st.booleans()):
        stack = stack + stack[::-1]
    load = st.sampled_from([0, 1, 1, 2.5, 100, 1e5, -1, -300])
    nx, ny = draw(load), draw(load)
    if nx == 0 and ny == 0:
        nx = 1
    side = st.sampled_from([0.2, 0.5, 1, 1.3, 3, 7])
    return dict(stack=stack, mat=draw(materials()), nx=nx, ny=ny,
                lx=draw(side), ly=draw(side),
                modes=draw(st.sampled_from([1, 2, 5, 10])),
                scale=draw(st.sampled_from([2, 0.5, -1, 10])),
                lam=[draw(st.floats(-1, 1, width=16)) for _ in range(12)])


def check(case, ctx):
    from src.BELLA.materials import Material
    from src.buckling import buckling as mod
    stack, mat, modes = case['stack'], case['mat'], case['modes']
    nx, ny, lx, ly = (case[k] for k in ('nx', 'ny', 'lx', 'ly'))
    obj = Material(**mat)
    arr = np.array(stack)
    lam = cla_stub.lampam_of(arr)

    def close(got, want, what):
        expect_close(got, want, 1e-8*abs(want), 'plate %s x %s, loads %s, '
                     '%s, stack %s: %s', lx, ly, nx, ny, stack, what)
    want = ref.buckling(stack, mat, nx, ny, lx, ly, modes)
    got = mod.buckling_factor_ss(arr, nx, ny, lx, ly, obj, modes)
    close(got, want, 'factor')
    expect(got > 0, 'factor %s is not positive', got)
    kw = dict(N_x=nx, N_y=ny, length_x=lx, length_y=ly, n_modes=modes)
    close(mod.buckling_factor(lam, obj, len(stack), **kw), want,
          'factor of the lamination parameters')
    close(mod.buckling_factor(lam[8:12], obj, len(stack), **kw), want,
          'factor of the bending lamination parameters')
    if modes == 10:
        kw.pop('n_modes')
        close(mod.buckling_factor(lam, obj, len(stack), **kw), want,
              'factor with the default number of modes')
        kw['n_modes'] = 10
    # arbitrary lamination parameters
    other = np.array(case['lam'])
    want2 = factor(mat, len(stack), other[8:10], nx, ny, lx, ly, modes)
    scale = max(abs(want), abs(want2))
    for value in (other, other[8:12]):
        got2 = mod.buckling_factor(value, obj, len(stack), **kw)
        expect_close(got2, want2, 1e-8*scale, 'factor of %s', value)
    # metamorphic relations
    k = case['scale']
    close(mod.buckling_factor_ss(arr, k*nx, k*ny, lx, ly, obj, modes)*abs(k),
          want, 'loads multiplied by %s' % k)
    turned = np.array([a - 90 if a > 0 else a + 90 for a in stack])
    close(mod.buckling_factor_ss(turned, ny, nx, ly, lx, obj, modes), want,
          'turned by 90 degrees')
    close(mod.buckling_factor_ss(-arr, nx, ny, lx, ly, obj, modes), want,
          'mirrored')
    more = mod.buckling_factor_ss(arr, nx, ny, lx, ly, obj, modes + 1)
    expect(more <= want*(1 + 1e-9), 'the factor grows with the modes')
    thick = np.repeat(arr, 2)
    close(mod.buckling_factor_ss(thick, nx, ny, lx, ly, obj, modes)/8, want,
          'every ply doubled')
    expect_close(mod.buckling_margin(got), 100*(want - 1),
                 1e-6*(1 + abs(want)), 'margin')
    d = ref.stiffness(stack, mat, 3)
    one = [mod.buckling_factor_m_n(
        d[0, 0], d[0, 1], d[1, 1], d[2, 2], mode_m=m, mode_n=n, N_x=nx,
        N_y=ny, length_x=lx, length_y=ly)
           for m in range(1, modes + 1) for n in range(1, modes + 1)]
    close(min(one), want, 'lowest mode')
    first = one.index(min(one))
    ctx.nontrivial(first != 0)
    ctx.label('mode %d, %d' % (min(first//modes + 1, 4),
                               min(first % modes + 1, 4)))


SUBS = [Sub('plate', plates(), check, 2500, 60000,
            rule='the critical mode is not the first one')]
