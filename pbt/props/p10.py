"""P10 material invariants"""
import math
import numpy as np
from hypothesis import strategies as st
from pbt import gen
from pbt.core import Sub, expect, expect_close

LIB = ['src.BELLA.materials', 'src.LAYLA_V02.materials']


@st.composite
def case_(draw):
    E11 = draw(st.sampled_from([130e9, 141e9, 9e9, 1e9, 20.5e9, 70e9]))
    E22 = draw(st.sampled_from([9e9, 9.03e9, 70e9, 2e9, 10.3e9]))
    return dict(E11=E11, E22=E22,
                G12=draw(st.sampled_from([4e9, 4.27e9, 7.1e9, 1e9])),
                nu12=draw(st.integers(0, 45))/100,
                density_area=draw(st.sampled_from([0, 0, 300.5, 150])),
                density_volume=draw(st.sampled_from([0, 0, 1.5e6, 2e6])),
                ply_t=draw(st.sampled_from([1e-4, 1.9e-4, 2e-4, 5e-4])),
                theta=draw(st.integers(-89, 90)),
                lib=draw(st.sampled_from(LIB)),
                bad=draw(st.sampled_from(
                    [None, None, None, 'E11', 'E22', 'G12', 'ply_t',
                     'density_area', 'density_volume', 'type'])),
                bad_value=draw(st.sampled_from([-1, -0.5, 0])))


def rotated(Q11, Q12, Q22, Q66, theta):
    "reduced stiffness rotated with the tensor transformation matrices"
    c, s = math.cos(theta), math.sin(theta)
    T = np.array([[c*c, s*s, 2*s*c], [s*s, c*c, -2*s*c],
                  [-s*c, s*c, c*c - s*s]])
    R = np.diag([1, 1, 2])
    Q = np.array([[Q11, Q12, 0], [Q12, Q22, 0], [0, 0, Q66]])
    return np.linalg.inv(T) @ Q @ R @ T @ np.linalg.inv(R)


def check(case, ctx):
    import importlib
    Material = importlib.import_module(case['lib']).Material
    keys = ('E11', 'E22', 'G12', 'nu12', 'density_area', 'density_volume',
            'ply_t')
    kw = {k: case[k] for k in keys}
    bad = case['bad']
    if bad:
        if bad == 'type':
            kw[keys[case['theta'] % 7]] = 'text'
        else:
            kw[bad] = case['bad_value']
        valid = bad.startswith('density') and kw.get(bad) == 0
        try:
            Material(**kw)
            ok = True
        except Exception as exc:
            if 'Attention' not in str(exc):
                raise
            ok = False
        expect(ok == valid, 'material %s was %s', kw,
               'accepted' if ok else 'rejected')
        ctx.label('invalid')
        return
    mat = Material(**kw)
    ctx.nontrivial(case['nu12'] > 0 and case['E11'] != case['E22']
                   and case['theta'] not in (0, 90))
    for k in ('E11', 'E22', 'G12', 'nu12', 'ply_t'):
        expect(getattr(mat, k) == kw[k], '%s stored as %s instead of %s', k,
               getattr(mat, k), kw[k])
    repr(mat)
    # densities
    if case['density_area'] or case['density_volume']:
        da = case['density_area'] or case['density_volume']*case['ply_t']
        dv = case['density_volume'] or case['density_area']/case['ply_t']
    else:
        da, dv = 300.5, 300.5/case['ply_t']
    expect_close(mat.density_area, da, 1e-9*da, 'area density of %s', kw)
    expect_close(mat.density_volume, dv, 1e-9*dv, 'volume density of %s', kw)
    # stiffness: inverse of the compliance of an orthotropic lamina
    S = np.array([[1/kw['E11'], -kw['nu12']/kw['E11'], 0],
                  [-kw['nu12']/kw['E11'], 1/kw['E22'], 0],
                  [0, 0, 1/kw['G12']]])
    Q = np.linalg.inv(S)
    scale = abs(Q).max()
    expect_close([mat.Q11, mat.Q12, mat.Q22, mat.Q66],
                 [Q[0, 0], Q[0, 1], Q[1, 1], Q[2, 2]], 1e-9*scale,
                 'reduced stiffnesses of %s', kw)
    # invariants reproduce the stiffness rotated by any angle
    t = math.radians(case['theta'])
    Qr = rotated(Q[0, 0], Q[0, 1], Q[1, 1], Q[2, 2], t)
    c2, c4, s2, s4 = (math.cos(2*t), math.cos(4*t), math.sin(2*t),
                      math.sin(4*t))
    got = [mat.U1 + mat.U2*c2 + mat.U3*c4, mat.U4 - mat.U3*c4,
           mat.U1 - mat.U2*c2 + mat.U3*c4, mat.U5 - mat.U3*c4,
           mat.U2*s2/2 + mat.U3*s4, mat.U2*s2/2 - mat.U3*s4]
    want = [Qr[0, 0], Qr[0, 1], Qr[1, 1], Qr[2, 2], Qr[0, 2], Qr[1, 2]]
    expect_close(got, want, 1e-8*scale, 'stiffness of %s rotated by %s',
                 kw, case['theta'])
    expect_close(mat.nu21*kw['E11'], mat.nu12*kw['E22'], 1e-9*scale,
                 'reciprocity of the Poisson ratios of %s', kw)


SUBS = [Sub('lamina', case_(), check, 4000, 60000,
            rule='valid orthotropic lamina with Poisson coupling, off-axis')]
