"""Independent classical lamination theory, stand-in for the absent src.CLA.

z is measured in half-thicknesses, ply 0 at the bottom (z = -1):
    A:  1/2 * sum (zt   - zb  ) * [cos2t cos4t sin2t sin4t]
    B:  1/2 * sum (zt^2 - zb^2) * ...
    D:  1/2 * sum (zt^3 - zb^3) * ...
"""
import sys
import types
import numpy as np


def trig(angles):
    a = np.deg2rad(np.asarray(angles, float))
    return np.stack([np.cos(2*a), np.cos(4*a), np.sin(2*a), np.sin(4*a)], -1)


def lampam_of(ss):
    """(12,) lamination parameters of one stacking sequence"""
    ss = np.asarray(ss, float).ravel()
    n = ss.size
    z = (2*np.arange(n + 1) - n)/n
    t = trig(ss)
    out = np.empty(12)
    for k in range(3):
        w = (z[1:]**(k + 1) - z[:-1]**(k + 1))/2
        out[4*k:4*k + 4] = w @ t
    return out


def calc_lampam(ss, constraints=None):
    if isinstance(ss, list) and ss and not np.isscalar(ss[0]):
        return np.array([lampam_of(s) for s in ss])
    arr = np.asarray(ss)
    if arr.ndim == 2:
        return np.array([lampam_of(s) for s in arr])
    return lampam_of(arr)


def calc_lampam_2(ss):
    return calc_lampam(ss)


def calc_lampamA(ss, constraints=None):
    return lampam_of(ss)[0:4]


def calc_lampamD(ss, constraints=None):
    return lampam_of(ss)[8:12]


def calc_lampam_from_delta_lp_matrix(stack, constraints, delta_lampams):
    """sum of partial lamination parameters over the plies described by
    delta_lampams[ply, angle_index, 12] (half the stack when symmetric)"""
    stack = np.asarray(stack).ravel()
    lampam = np.zeros(12)
    for ind_ply in range(delta_lampams.shape[0]):
        lampam += delta_lampams[
            ind_ply, constraints.ind_angles_dict[int(stack[ind_ply])]]
    return lampam


def _unused(*args, **kwargs):
    raise NotImplementedError('imported but never called by the repository')


def A_from_lampam(lampam, mat):
    return _stiff(lampam[0:4], mat)


def _stiff(v, mat):
    U1, U2, U3, U4, U5 = mat.U1, mat.U2, mat.U3, mat.U4, mat.U5
    return np.array([
        [U1 + U2*v[0] + U3*v[1], U4 - U3*v[1], U2*v[2]/2 + U3*v[3]],
        [U4 - U3*v[1], U1 - U2*v[0] + U3*v[1], U2*v[2]/2 - U3*v[3]],
        [U2*v[2]/2 + U3*v[3], U2*v[2]/2 - U3*v[3], U5 - U3*v[1]]])


def B_from_lampam(lampam, mat):
    U1, U2, U3, U4, U5 = mat.U1, mat.U2, mat.U3, mat.U4, mat.U5
    v = lampam[4:8]
    return np.array([
        [U2*v[0] + U3*v[1], -U3*v[1], U2*v[2]/2 + U3*v[3]],
        [-U3*v[1], -U2*v[0] + U3*v[1], U2*v[2]/2 - U3*v[3]],
        [U2*v[2]/2 + U3*v[3], U2*v[2]/2 - U3*v[3], -U3*v[1]]])


def D_from_lampam(lampam, mat):
    return _stiff(lampam[8:12], mat)


def install():
    """register src.CLA.* in sys.modules"""
    import src
    pkg = types.ModuleType('src.CLA')
    pkg.__path__ = []
    lf = types.ModuleType('src.CLA.lampam_functions')
    lf.calc_lampam = calc_lampam
    lf.calc_lampam_2 = calc_lampam_2
    lf.calc_lampam_from_delta_lp_matrix = calc_lampam_from_delta_lp_matrix
    lf.calc_delta_lampam = _unused
    lf.calc_delta_lampam_mp_3 = _unused
    lp2 = types.ModuleType('src.CLA.lp_functions_2')
    lp2.calc_lampamA = calc_lampamA
    lp2.calc_lampamD = calc_lampamD
    abd = types.ModuleType('src.CLA.ABD')
    abd.A_from_lampam = A_from_lampam
    abd.B_from_lampam = B_from_lampam
    abd.D_from_lampam = D_from_lampam
    for name, mod in (('src.CLA', pkg), ('src.CLA.lampam_functions', lf),
                      ('src.CLA.lp_functions_2', lp2), ('src.CLA.ABD', abd)):
        sys.modules[name] = mod
    src.CLA = pkg
    pkg.lampam_functions, pkg.lp_functions_2, pkg.ABD = lf, lp2, abd
