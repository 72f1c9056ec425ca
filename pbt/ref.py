"""Independent statements of the lay-up guidelines (exact arithmetic where the
code under test uses floats)."""
from fractions import Fraction as F
from itertools import groupby


def imbalance(stack):
    "sum over |angle| of |count(+) - count(-)|"
    out = 0
    for angle in {abs(a) for a in stack} - {0, 90}:
        out += abs(stack.count(angle) - stack.count(-angle))
    return out


def dam_tol(stack, rule):
    s = list(stack)
    if rule == 1:
        return abs(s[0]) == 45 and abs(s[-1]) == 45
    outer = [s[0], s[1], s[-1], s[-2]]
    if any(abs(a) != 45 for a in outer):
        return False
    return rule == 3 or (s[0] != s[1] and s[-1] != s[-2])


def runs(stack):
    return [(k, len(list(g))) for k, g in groupby(stack)]


def contig_ok(stack, n_contig):
    return all(n <= n_contig for _, n in runs(stack))


def contig_windows(stack, n_contig):
    "number of groups of n_contig + 1 adjacent plies of one orientation"
    return sum(max(0, n - n_contig) for _, n in runs(stack))


def diso_angle(a, b):
    "smallest angle between two fibre directions"
    d = abs(a - b) % 180
    return min(d, 180 - d)


def diso_count(stack, delta):
    return sum(diso_angle(a, b) > delta for a, b in zip(stack, stack[1:]))


def trimmed(stack, dam_tol_on, rule):
    "stack without its outermost plies for the two-ply damage tolerance rules"
    return list(stack)[1:-1] if dam_tol_on and rule in (2, 3) else list(stack)


def percent_limits(kw):
    """minimum fractions required by the keyword arguments of Constraints:
    dict angle or 'both' -> Fraction; None when inactive or Abdalla"""
    if not kw.get('rule_10_percent') or kw.get('rule_10_Abdalla'):
        return None
    g = lambda k: F(kw.get(k, 0))/100
    p45, p135, pboth = g('percent_45'), g('percent_135'), g('percent_45_135')
    out = {0: g('percent_0'), 90: g('percent_90'), 45: F(0), -45: F(0),
           'both': F(0)}
    if p45 > pboth/2 or p135 > pboth/2:
        out[45], out[-45] = p45, p135
    else:
        out['both'] = pboth
    return out


def shortfalls(counts, total, limits):
    "list of shortfalls (Fractions >= 0) for the five limits"
    if limits is None or total == 0:
        return [F(0)]
    frac = {a: F(counts.get(a, 0))/F(total) for a in (0, 90, 45, -45)}
    frac['both'] = frac[45] + frac[-45]
    return [max(F(0), limits[k] - frac[k]) for k in (0, 45, 90, -45, 'both')]


def count(stack):
    out = {}
    for a in stack:
        out[a] = out.get(a, 0) + 1
    return out


def ten_percent_ok(stack, limits):
    return not any(shortfalls(count(stack), len(stack), limits))


def ten_percent_penalty(stack, limits):
    return float(sum(shortfalls(count(stack), len(stack), limits)))


def spacing_penalty(layout, min_drop):
    """missing continuous plies between successive drops over the length"""
    drops = [i for i, p in enumerate(layout) if p == -1]
    miss = sum(max(0, min_drop - (q - p - 1)) for p, q in zip(drops, drops[1:]))
    return miss/len(layout) if len(layout) else 0.


def lay_up_ok(stack, kw, bal=True, ten=True):
    "all active lay-up guidelines of the keyword arguments kw"
    return not broken_rules(stack, kw, bal, ten)


def broken_rules(stack, kw, bal=True, ten=True):
    s = list(stack)
    out = []
    if kw.get('sym') and s != s[::-1]:
        out.append('sym')
    if kw.get('dam_tol') and not dam_tol(s, kw['dam_tol_rule']):
        out.append('dam_tol')
    if bal and kw.get('bal') and imbalance(s):
        out.append('bal')
    if kw.get('diso') and diso_count(
            trimmed(s, kw.get('dam_tol'), kw.get('dam_tol_rule')),
            kw['delta_angle']):
        out.append('diso')
    if kw.get('contig') and not contig_ok(s, kw['n_contig']):
        out.append('contig')
    if ten and not ten_percent_ok(s, percent_limits(kw)):
        out.append('ten')
    return out


def find_stack(kw, n, rng, nodes=3000, with_bal=True):
    """random stack of n plies satisfying the active guidelines (or None):
    ply counts first, then a randomised depth-first ordering"""
    angles = list(kw['set_of_angles'])
    sym = kw.get('sym')
    m = n//2 if sym else n
    mid = None
    limits = percent_limits(kw)
    straight = [a for a in angles if a in (0, 90)]
    for _ in range(30):
        plies = []
        if limits is not None:
            for a in (0, 90, 45, -45):
                need = limits[a]*n/(2 if sym else 1)
                plies += [a]*int(-(-need.numerator//need.denominator))
            need = limits['both']*n/(2 if sym else 1)
            while plies.count(45) + plies.count(-45) < need:
                plies += [45, -45]
        if kw.get('bal') and with_bal:
            for a in set(abs(p) for p in plies) - {0, 90}:
                d = plies.count(a) - plies.count(-a)
                plies += [-a]*d if d > 0 else [a]*(-d)
        if len(plies) > m:
            return None
        while len(plies) < m:
            a = angles[rng.randrange(len(angles))]
            if a in (0, 90) or not (kw.get('bal') and with_bal):
                plies.append(a)
            elif len(plies) + 2 <= m:
                plies += [a, -a]
            elif straight:
                plies.append(straight[rng.randrange(len(straight))])
            else:
                break
        if len(plies) != m:
            continue
        if sym and n % 2:
            pool = straight or angles
            mid = pool[rng.randrange(len(pool))]
        found = _order(kw, plies, mid, sym, rng, nodes)
        if found is not None:
            return found
    return None


def _order(kw, plies, mid, sym, rng, nodes):
    budget = [nodes]
    m = len(plies)
    rule = kw.get('dam_tol_rule') if kw.get('dam_tol') else 0
    contig = kw['n_contig'] if kw.get('contig') else None
    delta = kw['delta_angle'] if kw.get('diso') else None

    def whole(part):
        return part + ([mid] if mid is not None else []) + part[::-1] \
            if sym else part

    def ok_step(part):
        k = len(part)
        last = part[-1]
        if rule == 1 and (k == 1 or (not sym and k == m)) and abs(last) != 45:
            return False
        if rule in (2, 3):
            if (k <= 2 or (not sym and k >= m - 1)) and abs(last) != 45:
                return False
            if rule == 2 and (k == 2 or (not sym and k == m)) \
                    and part[-2] != -last:
                return False
        if delta is not None and k >= 2:
            skip = rule in (2, 3) and (k == 2 or (not sym and k == m))
            if not skip and diso_angle(part[-2], last) > delta:
                return False
        if contig is not None and not contig_ok(part[-contig - 1:], contig):
            return False
        return True

    def rec(part, left):
        if budget[0] <= 0:
            return None
        budget[0] -= 1
        if not left:
            full = whole(part)
            return full if not broken_rules(full, kw, bal=False) else None
        options = list(dict.fromkeys(left))
        rng.shuffle(options)
        for a in options:
            nxt = part + [a]
            if ok_step(nxt):
                rest = list(left)
                rest.remove(a)
                found = rec(nxt, rest)
                if found is not None:
                    return found
        return None

    plies = list(plies)
    rng.shuffle(plies)
    return rec([], plies)


def stiffness(stack, mat, power):
    """laminate stiffnesses A, B, D (power 1, 2, 3) summed over the rotated
    plies; mat: dict E11, E22, nu12, G12, ply_t"""
    import numpy as np
    e1, e2, nu, g = mat['E11'], mat['E22'], mat['nu12'], mat['G12']
    den = 1 - nu*nu*e2/e1
    q = np.array([[e1/den, nu*e2/den, 0], [nu*e2/den, e2/den, 0], [0, 0, g]])
    n, t = len(stack), mat['ply_t']
    out = np.zeros((3, 3))
    for k, a in enumerate(stack):
        c, s = np.cos(np.deg2rad(a)), np.sin(np.deg2rad(a))
        tr = np.array([[c*c, s*s, c*s], [s*s, c*c, -c*s],
                       [-2*c*s, 2*c*s, c*c - s*s]])
        zb, zt = (k - n/2)*t, (k + 1 - n/2)*t
        out += tr.T @ q @ tr*(zt**power - zb**power)/power
    return out


def buckling(stack, mat, load_x, load_y, length_x, length_y, n_modes=10):
    "lowest factor of the loads for sine modes of a simply-supported plate"
    import numpy as np
    d = stiffness(stack, mat, 3)
    best = np.inf
    for m in range(1, n_modes + 1):
        for n in range(1, n_modes + 1):
            kx, ky = np.pi*m/length_x, np.pi*n/length_y
            energy = d[0, 0]*kx**4 + 2*(d[0, 1] + 2*d[2, 2])*kx**2*ky**2 \
                + d[1, 1]*ky**4
            work = abs(load_x)*kx**2 + abs(load_y)*ky**2
            best = min(best, energy/work)
    return best
