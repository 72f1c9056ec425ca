"""Strategies shared by the properties.  Everything generated is JSON-able."""
import inspect
from pbt import env
env.setup()
import numpy as np
from hypothesis import strategies as st

BASE = [-45, 0, 45, 90]
EXTRA = [15, 30, 60, 75, 30, 60, 15, 75, 5, 10, 20, 37, 50, 70, 82, 89]


@st.composite
def size(draw, lo, hi, big):
    "usually between lo and hi, sometimes up to big"
    if draw(st.sampled_from([False]*7 + [True])):
        return draw(st.integers(lo, big))
    return draw(st.integers(lo, hi))


@st.composite
def angle_sets(draw, base=True, max_extra=2):
    """sets of allowed fibre angles, each angled ply with its counterpart"""
    if base:
        angles = list(BASE)
    else:
        angles = draw(st.sampled_from(
            [[-45, 45], [0, 45, -45], [90, 45, -45], list(BASE),
             [0, 30, -30, 90], [0, 60, -60], [0, 30, -30, 60, -60, 90]]))
    if max_extra and draw(st.sampled_from([False]*15 + [True])):
        max_extra += 6
    extra = draw(st.lists(st.sampled_from(EXTRA), unique=True, min_size=0,
                          max_size=max_extra))
    for angle in extra:
        if angle not in angles:
            angles += [angle, -angle]
    return draw(st.permutations(angles))


@st.composite
def stacks(draw, angles, min_size=1, max_size=24):
    """stacking sequences with a bias towards runs of equal plies"""
    n = draw(st.integers(min_size, max_size))
    few = draw(st.booleans())
    pool = angles if not few else draw(
        st.lists(st.sampled_from(angles), min_size=1, max_size=2))
    out = []
    while len(out) < n:
        out += [draw(st.sampled_from(pool))]*draw(
            st.sampled_from([1, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7]))
    return out[:n]


@st.composite
def sym_stacks(draw, angles, min_half=2, max_half=12, middle=None):
    half = draw(stacks(angles, min_half, max_half))
    if middle is None:
        middle = draw(st.booleans())
    mid = [draw(st.sampled_from([a for a in angles]))] if middle else []
    return half + mid + half[::-1]


PERCENTS = [0, 5, 8, 10, 10, 10, 12.5, 15, 20, 25, 30, 40, 50, 80]


@st.composite
def percents(draw, mode=None):
    """settings of the 10% rule"""
    mode = mode or draw(st.sampled_from(
        ['off', 'combined', 'combined', 'separate', 'abdalla']))
    if mode == 'off':
        return dict(rule_10_percent=False)
    if mode == 'abdalla':
        return dict(rule_10_percent=True, rule_10_Abdalla=True,
                    percent_Abdalla=draw(st.sampled_from([0, 5, 10, 15, 20])))
    pc = st.sampled_from(PERCENTS)
    out = dict(rule_10_percent=True, percent_0=draw(pc), percent_90=draw(pc))
    if mode == 'combined':
        out['percent_45_135'] = draw(pc)
    else:
        out['percent_45'] = draw(pc)
        out['percent_135'] = draw(pc)
        if out['percent_45'] == 0 and out['percent_135'] == 0:
            out['percent_45'] = 10
    return out


@st.composite
def constraint_kwargs(draw, sym=None, percent_mode=None, angles=None,
                      base=True, max_extra=2, **force):
    """keyword arguments of Constraints, with plain values"""
    kw = dict(
        sym=draw(st.booleans()) if sym is None else sym,
        bal=draw(st.booleans()),
        oopo=draw(st.sampled_from([False, False, True])),
        dam_tol=draw(st.booleans()),
        dam_tol_rule=draw(st.sampled_from([1, 2, 3])),
        diso=draw(st.booleans()),
        delta_angle=draw(st.sampled_from([45, 45, 45, 30, 60, 90])),
        contig=draw(st.booleans()),
        n_contig=draw(st.integers(2, 6)),
        covering=draw(st.booleans()),
        n_covering=draw(st.sampled_from([0, 1, 2])),
        pdl_spacing=draw(st.booleans()),
        min_drop=draw(st.sampled_from([1, 2, 2, 3, 4])))
    kw.update(draw(percents(percent_mode)))
    kw['set_of_angles'] = list(angles) if angles is not None else list(
        draw(angle_sets(base=base or kw.get('rule_10_percent', False),
                        max_extra=max_extra)))
    kw.update(force)
    if not kw['covering']:
        kw['n_covering'] = 0
    return kw


def other_rules(kw, noise):
    """settings of the guidelines that kw says nothing about: they must not
    matter (noise: 0 for none, otherwise a number to derive them from)"""
    if not noise:
        return {}
    rng = np.random.RandomState(noise)
    coin = [bool(rng.randint(2)) for _ in range(8)]
    pick = [int(rng.randint(100)) for _ in range(6)]
    out = {}
    if 'sym' not in kw:
        out['sym'] = coin[7]
    if 'bal' not in kw:
        out['bal'] = coin[0]
    if 'oopo' not in kw:
        out['oopo'] = coin[1]
    if 'ipo' not in kw:  # LAYLA only
        out['ipo'] = coin[2]
    if 'diso' not in kw:
        out.update(diso=coin[2], delta_angle=[30, 45, 60, 90][pick[0] % 4])
    if 'contig' not in kw:
        out.update(contig=coin[3], n_contig=2 + pick[1] % 5)
    if not {'dam_tol', 'covering'} & set(kw):
        out.update(dam_tol=coin[4], dam_tol_rule=1 + pick[2] % 3)
        cover = 1 + pick[2] % 2
        out.update(covering=True, n_covering=cover) if coin[4] or coin[5] \
            else out.update(covering=False)
    if 'pdl_spacing' not in kw:
        out.update(pdl_spacing=coin[5], min_drop=1 + pick[3] % 4)
    if 'rule_10_percent' not in kw and coin[6] and set(
            BASE) <= set(kw['set_of_angles']):
        out.update(rule_10_percent=True, percent_0=5*(pick[4] % 5),
                   percent_90=5*(pick[5] % 5))
        out.update([dict(percent_45_135=10), dict(
            percent_45=5, percent_135=10), dict(
                rule_10_Abdalla=True, percent_Abdalla=10)][pick[4] % 3])
    return out


NOISE = st.one_of(st.just(0), st.integers(1, 10**6))


def noisy(strategy):
    "cases with the number behind the settings of irrelevant guidelines"
    return st.tuples(strategy, NOISE).map(lambda t: dict(t[0], noise=t[1]))


def build_constraints(kw, cls=None, noise=0):
    if cls is None:
        from src.BELLA.constraints import Constraints as cls
    known = inspect.signature(cls.__init__).parameters
    more = other_rules(kw, noise)
    kw = dict({k: v for k, v in more.items() if k in known}, **kw)
    kw['set_of_angles'] = np.array(kw['set_of_angles'], int)
    return cls(**kw)


def build_layla_constraints(kw, noise=0):
    "settings unknown to LAYLA left out"
    from src.LAYLA_V02.constraints import Constraints
    known = inspect.signature(Constraints.__init__).parameters
    kw = dict(other_rules(kw, noise), **kw)
    kw = {k: v for k, v in kw.items() if k in known}
    return build_constraints(kw, Constraints)


def ints(x):
    return np.array(x, int)


def coef(lo=-1, hi=1):
    "numbers on a grid: exact in JSON, no denormals"
    return st.integers(int(lo*1000), int(hi*1000)).map(lambda k: k/1000)
