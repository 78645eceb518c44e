"""Generators and constructors of steel cross-sections."""
from hypothesis import strategies as st

GRADES = [235, 275, 355, 420, 500, 700]


def f(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda x: round(float(x), 3))


def idims():
    def mk(t):
        h, bh, tw, tf, r = t
        b = round(h * bh, 2)
        tw = min(tw, 0.2 * b)
        tf = min(max(tf, tw), h / 5)
        r = min(r, (b - tw) / 4, (h - 2 * tf) / 4)
        return {'h': h, 'b': b, 'tw': round(tw, 3), 'tf': round(tf, 3),
                'r': round(r, 3)}
    return st.tuples(f(70, 1100), f(0.25, 1.2), f(3, 40), f(4, 110),
                     st.one_of(st.just(0.0), f(3, 35))).map(mk)


def rhsdims(square=False):
    def mk(t):
        h, bh, tr = t
        b = h if square else round(h * bh, 2)
        t_ = round(max(2.0, min(tr, min(h, b) / 8)), 2)
        return {'h': h, 'b': b, 't': t_}
    return st.tuples(f(30, 420), f(0.35, 2.5), st.one_of(
        st.sampled_from([3.0, 4.0, 5.0, 6.0, 6.3, 7.1, 8.0, 10.0, 12.5, 16.0]),
        f(2, 20))).map(mk)


def chsdims():
    return st.tuples(f(20, 550), f(0.008, 0.2)).map(
        lambda t: {'d': t[0], 't': round(max(0.5, t[0] * t[1]), 3)})


def widims(sym=None):
    def mk(t):
        h, tw, bt, bb, tt, tb, same, a = t
        if sym or (sym is None and same == 1):
            bb, tb = bt, tt
        elif same == 2:
            bb, tb = round((3 * bt + bb) / 4, 3), tt
        return {'h': h, 'tw': tw, 'bt': bt, 'bb': bb, 'tt': tt, 'tb': tb,
                'a': a}
    return st.tuples(f(150, 1600), f(4, 20), f(90, 500), f(90, 500), f(5, 60),
                     f(5, 60), st.integers(0, 2), f(3, 8)).map(mk)


def wqdims():
    def mk(t):
        h, tw, bt, lip, tt, tb = t
        return {'h': h, 'tw': tw, 'bt': bt, 'bb': round(bt + 2 * tw + 2 * lip, 3),
                'tt': min(tt, round(h / 3, 2)), 'tb': tb}
    return st.tuples(f(100, 500), f(4, 20), f(80, 400), f(20, 150), f(5, 50),
                     f(5, 60)).map(mk)


def grade():
    return st.sampled_from(GRADES)


def section(kinds=('I', 'RHS', 'SHS', 'CHS', 'WI')):
    d = {'I': idims(), 'RHS': rhsdims(), 'SHS': rhsdims(True), 'CHS': chsdims(),
         'WI': widims(), 'WIsym': widims(True), 'WQ': wqdims()}
    return st.sampled_from(kinds).flatmap(lambda k: st.fixed_dictionaries(
        {'kind': st.just(k), 'fy': grade(), 'd': d[k]}))


def make(case):
    from metku.sections.steel.CHS import CHS
    from metku.sections.steel.ISection import CustomISection
    from metku.sections.steel.RHS import RHS, SHS
    from metku.sections.steel.wi import WISection
    from metku.sections.steel.wq import WQSection
    k, d, fy = case['kind'], case['d'], case['fy']
    if k == 'I':
        return CustomISection(d['h'], d['b'], d['tf'], d['tw'], d['r'], fy=fy)
    if k == 'RHS':
        return RHS(d['h'], d['b'], d['t'], fy=fy)
    if k == 'SHS':
        return SHS(d['h'], d['t'], fy=fy)
    if k == 'CHS':
        return CHS(d['d'], d['t'], fy=fy)
    if k in ('WI', 'WIsym'):
        return WISection(d['h'], d['tw'], [d['bt'], d['bb']], [d['tt'], d['tb']],
                         fy=fy, weld_throat=d['a'])
    if k == 'WQ':
        return WQSection(d['h'], d['tw'], [d['bt'], d['bb']],
                         [d['tt'], d['tb']], fy=fy)
    raise KeyError(k)


def outer_radius(t):
    """Corner radius of cold-formed hollow sections, EN 10219-2."""
    return 2 * t if t <= 6 else (2.5 * t if t <= 10 else 3 * t)


def ref(case):
    from lib import refsec
    k, d = case['kind'], case['d']
    if k == 'I':
        return refsec.isec(d['h'], d['b'], d['tf'], d['tw'], d['r'])
    if k == 'RHS':
        return refsec.rhs(d['h'], d['b'], d['t'], outer_radius(d['t']))
    if k == 'SHS':
        return refsec.rhs(d['h'], d['h'], d['t'], outer_radius(d['t']))
    if k == 'CHS':
        return refsec.chs(d['d'], d['t'])
    if k in ('WI', 'WIsym'):
        return refsec.wi(d['h'], d['tw'], d['bt'], d['tt'], d['bb'], d['tb'])
    if k == 'WQ':
        return refsec.wq(d['h'], d['tw'], d['bt'], d['tt'], d['bb'], d['tb'])
    raise KeyError(k)
