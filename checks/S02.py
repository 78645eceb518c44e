"""S02: cross-section classification, EN 1993-1-1 Table 5.2."""
import math

from hypothesis import strategies as st

from lib import gensec, refclass as rc
from lib.harness import Check, Skip, need

CHECK = Check('S02', 'a class decided by the slenderness of some part',
              ['compressed flange of welded sections in bending is the top '
               'flange', 'the classification considers axial force and '
               'major-axis bending (the library does not classify for '
               'minor-axis bending)'])
u = st.floats(0, 1, allow_nan=False)


def parts(case):
    """c/t of compression flange(s) and web(s), and web length c."""
    k, d = case['kind'], case['d']
    if k == 'I':
        cw = d['h'] - 2 * d['tf'] - 2 * d['r']
        return [((d['b'] - d['tw']) / 2 - d['r']) / d['tf']], cw, d['tw'], 1
    if k in ('RHS', 'SHS'):
        b = d['h'] if k == 'SHS' else d['b']
        R = gensec.outer_radius(d['t'])
        return [(b - 2 * R) / d['t']], d['h'] - 2 * R, d['t'], 2
    w = math.sqrt(2) * d['a']
    fl = [((b - d['tw']) / 2 - w) / t
          for b, t in ((d['bt'], d['tt']), (d['bb'], d['tb']))]
    return fl, d['h'] - d['tt'] - d['tb'] - 2 * w, d['tw'], 1


def expected(case, N, M):
    """Admissible classes; None if the state is at a threshold."""
    k, d, fy = case['kind'], case['d'], case['fy']
    e = rc.eps(fy)
    if N >= 0 and M == 0:
        return {1}
    ref = gensec.ref(case)
    if k == 'CHS':
        if N > 0 and N / ref.A >= abs(M) / ref.Wely() * (1 - 1e-3):
            if N / ref.A <= abs(M) / ref.Wely() * (1 + 1e-3):
                return None
            return {1}
        return rc.tube(d['d'] / d['t'], e)
    fl, cw, tw, nw = parts(case)
    outst = k in ('I', 'WI', 'WIsym')
    fcl = [rc.outstand(r, e) if outst else rc.internal_comp(r, e) for r in fl]
    r = cw / tw
    if M == 0:
        return rc.worst(rc.internal_comp(r, e), *fcl)
    if N > 0:
        if k == 'WI':
            return None        # asymmetric sections in tension: not specified
        if abs(N / ref.A / (abs(M) / ref.Wely()) - 1) < 2e-3:
            return None
        if N / ref.A > abs(M) / ref.Wely():
            return {1}
        N = 0.0                # classified as in pure bending
    F = fcl[0]
    A = ref.A
    if k in ('I', 'RHS', 'SHS', 'WIsym'):
        if N == 0:
            web = rc.internal_bend(r, e)
            if k == 'WIsym':      # classified through the stresses: limits jump at psi = -1
                web = web | rc.internal_comp_bend(r, e, 0.5, -1.0)
            return rc.worst(F, web)
        a = min(max(0.5 * (1 + -N / (nw * cw * tw * fy)), 0), 1)
        sN, sM = -N / A, abs(M) / ref.Wely()
        if k == 'WIsym':
            sM *= (d['h'] - 2 * d['tt']) / d['h']
        psi = (sN - sM) / (sN + sM)
        return rc.worst(F, rc.internal_comp_bend(r, e, a, psi))
    # welded, unsymmetric: compression at the top
    w = math.sqrt(2) * d['a']
    need_c = 0.5 * (A - N / fy)              # compressed area, plastic
    top = d['bt'] * d['tt'] + w * d['tw']
    a = min(max((need_c - top) / tw / cw, 0), 1)
    zc = ref.zc()
    I = ref.Iy()
    s1 = -N / A + abs(M) / I * (d['h'] - d['tt'] - zc)
    s2 = -N / A - abs(M) / I * (zc - d['tb'])
    psi = s2 / s1 if s1 > 0 else None
    return rc.worst(F, rc.internal_comp_bend(r, e, a, psi))


def slender_web(sc, state, c, d):
    """The section with a web near the limit of class c in this state."""
    sc = {'kind': sc['kind'], 'fy': sc['fy'], 'd': dict(sc['d'])}
    D, fy = sc['d'], sc['fy']
    if sc['kind'] == 'I':
        fl = [('b', 'tf')]
        inner = D['h'] - 2 * D['tf'] - 2 * D['r']
    elif sc['kind'] in ('WI', 'WIsym'):
        fl = [('bt', 'tt'), ('bb', 'tb')]
        inner = D['h'] - D['tt'] - D['tb'] - 2 * math.sqrt(2) * D['a']
    else:
        return sc
    if inner < 20:
        return sc
    tw0 = D['tw']
    for b, t in fl:         # stocky flanges
        grow = max(D[b] / 2 / (8.5 * rc.eps(fy)), D[t]) - D[t]
        D[t] += grow
        D['h'] += grow * (2 if len(fl) == 1 else 1)

    def above(tw):
        D['tw'] = tw
        ref = gensec.ref(sc)
        want = expected(sc, state[1] * ref.A * fy, state[2] * ref.Wely() * fy)
        return want is not None and min(want) > c

    lo, hi = inner / 400, min(inner / 5, min(D[b] for b, _ in fl) / 3)
    if lo >= hi or above(hi) or not above(lo):
        D['tw'] = tw0
        return sc
    for _ in range(25):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if above(m) else (lo, m)
    D['tw'] = hi / d
    return sc


def slim():
    """Sections whose parts are near the limits."""
    def mk(t):
        sec, which, lim, d, fy = t
        sec = {'kind': sec['kind'], 'fy': fy, 'd': dict(sec['d'])}
        k, D = sec['kind'], sec['d']
        e = rc.eps(fy)
        f = lim * e * d
        if k == 'I':
            if which == 'web':
                D['tw'] = max((D['h'] - 2 * D['tf'] - 2 * D['r']) / f, 1.0)
            else:
                D['tf'] = max(min(((D['b'] - D['tw']) / 2 - D['r']) / f,
                                  D['h'] / 5), 1.0)
        elif k in ('RHS', 'SHS', 'CHS'):
            pass
        else:
            w = math.sqrt(2) * D['a']
            if which == 'web':
                D['tw'] = max((D['h'] - D['tt'] - D['tb'] - 2 * w) / f, 1.0)
            else:
                D['tt'] = max(((D['bt'] - D['tw']) / 2 - w) / f, 1.0)
                if k == 'WIsym':
                    D['tb'] = D['tt']
        return sec
    return st.tuples(
        gensec.section(('I', 'RHS', 'SHS', 'CHS', 'WI', 'WIsym')),
        st.sampled_from(['web', 'flange']), st.sampled_from(
            [9, 10, 14, 33, 38, 42, 72, 83, 124, 50, 60, 100]),
        st.one_of(st.floats(0.97, 1.03), st.floats(0.6, 1.6)),
        gensec.grade()).map(mk)


def both(lo, hi):
    return st.tuples(st.just('NM'), st.floats(lo, hi), st.floats(0.02, 1.2))


STATE = st.one_of(
    both(-1.2, -0.005), both(-0.4, -0.005), both(-0.1, -0.005), both(0.005, 0.8), both(-0.4, -0.005),
    st.tuples(st.just('N'), st.floats(-1.2, -0.01), st.just(0.0)),
    st.tuples(st.just('M'), st.just(0.0), st.floats(0.02, 1.2)),
    st.tuples(st.just('N'), st.floats(0.0, 1.0), st.just(0.0)))


TARGET = st.tuples(st.integers(1, 3), st.one_of(st.floats(0.97, 1.03), st.floats(0.8, 1.25)))


@CHECK.clause('sections', st.fixed_dictionaries({
    'sec': st.one_of(slim(), gensec.section(('I', 'RHS', 'SHS', 'CHS', 'WI',
                                             'WIsym'))),
    'target': st.one_of(st.none(), TARGET, TARGET),
    'state': STATE, 'sign': st.sampled_from([1, -1]),
    'prev': st.one_of(st.none(), STATE)}), quick=8000, thorough=300000,
    rule='section under axial force and bending (after another state) vs. '
    'Table 5.2; class above 1')
def sections(case):
    sc = case['sec']
    if case['target']:
        sc = slender_web(sc, case['state'], *case['target'])
    if sc['kind'] in ('WI', 'WIsym') and parts(sc)[1] < 10:
        raise Skip
    if any(x <= 0 for x in (parts(sc)[0] if sc['kind'] != 'CHS' else [])):
        raise Skip
    if sc['kind'] != 'CHS' and parts(sc)[1] <= 0:
        raise Skip
    sec = gensec.make(sc)
    fy = sc['fy']
    ref = gensec.ref(sc)
    A, W = ref.A, ref.Wely()
    _, n, m = case['state']
    N, M = n * A * fy, m * W * fy
    if case['prev']:
        sec.Ned = case['prev'][1] * A * fy
        sec.Med = [case['prev'][2] * W * fy, 0.0]
        sec.section_class()
    sign = case['sign'] if sc['kind'] in ('I', 'RHS', 'SHS', 'CHS', 'WIsym') else 1
    sec.Ned = N
    sec.Med = [sign * M, 0.0]
    want = expected(sc, N, M)
    if want is None:
        raise Skip
    got = sec.section_class()
    need(got in want, lambda: f"{sc['kind']} class {got}, expected {want} "
         f"(N/Npl={n:.3f}, M/Mel={m:.3f})")
    need(sec.C == got, 'property C differs from section_class()')
    return max(want) > 1 and (sc['kind'], case['state'][0], max(want))


@CHECK.clause('tables', st.fixed_dictionaries({
    'f': st.sampled_from(['bend', 'comp', 'cb', 'out', 'chs']),
    'fy': st.one_of(st.floats(100, 1000), gensec.grade()),
    'which': st.integers(0, 2), 'd': st.one_of(
        st.sampled_from([1 - 1e-6, 1 + 1e-6]), st.floats(0.5, 1.5)),
    'a': st.one_of(st.sampled_from([0.0, 0.5, 0.5000001, 1.0]), u),
    'psi': st.one_of(st.sampled_from([-1.0, 0.0, 1.0, -0.9999]),
                     st.floats(-4, 1)), 'asfy': st.booleans()}),
    quick=4000, thorough=300000,
    rule='c/t at and around each limit of the table')
def tables(case):
    from metku.eurocodes.en1993 import en1993_1_1 as en
    fy = case['fy']
    e = rc.eps(fy)
    a, psi = case['a'], case['psi']
    need(abs(en.epsilon(fy) - e) < 1e-12, 'epsilon')
    i, d = case['which'], case['d']
    x = fy if case['asfy'] else e
    f = case['f']
    if f == 'bend':
        r = (72, 83, 124)[i] * e * d
        got, want = en.internal_part_in_bending(r, e), rc.internal_bend(r, e)
    elif f == 'comp':
        r = (33, 38, 42)[i] * e * d
        got, want = (en.internal_part_in_compression(r, x),
                     rc.internal_comp(r, e))
    elif f == 'out':
        r = (9, 10, 14)[i] * e * d
        got, want = (en.outstand_part_in_compression(r, x), rc.outstand(r, e))
    elif f == 'chs':
        r = (50, 70, 90)[i] * e ** 2 * d
        got, want = en.CHS_class(r, e), rc.tube(r, e)
    else:
        if 0 < a < 0.01:
            raise Skip
        lims = []
        for c in (1, 2, 3):
            lo, hi = 0.0, 1e5
            for _ in range(60):
                m = 0.5 * (lo + hi)
                if min(rc.internal_comp_bend(m, e, a, psi)) <= c:
                    lo = m
                else:
                    hi = m
            lims.append(lo)
        r = lims[i] * d
        got, want = (en.internal_part_comp_bend(r, x, a, psi),
                     rc.internal_comp_bend(r, e, a, psi))
    need(got in want, lambda: f'{f}: class {got} for c/t={r:.4f}, expected {want}')
    return f, i


@CHECK.clause('monotone', st.fixed_dictionaries({
    'sec': gensec.section(('I', 'RHS', 'SHS', 'CHS', 'WIsym', 'WQ')),
    'm': st.floats(0.02, 1.2), 'n': st.floats(-1.2, -0.01),
    'fy2': gensec.grade()}), quick=1000, thorough=50000,
    rule='pure bending <= compression and bending <= pure compression; a '
    'stronger steel is never in a better class')
def monotone(case):
    sc = case['sec']
    if sc['kind'] != 'CHS' and sc['kind'] != 'WQ' and (
            parts(sc)[1] <= 0 or min(parts(sc)[0]) <= 0):
        raise Skip
    sec = gensec.make(sc)
    fy = sc['fy']
    ref = gensec.ref(sc)
    N, M = case['n'] * ref.A * fy, case['m'] * ref.Wely() * fy

    def c(n, m):
        sec.Ned, sec.Med = n, [m, 0.0]
        return sec.section_class()
    b, p = c(0.0, M), c(N, 0.0)
    need(1 <= b <= 4 and 1 <= p <= 4, 'class outside 1..4')
    if sc['kind'] == 'WQ':
        e = rc.eps(fy)
        d = sc['d']
        F = rc.internal_comp(d['bt'] / d['tt'], e)
        hw = d['h'] - d['tt']
        zc, zp = ref.zc(), ref.zpl()
        a = min(max((d['tb'] + hw - zp) / hw, 0), 1)
        psi = -(zc - d['tb']) / (d['tb'] + hw - zc)
        want = rc.worst(F, rc.internal_comp(hw / d['tw'], e))
        need(p in want, f'WQ in compression: {p}, expected {want}')
        want = rc.worst(F, rc.internal_comp_bend(hw / d['tw'], e, a, psi))
        need(b in want, f'WQ in bending: {b}, expected {want}')
    else:
        cb = c(N, M)
        need(b <= cb <= p, f'bending {b}, both {cb}, compression {p}')
    other = dict(sc, fy=case['fy2'])
    s2 = gensec.make(other)
    s2.Ned, s2.Med = N, [0.0, 0.0]
    q = s2.section_class()
    need((q >= p) if case['fy2'] >= fy else (q <= p),
         f'class {p} for S{fy}, {q} for S{case["fy2"]}')
    return p > 1
