"""M01: stability of steel members, EN 1993-1-1, 6.3 and Annex B."""
import math

from hypothesis import strategies as st

from checks.S02 import expected, parts
from lib import gensec
from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('M01', 'member of intermediate slenderness under more than one '
              'kind of action',
              ['Annex B (method 2) with CmLT = 1; Cm = 0.9 for sway members',
               'the modulus G of EN 1993-1-1 or its rounding 80769..81000 MPa',
               'class 4 sections are not covered'])
E = 210e3
GS = (80769.0, 81001.0)
CURVE = {'a0': 0.13, 'a': 0.21, 'b': 0.34, 'c': 0.49, 'd': 0.76}


def curves(case):
    """(y, z, LT general, LT specific) of Tables 6.2, 6.4, 6.5."""
    k, d, fy = case['kind'], case['d'], case['fy']
    hi = fy > 420
    if k == 'I':
        if d['h'] / d['b'] > 1.2:
            yz = (('a0', 'a0') if hi else ('a', 'b')) if d['tf'] <= 40 else (
                ('a', 'a') if hi else ('b', 'c'))
        else:
            yz = (('a', 'a') if hi else ('b', 'c')) if d['tf'] <= 100 else (
                ('c', 'c') if hi else ('d', 'd'))
        lt = ('a', 'b') if d['h'] / d['b'] <= 2 else ('b', 'c')
    elif k in ('WI', 'WIsym'):
        yz = ('b', 'c') if max(d['tt'], d['tb']) <= 40 else ('c', 'd')
        lt = ('c', 'c') if d['h'] / min(d['bt'], d['bb']) <= 2 else ('d', 'd')
    elif k == 'WQ':
        yz, lt = ('b', 'b'), (None, None)
    else:
        yz, lt = ('c', 'c'), (None, None)
    return yz + lt


def chi(lam, alpha, l0=0.2, beta=1.0):
    if lam <= l0:
        return 1.0
    phi = 0.5 * (1 + alpha * (lam - l0) + beta * lam ** 2)
    return min(1.0, 1 / (phi + math.sqrt(phi ** 2 - beta * lam ** 2)))


def geo(case):
    ref = gensec.ref(case)
    return ref.A, ref.Iy(), ref.swapped().Iy(), ref.Wply(), ref.Wely()


@CHECK.clause('flexural', st.fixed_dictionaries({
    'sec': gensec.section(('I', 'RHS', 'SHS', 'CHS', 'WI', 'WIsym', 'WQ')),
    'lam': st.floats(0.05, 3.0), 'ky': st.floats(0.4, 2.2),
    'kz': st.floats(0.4, 2.2), 'n': st.lists(st.floats(-1.0, 0.5), min_size=1,
                                             max_size=3)}),
    quick=4000, thorough=80000, rule='Euler loads, slendernesses, buckling '
    'curves and buckling resistance')
def flexural(case):
    from metku.structures.steel.steel_member import SteelMember
    sc = case['sec']
    fy = sc['fy']
    sec = gensec.make(sc)
    A, Iy, Iz, Wpl, Wel = geo(sc)
    L = case['lam'] * math.pi * math.sqrt(E / fy * Iz / A)
    m = SteelMember(sec, L, Lcr=[case['ky'], case['kz']])
    k = (case['ky'], case['kz'])
    ncr = [math.pi ** 2 * E * i / (L * f) ** 2 for i, f in zip((Iy, Iz), k)]
    check_vec(m.ncrit(), ncr, 'Ncr', 3e-4)
    lam = [math.sqrt(A * fy / n) for n in ncr]
    check_vec(m.slenderness(), lam, 'slenderness', 3e-4)
    cv = curves(sc)
    nb = [chi(l, CURVE[c]) * A * fy for l, c in zip(lam, cv)]
    got = m.NbRd
    for i in (0, 1):
        check_close(got[i], nb[i], f"Nb,Rd {'yz'[i]}", 1e-3)
    check_close(m.weight(), A * L * 7850e-9, 'weight', 1e-6)
    for i, n in enumerate(case['n']):
        m.add_section(ned=n * A * fy, loc=i / max(len(case['n']) - 1, 1))
    worst = min(case['n'] + [0.0]) * A * fy
    r = m.check_buckling()
    for i in (0, 1):
        check_close(r[i], -worst / nb[i], f"utilisation {'yz'[i]}", 1e-3, 1e-9)
    if sc['kind'] in ('I', 'WIsym'):
        i02 = (Iy + Iz) / A
        lo, hi = [(G * sec.It + math.pi ** 2 * E * sec.Iw / L ** 2) / i02
                  for G in GS]
        nt = m.ncrit_T()
        need(lo * 0.999 <= nt <= hi * 1.001, f'Ncr,T {nt}, expected {lo}..{hi}')
        lt = math.sqrt(A * fy / nt)
        check_close(m.slenderness_torsional(), lt, 'torsional slenderness', 1e-3)
        check_close(m.torsional_buckling_strength(),
                    chi(lt, CURVE[cv[1]]) * A * fy, 'Nb,T', 1e-3)
    return max(lam) > 0.2 and worst < 0


def mcr_range(sec, sc, L, C, k, za, sym):
    out = []
    Iz, Iw, It = sec.Iz, sec.Iw, sec.It
    zs, zj = (0.0, 0.0) if sym == 'dual' else (sec.zs, sec.zj)
    zg = za - zs
    for G in GS:
        p = math.pi ** 2 * E * Iz / (k[0] * L) ** 2
        q = C[1] * zg - (C[2] * zj if sym == 'mono' else 0.0)
        out.append(C[0] * p * (math.sqrt((k[0] / k[1]) ** 2 * Iw / Iz
                                         + G * It / p + q * q) - q))
    return min(out), max(out)


@CHECK.clause('lateral', st.fixed_dictionaries({
    'sec': gensec.section(('I', 'WI', 'WIsym')), 'lod': st.floats(2, 60),
    'C': st.tuples(st.floats(0.5, 3), st.floats(0, 2), st.floats(0, 3)),
    'k': st.tuples(st.floats(0.5, 1.0), st.floats(0.5, 1.0)),
    'za': st.floats(-0.5, 0.5), 'method': st.sampled_from(['specific', 'general']),
    'm': st.floats(0.01, 1.0), 'mono': st.booleans()}),
    quick=5000, thorough=80000, rule='critical moment and lateral-torsional '
    'buckling resistance')
def lateral(case):
    from metku.structures.steel.steel_member import SteelMember
    sc = case['sec']
    k, d, fy = sc['kind'], sc['d'], sc['fy']
    if parts(sc)[1] <= 0 or min(parts(sc)[0]) <= 0:
        raise Skip
    sym = 'mono' if k == 'WI' or (k == 'WIsym' and case['mono']) else 'dual'
    sec = gensec.make(sc)
    A, Iy, Iz, Wpl, Wel = geo(sc)
    L = case['lod'] * d['h']
    mem = SteelMember(sec, L, LT_buckling=True, symmetry=sym)
    C, kk = list(case['C']), list(case['k'])
    za = case['za'] * d['h']
    lo, hi = mcr_range(sec, sc, L, C, kk, za, sym)
    got = mem.mcrit(C, kk, za)
    need(lo * (1 - 1e-6) <= got <= hi * (1 + 1e-6),
         f'Mcr {got}, expected {lo}..{hi}')
    lo0, hi0 = mcr_range(sec, sc, L, (1.12, 0.45, 0.525), (1, 1), 0.0, sym)
    m0 = mem.mcrit()
    need(lo0 * (1 - 1e-6) <= m0 <= hi0 * (1 + 1e-6),
         f'default Mcr {m0}, expected {lo0}..{hi0}')
    if lo <= 0:
        raise Skip
    M = case['m'] * Wel * fy
    cl = expected(sc, 0.0, M)
    if cl is None or len(cl) > 1 or 4 in cl:
        raise Skip
    MRd = (Wpl if cl.pop() < 3 else Wel) * fy
    mem.add_section(myed=M, loc=0.5)
    sec.Med = [M, 0.0]
    cv = curves(sc)

    def chi_lt(Mcr, method):
        lam = math.sqrt(MRd / Mcr)
        l0, beta, al = ((0.2, 1.0, CURVE[cv[2]]) if method == 'general' else
                        (0.4, 0.75, CURVE[cv[3]]))
        if abs(lam - l0) < 1e-3 or abs(M / Mcr - l0 ** 2) < 1e-4:
            raise Skip
        if lam <= l0 or M / Mcr <= l0 ** 2:
            return 1.0, lam
        x = chi(lam, al, l0, beta)
        return (min(x, 1 / lam ** 2) if method != 'general' else x), lam
    x, lam = chi_lt(got, case['method'])
    check_close(mem.LT_slenderness(got), lam, 'LT slenderness', 3e-4)
    check_close(mem.LT_buckling_strength(got, case['method']), x * MRd, 'MbRd',
                1e-3)
    x0, _ = chi_lt(m0, 'specific')
    check_close(mem.MbRd, x0 * MRd, 'property MbRd', 1e-3)
    check_close(mem.check_LT_buckling(), M / (x0 * MRd), 'LTB utilisation', 1e-3)
    check_close(mem.stability['LTB'], M / (x0 * MRd), 'stored LTB', 1e-3)
    h = d['h']
    check_close(mem.required_shear_stiffness(), 70 / h ** 2 * (
        math.pi ** 2 * E * (sec.Iw + 0.25 * h ** 2 * Iz) / L ** 2
        + 80769.23 * sec.It), 'required shear stiffness (BB.2)', 1e-3)
    return x < 1 and sym


def cm(Me, Ms, load):
    """Table B.3."""
    a, b = Me
    psi = 0.0 if max(abs(a), abs(b)) < 1e-9 else (
        a * b / max(abs(a), abs(b)) ** 2)
    lin = max(0.6 + 0.4 * psi, 0.4)
    if Ms is None or Ms == 0.5 * (a + b):
        return lin
    Mh = max(a, b, key=abs)
    if abs(abs(Ms) - abs(Mh)) < 1e-6 * abs(Mh) or Ms == 0 or abs(
            Ms - 0.5 * (a + b)) < 1e-4 * abs(Mh):
        raise Skip
    uni = load == 'uniform'
    if abs(Ms) <= abs(Mh):
        s = Ms / Mh
        if s >= 0:
            return max(0.4, 0.2 + 0.8 * s)
        if psi >= 0:
            return max(0.4, (0.1 if uni else 0.0) - 0.8 * s)
        return max(0.4, (0.1 * (1 - psi) if uni else -0.2 * psi) - 0.8 * s)
    h = Mh / Ms
    if h >= 0 or psi >= 0:
        return 0.95 + 0.05 * h if uni else 0.9 + 0.1 * h
    return (0.95 + 0.05 * h * (1 + 2 * psi) if uni else
            0.9 + 0.1 * h * (1 + 2 * psi))


MOM = st.one_of(st.just(0.0), st.floats(-1, 1).map(lambda x: round(x, 4)))


@CHECK.clause('factors', st.fixed_dictionaries({
    'Me': st.tuples(MOM, MOM), 'Ms': st.one_of(st.none(), MOM),
    'load': st.sampled_from(['uniform', 'point']), 'n': st.floats(0, 1.2),
    'lam': st.floats(0.2, 3), 'Cm': st.floats(0.4, 1), 'cls': st.integers(1, 3),
    'alpha': st.sampled_from(sorted(CURVE.values())),
    'CmLT': st.floats(0.4, 1), 'sw': st.booleans()}),
    quick=3000, thorough=200000, rule='interaction factors of Annex B and '
    'reduction factors')
def factors(case):
    from metku.eurocodes.en1993 import en1993_1_1 as en
    n, lam, Cm, c = case['n'], case['lam'], case['Cm'], case['cls']
    plastic = c < 3
    kyy = Cm * (1 + (min(lam - 0.2, 0.8) if plastic else min(0.6 * lam, 0.6)) * n)
    check_close(en.kyy(n, lam, Cm, section_class=c), kyy, 'kyy', 1e-9)
    for prof in ('hollow', 'I'):
        f = ((min(lam - 0.2, 0.8) if prof == 'hollow' else
              min(2 * lam - 0.6, 1.4)) if plastic else min(0.6 * lam, 0.6))
        check_close(en.kzz(n, lam, Cm, section_class=c, profile=prof),
                    Cm * (1 + f * n), 'kzz', 1e-9)
    check_close(en.kzy(kyy, n, lam, section_class=c),
                (0.6 if plastic else 0.8) * kyy, 'kzy', 1e-9)
    check_close(en.kyz(kyy, section_class=c), (0.6 if plastic else 1.0) * kyy,
                'kyz', 1e-9)
    q = n / (case['CmLT'] - 0.25)
    if plastic and lam < 0.4:
        kzy = min(0.6 + lam, 1 - 0.1 * lam * q)
    else:
        kzy = 1 - (0.1 if plastic else 0.05) * min(lam, 1) * q
    check_close(en.kzy(kyy, n, lam, CmLT=case['CmLT'], section_class=c,
                       susceptible_to_torsion=True), kzy, 'kzy (LTB)', 1e-9, 1e-12)
    check_close(en.buckling_reduction_factor(lam, case['alpha']),
                chi(lam, case['alpha']), 'chi', 1e-9)
    Me = [x * 1e8 for x in case['Me']]
    Ms = None if case['Ms'] is None else case['Ms'] * 1e8
    want = cm(Me, Ms, case['load'])
    check_close(en.equivalent_moment_factor(Me, Ms, case['load']), want, 'Cm',
                1e-6)
    check_close(en.equivalent_moment_factor(Me[::-1], Ms, case['load']), want,
                'Cm, ends swapped', 1e-6)
    check_close(en.equivalent_moment_factor([-x for x in Me], None if Ms is None
                                            else -Ms, case['load']), want,
                'Cm, signs changed', 1e-6)
    return Ms is not None


@CHECK.clause('beamcolumn', st.fixed_dictionaries({
    'sec': gensec.section(('I', 'RHS', 'SHS', 'CHS', 'WI', 'WIsym')),
    'lam': st.floats(0.1, 2.0), 'ky': st.floats(0.5, 2.0),
    'kz': st.floats(0.5, 1.0), 'ltb': st.booleans(), 'sway': st.booleans(),
    'load': st.sampled_from(['uniform', 'point']),
    'secs': st.lists(st.tuples(st.floats(-0.9, 0.2), st.floats(-1, 1), st.floats(-0.5, 0.5))
                     .map(lambda x: tuple(round(v, 6) for v in x)), min_size=2, max_size=5),
    'order': st.permutations(range(5)), 'before': st.booleans(),
    'more': st.sampled_from([0, 0, 0, 3, 9]), 'mz': st.booleans(),
    'stale': st.floats(-1, 0.5), 'zero': st.booleans(),
    'same': st.one_of(st.just(''), st.sampled_from(['N', 'M', 'V', 'NM', 'NV', 'NMV', 'YT']))}),
    quick=6000, thorough=100000, rule='sections along the member in any '
    'order: section, buckling, LTB and beam-column utilisation')
def beamcolumn(case):
    from metku.structures.steel.steel_member import SteelMember
    sc = case['sec']
    k, fy = sc['kind'], sc['fy']
    if k != 'CHS' and (parts(sc)[1] <= 0 or min(parts(sc)[0]) <= 0):
        raise Skip
    sec = gensec.make(sc)
    A, Iy, Iz, Wpl, Wel = geo(sc)
    L = case['lam'] * math.pi * math.sqrt(E / fy * Iz / A)
    ltb = case['ltb'] and k in ('I', 'WIsym', 'WI')
    mono = k == 'WI'
    mem = SteelMember(sec, L, Lcr=[case['ky'], case['kz']], LT_buckling=ltb,
                      symmetry='mono' if mono else 'dual')
    S = case['secs']
    n = len(S)
    locs = {2: [0, 1], 3: [0, 0.5, 1], 4: [0, 0.3, 0.5, 1],
            5: [0, 0.25, 0.5, 0.8, 1]}[n]
    # unsymmetric sections: top flange in compression
    mo = [abs(s[1]) if mono else s[1] for s in S]
    order = [j for j in case['order'] if j < n]
    if case['more']:
        # further sections between the others: the last ones govern
        k0 = case['more']
        locs = locs + [round(0.51 + 0.04 * i, 2) for i in range(k0)]
        S = [(s[0] * 0.3, s[1], s[2] * 0.2) for s in S] + [
            (s[0], 0.0, s[2]) for s in (list(S) * 5)[:k0]]
        mo += [0.3 * abs(m) if mono else 0.3 * m for m in (mo * 5)[:k0]]
        order += list(range(n, n + k0))
        n += k0
    if case['zero']:
        mo = [0.0] * n
    mz = 1e6 if case['mz'] else 0.0
    vals = [(s[0] * A * fy, m * Wel * fy, s[2] * sec.VzRd)
            for s, m in zip(S, mo)]
    for i in order:
        mem.add_section(ned=vals[i][0], myed=vals[i][1], vzed=vals[i][2],
                        mzed=mz if i == order[0] else 0.0, loc=locs[i])
    need(mem.nsect() == n, 'number of sections')
    # the same force for all the sections
    one = vals[0]
    if 'N' in case['same']:
        mem.ned = one[0]
        vals = [(one[0], v[1], v[2]) for v in vals]
    if 'M' in case['same']:
        mem.myed = one[1]
        vals = [(v[0], one[1], v[2]) for v in vals]
    if 'V' in case['same']:
        mem.vzed = one[2]
        vals = [(v[0], v[1], one[2]) for v in vals]
    if 'Y' in case['same']:
        mem.mzed = -2 * mz
        check_vec(mem.mzed, [-2 * mz] * n, 'mzed', 1e-12)
        mem.mzed = mz
    for a in ('vyed', 'ted') if 'T' in case['same'] else ():
        setattr(mem, a, one[0])
        check_vec(getattr(mem, a), [one[0]] * n, a, 1e-12)
        setattr(mem, a, 0.0)
    for a, q in (('ned', 0), ('myed', 1), ('vzed', 2)):
        check_vec(getattr(mem, a), [vals[i][q] for i in order], a, 1e-12)
    check_vec(list(mem.vyed) + list(mem.ted), [0.0] * (2 * n), 'vyed, ted', 1e-12)
    N = min(min(v[0] for v in vals), 0.0)
    M = max(abs(v[1]) for v in vals)
    cl = expected(sc, N, M)
    if cl is None or len(cl) > 1 or 4 in cl:
        raise Skip
    c = cl.pop()
    check_close(mem.NcEd, N, 'NcEd', 1e-9)
    check_close(mem.MEdY, M, 'MEdY', 1e-9)
    check_close(mem.NEd, max(abs(v[0]) for v in vals), 'NEd', 1e-9)
    if case['before']:
        mem.check_sections()
        mem.check_LT_buckling() if ltb else mem.check_buckling()
    # sections
    per = []
    fresh = gensec.make(sc)
    for v in vals:
        fresh.Ned, fresh.Med, fresh.Ved = v[0], [v[1], 0.0], [0.0, v[2]]
        if fresh.section_class() > 3:
            raise Skip
        per.append(max(fresh.section_resistance()))
    check_close(mem.check_sections(), max(per), 'section utilisation', 1e-6, 1e-9)
    MRd = (Wpl if c < 3 else Wel) * fy
    cv = curves(sc)
    lam = [math.sqrt(A * fy / (math.pi ** 2 * E * i / (L * f) ** 2))
           for i, f in ((Iy, case['ky']), (Iz, case['kz']))]
    nb = [chi(l, CURVE[q]) * A * fy for l, q in zip(lam, cv)]
    un = [-N / x for x in nb]
    if case['sway']:
        Cm = 0.9
    else:
        ends = [vals[0][1], vals[locs.index(1)][1]]
        Ms = vals[locs.index(0.5)][1] if 0.5 in locs else None
        if M < 1e-6:
            Cm = 0.9
        elif max(abs(e) for e in ends) < 1e-6 * M:
            raise Skip
        else:
            Cm = cm(ends, Ms, case['load'])
    f = min(lam[0] - 0.2, 0.8) if c < 3 else min(0.6 * lam[0], 0.6)
    kyy = Cm * (1 + f * un[0])
    Mb = MRd
    kzy = 0.0
    if ltb:
        Mcr = mem.mcrit()
        l = math.sqrt(MRd / Mcr)
        if abs(l - 0.4) < 1e-3 or abs(M / Mcr - 0.16) < 1e-4:
            raise Skip
        x = 1.0 if l <= 0.4 or M / Mcr <= 0.16 else min(
            chi(l, CURVE[cv[3]], 0.4, 0.75), 1 / l ** 2)
        Mb = x * MRd
        if c < 3 and lam[1] < 0.4:
            kzy = min(0.6 + lam[1], 1 - 0.1 * lam[1] / 0.75 * un[1])
        else:
            kzy = 1 - (0.1 if c < 3 else 0.05) * min(lam[1], 1) / 0.75 * un[1]
        # whatever the section was used for before
        sec.Ned = case['stale'] * A * fy
        check_close(mem.check_LT_buckling(), M / Mb, 'LTB utilisation', 1e-3,
                    1e-9)
    elif mz:
        kzy = (0.6 if c < 3 else 0.8) * kyy
    want = [un[0] + kyy * M / Mb, un[1] + kzy * M / Mb]
    if M < 1e-6:
        want = [0.0, 0.0]
    got = mem.check_beamcolumn(sway=case['sway'], load=case['load'])
    check_vec(got, want, f'beam-column utilisation ({k}, class {c})', 1.5e-3, 1e-9)
    check_close(mem.stability['bc_y'], want[0], 'stored bc_y', 1.5e-3, 1e-9)
    check_close(mem.stability['bc_z'], want[1], 'stored bc_z', 1.5e-3, 1e-9)
    if case['load'] == 'uniform':
        total = [max(per)]
        if ltb:
            check_close(mem.stability['LTB'], M / Mb, 'stored LTB', 1e-3, 1e-9)
            total.append(M / Mb)
        if N < 0:
            total += un + want
        check_close(mem.design(sway=case['sway']), max(total), 'design()', 2e-3, 1e-9)
    return N < 0 and M > 0 and (k, c, ltb)


@CHECK.clause('cantilever', st.fixed_dictionaries({
    'sec': gensec.section(('I',)), 'K': st.floats(0.12, 2.4),
    'load': st.sampled_from(['uniform', 'point']),
    'loc': st.sampled_from(['middle', 'top', 'bottom']), 'free': st.booleans()}),
    quick=500, thorough=20000, rule='published approximation for cantilevers '
    '(Andrade et al. 2007)')
def cantilever(case):
    from metku.structures.steel.steel_member import SteelMember
    sc = case['sec']
    sec = gensec.make(sc)
    d = sc['d']
    hs = d['h'] - d['tf']
    G = 80769.23
    L = math.pi / case['K'] * math.sqrt(E * sec.Iz * hs ** 2 / 4 / G / sec.It)
    mem = SteelMember(sec, L)
    K = case['K']
    q = math.sqrt(1 + K * K)
    T = {(True, 'point'): ((2.437, 0.613, -0.105), (0.409, 1.444, 0.070),
                           (0.529, 0.234, 0.149)),
         (True, 'uniform'): ((3.840, 1.496, -0.247), (0.984, 1.420, 0.165),
                             (1.028, 0.388, 0.150)),
         (False, 'point'): ((2.462, 2.383, 0), (0.380, 2.092, -0.318),
                            (0.512, 0.370, -0.033)),
         (False, 'uniform'): ((3.962, 5.531, 0), (1.130, 1.539, -0.176),
                              (1.049, 0.234, -0.020))}
    t = T[(case['free'], case['load'])]
    C1 = (t[0][0] + t[0][1] * K + t[0][2] * K * K) / q
    loc = case['loc']
    za = {'middle': 0.0, 'top': 0.5, 'bottom': -0.5}[loc] * d['h']
    c2 = {'middle': (0, 0, 0), 'top': t[1], 'bottom': t[2]}[loc]
    C2 = c2[0] + c2[1] * K + c2[2] * K * K
    lo, hi = mcr_range(sec, sc, L, (C1, C2, 0), (2, 1), za, 'dual')
    got = mem.mcrit_cantilever(case['load'], loc, case['free'])
    need(lo * 0.99 <= got <= hi * 1.01, f'Mcr {got}, expected {lo}..{hi}')
    top = mem.mcrit_cantilever(case['load'], 'top', case['free'])
    bot = mem.mcrit_cantilever(case['load'], 'bottom', case['free'])
    need(top <= bot * (1 + 1e-9), 'destabilising load gives larger Mcr')
    return loc != 'middle'
