"""L01: load combinations (EN 1990) and wind loads (EN 1991-1-4)."""
import itertools
import math

from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('L01', 'two or more variable loads act together, or a coefficient is interpolated',
              ['variable loads not negative', 'wall coefficients for areas over 10 m2',
               'roofs without parapets, monopitch roofs from 5 degrees, wind 0 or 180 degrees'])
PSI = {'A': (0.7, 0.5, 0.3), 'B': (0.7, 0.5, 0.3), 'C': (0.7, 0.7, 0.3), 'D': (0.7, 0.7, 0.6),
       'E': (1.0, 0.9, 0.8)}
KFI = {1: 0.9, 2: 1.0, 3: 1.1}
LOAD = st.fixed_dictionaries({
    'kind': st.sampled_from(['G', 'A', 'Q', 'S', 'W']),
    'v': st.one_of(st.floats(0.1, 8), st.sampled_from([2.0, 2.75, 2.74, 3.0])),
    'dir': st.sampled_from(['y', 'y', 'x']),
    'ids': st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True)})


def psis(l, cls):
    if l['kind'] == 'S':
        return (0.7, 0.4, 0.2) if l['v'] < 2.75 else (0.7, 0.5, 0.2)
    if l['kind'] == 'W':
        return (0.6, 0.2, 0.0)
    return PSI[cls]


def totals(k, comb, n):
    """Sums per id and direction of [(load, value, factor)], x and y."""
    out = {'x': [None] * n, 'y': [None] * n}
    for l, v, f in comb:
        for i in l['ids']:
            for d in 'xy':
                out[d][i] = (out[d][i] or 0) + (v * f if l['dir'] == d else 0)
    return out


def same(got, want, tol):
    for d in 'xy':
        g = list(got[d])
        w = want[d]
        for i in range(max(len(g), len(w))):
            a = g[i] if i < len(g) else None
            b = w[i] if i < len(w) else None
            if (a or 0) == 0 and (b or 0) == 0:
                continue
            if a is None or b is None or abs(a - b) > tol:
                return False
    return True


@CHECK.clause('combinations', st.fixed_dictionaries({
    'loads': st.lists(LOAD, min_size=1, max_size=6), 'cls': st.sampled_from('ABCDE'),
    'cc': st.sampled_from([1, 2, 3]), 'kk': st.one_of(st.just(1), st.floats(0.5, 10)),
    'L': st.one_of(st.none(), st.floats(1, 40)), 'multi': st.booleans()}),
    quick=3000, thorough=100000, rule='ULS, SLS and accidental combinations with the largest '
    'total; non-trivial with at least two variable loads')
def combinations(k):
    from metku.eurocodes.en1991 import en1991 as en
    mk = {'G': en.Load, 'A': en.AreaLoad, 'Q': en.ImposedLoad, 'S': en.SnowLoad,
          'W': en.WindLoad}
    objs = [mk[l['kind']](l['v']) for l in k['loads']]
    args = [[o, l['dir'], list(l['ids'])] for o, l in zip(objs, k['loads'])]
    if k['multi']:
        m = en.MultiCombiner(k['cls'], k['cc'], k['kk'])
        m.add(*args)
        if k['L'] is not None:
            m.use_reduction_factor(k['L'])
        res = m.get_result()
        split = m.SLS.get_result(True)
    else:
        cs = [c(k['cls'], k['cc'], k['kk']) for c in
              (en.ACCCombiner, en.SLSCombiner, en.ULSCombiner)]
        for c in cs:
            for a in args:
                c.add(a)
            if k['L'] is not None:
                c.use_reduction_factor(k['L'])
        res = dict(zip(('acc', 'sls', 'uls'), [c.get_result() for c in cs]))
        split = cs[1].get_result(True)
    for o, l in zip(objs, k['loads']):
        need(o.value == l['v'], 'combining changes the load itself')
    G, Q = [], []
    for l in k['loads']:
        v = l['v'] * (1 if l['kind'] == 'G' else k['kk'])
        if l['kind'] in 'GA':
            G.append((l, v))
        else:
            if l['kind'] == 'Q' and k['L'] is not None and k['cls'] != 'E':
                v *= min(1, max(0.7, 5 / 7 * PSI[k['cls']][0] + 10 / (k['kk'] * k['L'])))
            Q.append((l, v, psis(l, k['cls'])))
    f = KFI[k['cc']]
    g = [(l, v, 1.0) for l, v in G]
    uls = [[(l, v, 1.35 * f) for l, v in G]]
    char, freq, acc = [], [], [g]
    for i, (l, v, p) in enumerate(Q):
        o = Q[:i] + Q[i + 1:]
        uls.append([(a, b, 1.15 * f) for a, b in G] + [(l, v, 1.5 * f)]
                   + [(a, b, 1.5 * f * c[0]) for a, b, c in o])
        char.append(g + [(l, v, 1)] + [(a, b, c[0]) for a, b, c in o])
        freq.append(g + [(l, v, p[1])] + [(a, b, c[2]) for a, b, c in o])
        lead = p[1] if l['kind'] in 'SW' else p[2]
        acc.append(g + [(l, v, lead)] + [(a, b, c[2]) for a, b, c in o])
    quasi = [g + [(a, b, c[2]) for a, b, c in Q]]
    char, freq = char or [g], freq or [g]
    n, tol = 5, 0.005 * (len(k['loads']) + 1)
    for what, got, cands in (('uls', res['uls'], uls), ('acc', res['acc'], acc),
                             ('sls char', res['sls']['char'], char),
                             ('sls freq', res['sls']['freq'], freq),
                             ('sls quasi', res['sls']['quasi'], quasi)):
        tot = [sum(v * c for _, v, c in cand) for cand in cands]
        top = max(tot)
        ok = [totals(k, c, n) for c, t in zip(cands, tot) if t >= top - 1e-9 * (1 + top)]
        need(any(same(got, w, tol) for w in ok),
             f'{what}: {got} instead of {ok}')
    for key in ('char', 'freq', 'quasi'):
        s = {d: [0] * n for d in 'xy'}
        for part in split[key].values():
            for d in 'xy':
                for i, x in enumerate(part[d]):
                    s[d][i] += x or 0
        need(same(s, res['sls'][key], 2 * tol), f'split {key}: {split[key]} does not add up '
             f'to {res["sls"][key]}')
    return len(Q) > 1


Z0 = {0: (0.003, 1), 1: (0.01, 1), 2: (0.05, 2), 3: (0.3, 5), 4: (1.0, 10)}


@CHECK.clause('wind', st.fixed_dictionaries({
    'z': st.one_of(st.floats(0.5, 200), st.floats(0.5, 12)), 'cat': st.integers(0, 4),
    'vb': st.floats(15, 40), 'cd': st.floats(0.7, 1), 'cs': st.floats(0.7, 1),
    'z2': st.floats(0.5, 200)}), quick=800, thorough=30000, rule='velocities and pressures')
def wind(k):
    from metku.eurocodes.en1991 import en1991_1_4 as w
    check_close(w.basic_wind_velocity(k['vb'], k['cd'], k['cs']), k['vb'] * k['cd'] * k['cs'],
                'basic velocity', 1e-12)

    def ref(z):
        z0, zm = Z0[k['cat']]
        kr = 0.18 if k['cat'] == 0 else 0.19 * (z0 / 0.05) ** 0.07
        cr = kr * math.log(max(z, zm) / z0)
        Iv = 1 / math.log(max(z, zm) / z0)
        vm = k['vb'] * cr
        return cr, vm, Iv, (1 + 7 * Iv) * 0.5 * 1.25 * vm ** 2
    cr, vm, Iv, qp = ref(k['z'])
    check_close(w.terrain_roughness(k['z'], k['cat']), cr, 'roughness', 1e-9)
    check_close(w.mean_wind_velocity(k['vb'], k['z'], k['cat']), vm, 'mean velocity', 1e-9)
    check_close(w.turbulence_intensity(k['z'], k['cat']), Iv, 'turbulence', 1e-9)
    check_close(w.peak_velocity_pressure(k['z'], k['cat'], k['vb']), qp, 'peak pressure', 1e-9)
    check_close(w.basic_velocity_pressure(k['vb']), 0.625 * k['vb'] ** 2, 'basic pressure', 1e-9)
    a = w.peak_velocity_pressure(k['z'], k['cat'], k['vb'])
    b = w.peak_velocity_pressure(k['z2'], k['cat'], k['vb'])
    need((a - b) * (k['z'] - k['z2']) >= -1e-9 * a, 'pressure decreases with height')
    if k['cat'] > 0 and k['z'] >= 10:
        need(w.peak_velocity_pressure(k['z'], k['cat'] - 1, k['vb']) > a or k['cat'] == 1,
             'pressure increases with roughness')
    check_close(w.wind_pressure_ext(a, -0.7), -0.7 * a, 'external pressure', 1e-12)
    check_close(w.wind_pressure_int(a, 0.2), 0.2 * a, 'internal pressure', 1e-12)
    return k['z'] > Z0[k['cat']][1]


def lin(x, pts):
    """Linear between the points, constant outside."""
    if x <= pts[0][0]:
        return pts[0][1]
    for (a, fa), (b, fb) in zip(pts, pts[1:]):
        if x <= b:
            return fa + (fb - fa) * (x - a) / (b - a)
    return pts[-1][1]


@CHECK.clause('buildings', st.fixed_dictionaries({
    'l': st.floats(4, 100), 'w': st.floats(4, 60), 'h': st.floats(2.6, 60), 'qp': st.floats(0.2, 2),
    'dir': st.sampled_from(['long', 'short']), 'ratio': st.one_of(
        st.none(), st.sampled_from([0.25, 1, 5]), st.floats(0.1, 6)),
    'flat': st.tuples(st.floats(4, 80), st.floats(4, 80), st.floats(2, 40))}),
    quick=1500, thorough=50000, rule='walls (Table 7.1, Fig. 7.5) and flat roofs (Table 7.2)')
def buildings(k):
    from metku.eurocodes.en1991 import en1991_1_4 as w
    b, d = (k['l'], k['w']) if k['dir'] == 'long' else (k['w'], k['l'])
    h = k['h'] if k['ratio'] is None else k['ratio'] * d
    if b * h <= 10:
        raise Skip
    z = w.rect_building_wall_pressure(k['l'], k['w'], h, k['qp'], k['dir'])
    r, e = h / d, min(b, 2 * h)
    c = {'A': -1.2, 'B': -0.8, 'C': -0.5, 'D': lin(r, [(0.25, 0.7), (1, 0.8)]),
         'E': lin(r, [(0.25, -0.3), (1, -0.5), (5, -0.7)])}
    L = {'A': min(e / 5, d), 'B': min(e, d) - min(e / 5, d), 'C': max(0, d - e), 'D': b, 'E': b}
    for q in 'ABCDE':
        check_close(z[q]['cpe'], c[q], f'coefficient of zone {q}', 1e-9)
        check_close(z[q]['we'], c[q] * k['qp'], f'pressure of zone {q}', 1e-9)
        check_close(z[q]['length'], L[q], f'length of zone {q}', 1e-9, 1e-9)
    d, b, h = k['flat']
    e = min(b, 2 * h)
    if e / 2 > d:
        raise Skip
    z = w.flat_roof_pressure(d, b, h, k['qp'])
    for q, c in (('F', -1.8), ('G', -1.2), ('H', -0.7)):
        check_close(z[q]['we'], c * k['qp'], f'pressure of zone {q}', 1e-9)
    check_vec(sorted(z['I']['we']), [-0.2 * k['qp'], 0.2 * k['qp']], 'pressure of zone I', 1e-9)
    A = (2 * z['F']['length'] * z['F']['width'] + z['G']['length'] * z['G']['width']
         + z['H']['length'] * z['H']['width'] + z['I']['length'] * z['I']['width'])
    check_close(A, b * d, 'area of the zones of a flat roof', 1e-9)
    check_close(z['F']['length'], e / 4, 'length of zone F', 1e-9)
    check_close(z['F']['width'], e / 10, 'width of zone F', 1e-9)
    check_close(z['H']['width'], 0.4 * e, 'width of zone H', 1e-9)
    return 0.25 < r < 5


# Table 7.3a: angle, (F10, F1), (G10, G1), (H10, H1); suction and pressure
T0N = [(5, -1.7, -2.5, -1.2, -2.0, -0.6, -1.2), (15, -0.9, -2.0, -0.8, -1.5, -0.3, -0.3),
       (30, -0.5, -1.5, -0.5, -1.5, -0.2, -0.2), (45, 0, 0, 0, 0, 0, 0)]
T0P = [(5, 0, 0, 0), (15, 0.2, 0.2, 0.2), (30, 0.7, 0.7, 0.4), (45, 0.7, 0.7, 0.6),
       (60, 0.7, 0.7, 0.7), (75, 0.8, 0.8, 0.8)]
T180 = [(5, -2.3, -2.5, -1.3, -2.0, -0.8, -1.2), (15, -2.5, -2.8, -1.3, -2.0, -0.9, -1.2),
        (30, -1.1, -2.3, -0.8, -1.5, -0.8, -0.8), (45, -0.6, -1.3, -0.5, -0.5, -0.7, -0.7),
        (60, -0.5, -1.0, -0.5, -0.5, -0.5, -0.5), (75, -0.5, -1.0, -0.5, -0.5, -0.5, -0.5)]


@CHECK.clause('monopitch', st.one_of(st.floats(5, 89), st.sampled_from([5, 15, 30, 45, 60, 75])),
              quick=500, thorough=10000, rule='monopitch roofs, Table 7.3a')
def monopitch(a):
    from metku.eurocodes.en1991.en1991_1_4 import ExternalPressureMonoRoof
    p0, p180 = ExternalPressureMonoRoof(0, a), ExternalPressureMonoRoof(180, a)
    for i, zone in enumerate('FGH'):
        for j, q in enumerate(('cpe10', 'cpe1')):
            w = lin(a, [(r[0], r[1 + 2 * i + j]) for r in T180])
            check_close(getattr(p180, zone)[q], w, f'{zone} {q}, {a} deg, 180', 1e-9, 1e-9)
            g = getattr(p0, zone)[q]
            pos = lin(a, [(r[0], r[1 + i]) for r in T0P])
            neg = lin(a, [(r[0], r[1 + 2 * i + j]) for r in T0N])
            if isinstance(g, (list, tuple)):
                check_vec(g, [neg, pos], f'{zone} {q}, {a} deg, 0', 1e-9, 1e-9)
            else:
                need(a >= 60, f'{zone}: no suction at {a} deg')
                check_close(g, pos, f'{zone} {q}, {a} deg, 0', 1e-9, 1e-9)
    return a not in (5, 15, 30, 45, 60, 75)
