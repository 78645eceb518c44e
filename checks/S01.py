"""S01: geometric properties of steel cross-sections."""
import functools
import math
import re

from hypothesis import strategies as st

from lib import gensec, refsec
from lib.harness import Check, check_close, check_vec, need

CHECK = Check('S01', 'dimensions within the proportions of steel profiles',
              ['torsion constant of rolled I sections follows SCI P385, of '
               'welded sections the thin-walled sum; warping constant is '
               'thin-walled theory'])

APPROX = 2e-4      # rounded constants of the published formulas


def axis_vals(sec, name):
    v = getattr(sec, name)
    return v[0], v[1]


def check_common(sec, ref, what):
    A = ref.A
    check_close(sec.A, A, what + ' A', 1e-6)
    Iy = ref.Iy()
    check_close(axis_vals(sec, 'I')[0], Iy, what + ' Iy', APPROX)
    check_close(axis_vals(sec, 'Wel')[0], ref.Wely(), what + ' Wel,y', APPROX)
    check_close(axis_vals(sec, 'Wpl')[0], ref.Wply(), what + ' Wpl,y', 1e-5)
    z = ref.swapped()
    check_close(axis_vals(sec, 'I')[1], z.Iy(), what + ' Iz', APPROX)
    check_close(axis_vals(sec, 'Wel')[1], z.Wely(), what + ' Wel,z', APPROX)
    check_close(axis_vals(sec, 'Wpl')[1], z.Wply(), what + ' Wpl,z', 1e-5)
    check_close(sec.Iy, Iy, what + ' property Iy', APPROX)
    check_close(sec.Iz, z.Iy(), what + ' property Iz', APPROX)
    check_close(sec.Wely, ref.Wely(), what + ' property Wely', APPROX)
    check_close(sec.Wplz, z.Wply(), what + ' property Wplz', 1e-5)
    check_close(sec.iy(), math.sqrt(Iy / A), what + ' iy', APPROX)
    check_close(sec.iz(), math.sqrt(z.Iy() / A), what + ' iz', APPROX)
    check_close(sec.i0(), math.sqrt((z.Iy() + Iy) / A), what + ' i0', APPROX)
    # values set for one axis, turned or not, stay with that axis
    from metku.sections.steel.steel_section import SteelSection
    for turn in (False, True):
        c = type('Plain', (SteelSection,), {n: lambda self, *a: 1 for n in (
            'flange_class', 'web_class_bend', 'web_class_comp',
            'web_class_comp_bend')})(355, A, [1.0, 2.0], 1.0, [3.0, 4.0],
                                     [5.0, 6.0], 7.0)
        c.rotate = turn
        want = {}
        for i, n in enumerate(('Iy', 'Iz', 'Wely', 'Welz', 'Wply', 'Wplz')):
            want[n] = 1000.0 + i
            setattr(c, n, want[n])
        check_vec([getattr(c, n) for n in want], list(want.values()),
                  what + ' values set by axis', 1e-12)
    # a section turned by 90 degrees: the axes change places
    names = (('Iy', 'Iz'), ('Wply', 'Wplz'), ('Wely', 'Welz'))
    was = [(getattr(sec, a), getattr(sec, b)) for a, b in names]
    sec.rotate = True
    turned = [(getattr(sec, b), getattr(sec, a)) for a, b in names]
    r = sec.iy(), sec.iz()
    sec.rotate = False
    check_vec([v for t in turned for v in t], [v for t in was for v in t], what + ' turned section', 1e-12)
    check_vec(r, [math.sqrt(z.Iy() / A), math.sqrt(Iy / A)],
              what + ' radii of gyration of the turned section', APPROX)
    check_close(sec.weight(), A * 7850e-9, what + ' weight', 1e-6)
    check_close(sec.self_weight(), A * 7850e-9 * 9.81, what + ' self-weight', 1e-3)


def perimeter(case):
    k, d = case['kind'], case['d']
    if k == 'I':
        return (4 * d['b'] + 2 * d['h'] - 2 * d['tw'] - 8 * d['r']
                + 2 * math.pi * d['r'])
    if k in ('RHS', 'SHS'):
        b = d['h'] if k == 'SHS' else d['b']
        R = gensec.outer_radius(d['t'])
        return 2 * (d['h'] + b) - 8 * R + 2 * math.pi * R
    if k == 'CHS':
        return math.pi * d['d']
    if k == 'WQ':
        return 2 * (d['h'] + d['tb']) + 2 * d['bb']     # outer surface
    return 2 * (d['bt'] + d['bb']) + 2 * d['h'] - 2 * d['tw']


def torsion(case):
    k, d = case['kind'], case['d']
    if k == 'I':
        b, h, tf, tw, r = d['b'], d['h'], d['tf'], d['tw'], d['r']
        a1 = (-0.042 + 0.2204 * tw / tf + 0.1355 * r / tf
              - 0.0865 * tw * r / tf ** 2 - 0.0725 * (tw / tf) ** 2)
        D1 = ((tf + r) ** 2 + (r + 0.25 * tw) * tw) / (2 * r + tf)
        return (2 / 3 * b * tf ** 3 + (h - 2 * tf) * tw ** 3 / 3
                + 2 * a1 * D1 ** 4 - 0.42 * tf ** 4)
    if k in ('RHS', 'SHS'):
        b = d['h'] if k == 'SHS' else d['b']
        t = d['t']
        Rc = gensec.outer_radius(t) - 0.5 * t
        mid = refsec.rhs(d['h'] - t, b - t, 0.4 * min(b, d['h']) / 2, Rc)
        s = refsec.Sec()
        s.parts = [p for p in mid.parts if p[0] > 0]
        Ah = s.A
        u = 2 * (d['h'] + b - 2 * t) - 8 * Rc + 2 * math.pi * Rc
        return 4 * Ah ** 2 * t / u + u * t ** 3 / 3
    if k == 'CHS':
        return math.pi / 2 * ((d['d'] / 2) ** 4 - (d['d'] / 2 - d['t']) ** 4)
    return (d['bt'] * d['tt'] ** 3 + d['bb'] * d['tb'] ** 3
            + (d['h'] - d['tt'] - d['tb']) * d['tw'] ** 3) / 3


@CHECK.clause('shapes', gensec.section(('I', 'RHS', 'SHS', 'CHS', 'WI', 'WIsym',
                                        'WQ')), quick=1200, thorough=60000,
              rule='all properties of a generated section vs. numerical '
              'integration over its shape')
def shapes(case):
    sec = gensec.make(case)
    ref = gensec.ref(case)
    k, d = case['kind'], case['d']
    check_common(sec, ref, k)
    check_close(sec.Au, perimeter(case), k + ' Au', 1e-6)
    check_close(sec.section_factor, perimeter(case) / ref.A * 1e3,
                k + ' section factor', 1e-5)
    need(sec.fy == case['fy'], 'yield strength')
    if k != 'WQ':
        check_close(sec.It, torsion(case), k + ' It', 1e-6)
    if k == 'I':
        hs = d['h'] - d['tf']
        check_close(sec.Iw, d['tf'] * d['b'] ** 3 / 12 / 2 * hs ** 2, 'I Iw', 1e-6)
        check_close(sec.box_section_factor, 2 * (d['b'] + d['h']) / ref.A * 1e3,
                    'box section factor', 1e-5)
        check_close(sec.shadow_effect(), 0.9 * 2 * (d['b'] + d['h'])
                    / perimeter(case), 'shadow effect', 1e-5)
    if k in ('WI', 'WIsym'):
        it = d['tt'] * d['bt'] ** 3 / 12
        ib = d['tb'] * d['bb'] ** 3 / 12
        hw = d['h'] - d['tt'] - d['tb']
        iw = hw * d['tw'] ** 3 / 12
        hs = d['h'] - 0.5 * (d['tt'] + d['tb'])
        check_close(sec.Iw, it * ib / (it + ib) * hs ** 2, 'WI Iw',
                    1e-6 + 3 * iw / min(it, ib))
        check_close(sec.elastic_neutral_axis(), ref.zc(), 'WI centroid', 1e-6)
        check_close(sec.plastic_neutral_axis(), ref.zpl(), 'WI plastic axis', 1e-6)
        # shear centre and Wagner's factor of thin-walled theory
        zc = ref.zc()
        plates = [(d['bt'], d['tt'], d['h'] - d['tt'] / 2 - zc),
                  (d['bb'], d['tb'], d['tb'] / 2 - zc),
                  (d['tw'], hw, d['tb'] + hw / 2 - zc)]
        iz = sum(t * b ** 3 / 12 for b, t, _ in plates)
        zs = sum(t * b ** 3 / 12 * z for b, t, z in plates) / iz
        m3 = sum(z * t * b ** 3 / 12 + b * t * z ** 3 + 3 * z * b * t ** 3 / 12
                 for b, t, z in plates)
        zj = zs - 0.5 / ref.Iy() * m3
        check_close(sec.zs, zs, 'WI shear centre', 1e-5, 1e-6 * d['h'])
        check_close(sec.zj, zj, 'WI zj', 1e-5, 1e-6 * d['h'])
    if k == 'WQ':
        check_close(sec.elastic_neutral_axis(), ref.zc(), 'WQ centroid', 1e-6)
        dpl = d['tb'] + d['h'] - d['tt'] - sec.plastic_neutral_axis()
        check_close(dpl, ref.zpl(), 'WQ plastic axis', 1e-6)
        aw = 2 * d['tw'] * (d['h'] - d['tt'])
        check_close(sec.Ashear[1], (1.2 if case['fy'] <= 460 else 1.0) * aw,
                    'WQ shear area z', 1e-6)
        check_close(sec.Ashear[0], ref.A - aw, 'WQ shear area y', 1e-6)
    if k == 'I':
        Av = ref.A - 2 * d['b'] * d['tf'] + (d['tw'] + 2 * d['r']) * d['tf']
        check_close(sec.Ashear[1], Av, 'I shear area z', 1e-6)
        check_close(sec.Ashear[0], 2 * d['b'] * d['tf'], 'I shear area y', 1e-6)
    if k in ('RHS', 'SHS'):
        b = d['h'] if k == 'SHS' else d['b']
        check_close(sec.Ashear[1], ref.A * d['h'] / (d['h'] + b), 'Avz', 1e-6)
        check_close(sec.Ashear[0], ref.A * b / (d['h'] + b), 'Avy', 1e-6)
    if k == 'CHS':
        check_close(sec.Ashear[1], 2 * ref.A / math.pi, 'CHS shear area', 1e-6)
    if k in ('WI', 'WIsym'):
        hw = d['h'] - d['tt'] - d['tb']
        check_close(sec.Ashear[1], (1.2 if case['fy'] <= 460 else 1.0) * hw
                    * d['tw'], 'WI shear area z', 1e-6)
        check_close(sec.Ashear[0], ref.A - hw * d['tw'], 'WI shear area y', 1e-6)
    return k


@CHECK.clause('formulas', gensec.idims(), quick=600, thorough=20000,
              rule='profiles.steel.ISection properties vs. integration')
def formulas(case):
    from metku.profiles.steel.isections import ISection
    d = case
    p = ISection('p', d['h'], d['b'], d['tw'], d['tf'], d['r'])
    ref = refsec.isec(d['h'], d['b'], d['tf'], d['tw'], d['r'])
    z = ref.swapped()
    check_close(p.A, ref.A, 'A', 1e-6)
    check_close(p.Iy, ref.Iy(), 'Iy', APPROX)
    check_close(p.Iz, z.Iy(), 'Iz', APPROX)
    check_close(p.I[0], ref.Iy(), 'I[0]', APPROX)
    check_close(p.I[1], z.Iy(), 'I[1]', APPROX)
    check_close(p.Wely, ref.Wely(), 'Wely', APPROX)
    check_close(p.Welz, z.Wely(), 'Welz', APPROX)
    check_close(p.Wply, ref.Wply(), 'Wply', 1e-5)
    check_close(p.Wplz, z.Wply(), 'Wplz', 1e-5)
    check_close(p.iy, math.sqrt(ref.Iy() / ref.A), 'iy', APPROX)
    check_close(p.iz, math.sqrt(z.Iy() / ref.A), 'iz', APPROX)
    c = {'kind': 'I', 'd': d}
    check_close(p.It, torsion(c), 'It', 1e-6)
    check_close(p.P, perimeter(c), 'P', 1e-6)
    hs = d['h'] - d['tf']
    check_close(p.Iw, d['tf'] * d['b'] ** 3 / 24 * hs ** 2, 'Iw', 1e-6)
    check_close(p.Avy, 2 * d['b'] * d['tf'], 'Avy', 1e-6)
    check_close(p.Avz, ref.A - 2 * d['b'] * d['tf'] + (d['tw'] + 2 * d['r'])
                * d['tf'], 'Avz', 1e-6)
    return True


@functools.lru_cache(None)
def catalogue():
    """All catalogue entries as (kind, key)."""
    from metku.profiles.steel.isections import ISections
    from metku.sections.steel import catalogue as c
    out = [('I', k) for k in c.profile]
    for n in ('ipe', 'hea', 'heb', 'h'):
        out += [(n, k) for k in getattr(c, n + '_profiles')]
    out += [('shs', k) for k in c.shs_profiles]
    out += [('rhs', k) for k in c.rhs_profiles]
    out += [('chs', k) for k in c.chs_profiles]
    out += [('enum', k) for k, v in vars(ISections).items() if hasattr(v, 'tf')]
    from metku.sections.steel import profile_data
    out += [('data', k) for k in profile_data.ISECTIONS]
    return out


@CHECK.clause('catalogue', st.fixed_dictionaries({
    'i': st.integers(0, 10 ** 6), 'fy': gensec.grade(), 'name': st.booleans()}),
    quick=1500, thorough=20000,
    rule='catalogue entry: sources agree, section objects have the tabulated '
    'dimensions and the geometric properties of that shape')
def catalogue_entries(case):
    from metku.profiles.steel.isections import ISections
    import importlib
    im = importlib.import_module('metku.sections.steel.ISection')
    from metku.sections.steel import catalogue as c
    from metku.sections.steel import profile_data
    from metku.sections.steel.CHS import CHS
    from metku.sections.steel.RHS import RHS, SHS
    cat = catalogue()
    kind, key = cat[case['i'] % len(cat)]
    fy = f"S{case['fy']}" if case['name'] else case['fy']
    if kind in ('I', 'ipe', 'hea', 'heb', 'h', 'data', 'enum'):
        if kind == 'enum':
            v = getattr(ISections, key)
            need(v.name == key, f'{key} is named {v.name}')
            m = re.fullmatch(r'(IPE|HE)(A|B|M)?(\d+)', key)
            need(m is not None, f'name {key}')
            key = f'IPE {m[3]}' if m[1] == 'IPE' else f'HE {m[3]} {m[2]}'
            dim = {'h': v.h, 'b': v.b, 't_w': v.tw, 't_f': v.tf, 'r': v.r}
        elif kind == 'data':
            dim = profile_data.ISECTIONS[key]
        elif kind == 'I':
            dim = c.profile[key]
        else:
            dim = getattr(c, kind + '_profiles')[key]
        need(dim == c.profile.get(key), f'{kind} {key}: {dim} differs from the '
             f'profile table {c.profile.get(key)}')
        need(dim['h'] > 2 * dim['t_f'] + 2 * dim['r'] and dim['b'] > dim['t_w']
             + 2 * dim['r'] and dim['t_f'] >= dim['t_w'] > 0,
             f'{key} is not an I shape')
        parts = key.split()
        size = int(parts[1])
        if parts[0] == 'IPE':
            cls = im.IPE
            need(abs(dim['h'] - size) < 3.5, f'{key}: height {dim["h"]}')
        else:
            cls = {'A': im.HEA, 'AA': im.HEAA, 'B': im.HEB, 'C': im.HEC,
                   'M': im.HEM}[parts[2]]
            off = {'A': (-10, 0), 'AA': (-30, 0), 'B': (0, 0), 'C': (5, 20),
                   'M': (8, 40)}[parts[2]]
            need(off[0] <= dim['h'] - size <= off[1],
                 f'{key}: height {dim["h"]}')
        sec = cls(size, fy=fy)
        need((sec.h, sec.b, sec.tf, sec.tw, sec.r) == (
            dim['h'], dim['b'], dim['t_f'], dim['t_w'], dim['r']),
            f'{key} created with other dimensions')
        d = {'h': dim['h'], 'b': dim['b'], 'tf': dim['t_f'], 'tw': dim['t_w'],
             'r': dim['r']}
        cc = {'kind': 'I', 'd': d}
        if parts[0] == 'IPE' or parts[2] in 'AB':
            s2 = c.make_section(key, 'S%d' % case['fy'])
            need((s2.h, s2.b, s2.tf, s2.tw, s2.r, s2.fy) == (
                sec.h, sec.b, sec.tf, sec.tw, sec.r, case['fy']),
                f'make_section({key}) gives another profile')
    elif kind in ('rhs', 'shs'):
        dim = getattr(c, kind + '_profiles')[key]
        nums = [float(x) for x in re.findall(r'[\d.]+', key)]
        need(nums == [dim['h'], dim['b'], dim['t']], f'{key}: {dim}')
        check_close(dim['r'], gensec.outer_radius(dim['t']), f'{key} radius', 1e-9)
        if kind == 'shs':
            sec = SHS(dim['h'], dim['t'], fy=fy)
            need(dim['h'] == dim['b'], f'{key} is not square')
        else:
            sec = RHS(dim['h'], dim['b'], dim['t'], fy=fy)
            s2 = c.make_section(key)
            need((s2.H, s2.B, s2.T) == (dim['h'], dim['b'], dim['t']),
                 f'make_section({key}) gives another profile')
            if 'kgm' in dim:
                check_close(sec.weight() * 1e3, dim['kgm'], f'{key} mass', 0.02,
                            0.01)
        cc = {'kind': 'RHS', 'd': {'h': dim['h'], 'b': dim['b'], 't': dim['t']}}
    else:
        dim = c.chs_profiles[key]
        nums = [float(x) for x in re.findall(r'[\d.]+', key)]
        need(nums == [dim['d'], dim['t']], f'{key}: {dim}')
        sec = CHS(dim['d'], dim['t'], fy=fy)
        cc = {'kind': 'CHS', 'd': {'d': dim['d'], 't': dim['t']}}
    need(sec.fy == case['fy'], f'yield strength {sec.fy}')
    check_common(sec, gensec.ref(cc), key)
    check_close(sec.Au, perimeter(cc), key + ' Au', 1e-6)
    check_close(sec.It, torsion(cc), key + ' It', 1e-6)
    return kind


OPS = st.lists(st.tuples(st.sampled_from(['h', 'b', 't', 'tw', 'bt', 'bb', 'tt',
                                          'tb', 'tf', 'hw', 'read']),
                         st.floats(0.6, 1.6).map(lambda x: round(float(x), 3))),
               min_size=1, max_size=8)


@CHECK.clause('mutation', st.fixed_dictionaries({
    'sec': gensec.section(('RHS', 'WI', 'WIsym', 'CHS', 'I')), 'ops': OPS}),
    quick=700, thorough=40000,
    rule='history of changes of dimensions (and reads between them): '
    'properties equal those of the new shape')
def mutation(case):
    sc = case['sec']
    k, d = sc['kind'], dict(sc['d'])
    if k == 'CHS':
        from metku.sections.steel.CHS import CustomCHS
        sec = CustomCHS(d['d'], d['t'], fy=sc['fy'])
    else:
        sec = gensec.make(sc)
    n = 0
    for op, fac in case['ops']:
        if op == 'read':
            sec.bending_resistance()
            sec.Iy, sec.A, sec.Wel, sec.Ashear
            continue
        new = dict(d)
        if k == 'RHS':
            attr = {'h': 'H', 'b': 'B', 't': 'T'}.get(op)
            if attr is None:
                continue
            new[op] = round(d[op] * fac, 3)
            if min(new['h'], new['b']) < 7 * new['t'] or new['t'] < 1:
                continue
            setattr(sec, attr, new[op])
        elif k == 'CHS':
            if op not in ('h', 't'):
                continue
            key = {'h': 'd', 't': 't'}[op]
            new[key] = round(d[key] * fac, 3)
            if new['d'] < 3 * new['t']:
                continue
            setattr(sec, {'d': 'D', 't': 'T'}[key], new[key])
        elif k == 'I':
            if op not in ('h', 'b', 'tw', 'tf'):
                continue
            new[op] = round(d[op] * fac, 3)
            if (new['h'] < 2.5 * (new['tf'] + new['r']) or new['b'] < 2 * (
                    new['tw'] + 2 * new['r'])):
                continue
            setattr(sec, {'h': 'H', 'b': 'B'}.get(op, op), new[op])
            sec.cross_section_properties()
            sec.h, sec.b = new['h'], new['b']
        else:
            if op in ('t',):
                continue
            if op == 'b':
                new['bt'] = new['bb'] = round(d['bt'] * fac, 3)
                val = new['bt']
            elif op == 'tf':
                new['tt'] = new['tb'] = round(d['tt'] * fac, 3)
                val = new['tt']
            elif op == 'hw':
                val = round((d['h'] - d['tt'] - d['tb']) * fac, 3)
                new['h'] = val + d['tt'] + d['tb']
            else:
                new[op] = val = round(d[op] * fac, 3)
            if (new['h'] < new['tt'] + new['tb'] + 40 or min(
                    new['bt'], new['bb']) < new['tw'] + 30):
                continue
            setattr(sec, op, val)
        d = new
        n += 1
    cur = {'kind': k, 'd': d, 'fy': sc['fy']}
    check_common(sec, gensec.ref(cur), k)
    check_close(sec.Au, perimeter(cur), k + ' Au', 1e-6)
    check_close(sec.It, torsion(cur), k + ' It', 1e-6)
    fresh = gensec.make(cur)
    check_close(sec.Ashear[1], fresh.Ashear[1], 'Ashear z', 1e-9)
    check_close(sec.Ashear[0], fresh.Ashear[0], 'Ashear y', 1e-9)
    if k in ('WI', 'WIsym', 'RHS'):
        for a in ('imp_factor_LT', 'imp_factor_LT_gen'):
            need(getattr(sec, a) == getattr(fresh, a), f'{a} is stale')
        need(list(sec.imp_factor) == list(fresh.imp_factor),
             'buckling curves are stale')
        for ax in 'yz':
            for C in (1, 3):
                check_close(sec.bending_resistance(C=C, axis=ax)[0],
                            fresh.bending_resistance(C=C, axis=ax)[0],
                            f'MRd class {C} {ax}', 1e-9)
        need(sec.flange_class() == fresh.flange_class() and
             sec.web_class_comp() == fresh.web_class_comp() and
             sec.web_class_bend() == fresh.web_class_bend(),
             'stale section class')
    return n > 0 and k
