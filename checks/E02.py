"""E02: bolted joints, EN 1993-1-8 (bolts, component method, fin plates)."""
import math

from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('E02', 'more than one component or row governs the result',
              ['gamma_M0 = gamma_M1 = gamma_M5 = 1.0, gamma_M2 = 1.25',
               'bolt rows and groups given from top to bottom',
               'effective lengths of rows next to a flange by prEN 1993-1-8:2019',
               'rolled I sections'])
GM2 = 1.25
BOLTS = {12: (84.3, 7.5, 18, 10.8, 20.03, 2.5, 24), 16: (157, 10, 24, 14.8, 26.75, 3, 30),
         20: (245, 12.5, 30, 18, 32.95, 3, 37), 24: (353, 15, 36, 21.5, 39.55, 4, 44),
         30: (561, 18.7, 46, 25.6, 50.85, 4, 56), 36: (817, 22.5, 55, 31, 60.79, 5, 66)}
CLASSES = {4.6: (240, 400), 4.8: (320, 400), 5.6: (300, 500), 5.8: (400, 500),
           6.8: (480, 600), 8.8: (640, 800), 10.9: (900, 1000)}
SIZE = st.sampled_from(sorted(BOLTS))
CLS = st.sampled_from(sorted(CLASSES))
S2 = math.sqrt(2)


def d0(d):
    return d + (1 if d < 16 else 2 if d < 27 else 3)


def Fv(d, c, threads=True):
    fub = CLASSES[c][1]
    if threads:
        return (0.5 if c in (4.8, 5.8, 6.8, 10.9) else 0.6) * fub * BOLTS[d][0] / GM2
    return 0.6 * fub * math.pi * d * d / 4 / GM2


def Ft(d, c, k2=0.9):
    return k2 * CLASSES[c][1] * BOLTS[d][0] / GM2


def Fb(d, c, fu, t, e1, e2, p1, p2, perp='edge', load='edge'):
    h = d0(d)
    ad = e1 / (3 * h) if load == 'edge' else p1 / (3 * h) - 0.25
    ab = min(ad, CLASSES[c][1] / fu, 1)
    k1 = min(1.4 * p2 / h - 1.7, 2.5)
    if perp == 'edge':
        k1 = min(k1, 2.8 * e2 / h - 1.7)
    return k1 * ab * fu * d * t / GM2


@CHECK.clause('bolts', st.fixed_dictionaries({
    'd': SIZE, 'c': CLS, 'd2': SIZE, 'fu': st.floats(340, 700), 't': st.floats(3, 40),
    'e1': st.floats(1.2, 5), 'e2': st.floats(1.2, 5), 'p1': st.floats(2.2, 6),
    'p2': st.floats(2.4, 6), 'perp': st.sampled_from(['edge', 'inner']),
    'load': st.sampled_from(['edge', 'inner']), 'L': st.floats(30, 120),
    'k2': st.sampled_from([0.9, 0.63]), 'x': st.floats(0, 1.2), 'y': st.floats(0, 1.2)}),
    quick=3000, thorough=100000, rule='bolt resistances vs. Table 3.4; distances in '
    'multiples of the hole diameter')
def bolts(k):
    from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as en
    d, c = k['d'], k['c']
    b = en.Bolt(d, c, k['L'])
    h = d0(d)
    As, hk, hs, nm, ne, wh, wd = BOLTS[d]
    for n, w in (('d0', h), ('A', math.pi * d * d / 4), ('As', As), ('fyb', CLASSES[c][0]),
                 ('fub', CLASSES[c][1]), ('head_t', hk), ('head_d', hs), ('nut_t', nm),
                 ('nut_e', ne), ('washer_t', wh), ('washer_d', wd)):
        check_close(getattr(b, n), w, f'bolt M{d} {n}', 1e-12)
    need(b.length >= k['L'], f'bolt of length {b.length} for at least {k["L"]}')
    for th in (True, False):
        check_close(b.shear_resistance(th), Fv(d, c, th), f'shear, threads {th}', 1e-9)
    check_close(en.bolt_shear_resistance(b.fub, As, c, True), Fv(d, c, True),
                'bolt_shear_resistance, threads', 1e-9)
    check_close(en.bolt_shear_resistance(b.fub, b.A, c, False), Fv(d, c, False),
                'bolt_shear_resistance, shank', 1e-9)
    check_close(b.tension_resistance(k['k2']), Ft(d, c, k['k2']), 'tension', 1e-9)
    check_close(en.bolt_tension_resistance(b.fub, As, k['k2']), Ft(d, c, k['k2']),
                'tension', 1e-9)
    e, p = [k['e1'] * h, k['e2'] * h], [k['p1'] * h, k['p2'] * h]
    w = Fb(d, c, k['fu'], k['t'], *e, *p, k['perp'], k['load'])
    check_close(b.bearing_resistance(k['fu'], k['t'], e, p, k['perp'], k['load']), w,
                'bearing', 1e-9)
    check_close(en.bolt_bearing_resistance(b.fub, k['fu'], d, k['t'], e, p, h, k['perp'],
                                           k['load']), w, 'bolt_bearing_resistance', 1e-9)
    check_close(en.bolt_punching_shear_resistance(hs, k['t'], k['fu']),
                0.6 * math.pi * hs * k['t'] * k['fu'] / GM2, 'punching', 1e-9)
    check_close(en.shear_and_tension_resistance(k['x'] * Fv(d, c), Fv(d, c),
                                                k['y'] * Ft(d, c), Ft(d, c)),
                k['x'] + k['y'] / 1.4, 'shear and tension', 1e-9)
    # a bolt whose size is changed is a bolt of that size
    try:
        b.size = k['d2']
    except (UnboundLocalError, KeyError):
        raise Skip
    n = en.Bolt(k['d2'], c, k['L'])
    for a in vars(n):
        need(getattr(b, a) == getattr(n, a), f'bolt changed from M{d} to M{k["d2"]}: {a}'
             f' {getattr(b, a)} instead of {getattr(n, a)}')
    return k['e1'] < 3 and k['d2'] != d


FYU = {'S235': (235, 360, 0.8), 'S275': (275, 430, 0.85), 'S355': (355, 510, 0.9),
       'S420': (420, 500, 1.0)}


def omega(beta, bt, Av):
    w1 = 1 / math.sqrt(1 + 1.3 * (bt / Av) ** 2)
    w2 = 1 / math.sqrt(1 + 5.2 * (bt / Av) ** 2)
    if beta <= 0.5:
        return 1.0
    if beta <= 1:
        return w1 + 2 * (1 - beta) * (1 - w1)
    return w1 + (beta - 1) * (w2 - w1)


@CHECK.clause('components', st.fixed_dictionaries({
    'beta': st.one_of(st.sampled_from([0, 0.5, 1, 2]), st.floats(0, 2)),
    'b': st.floats(20, 600), 'tw': st.floats(4, 25), 'Av': st.floats(500, 12000),
    'g': st.sampled_from(sorted(FYU)), 'Ant': st.floats(50, 5000),
    'Anv': st.floats(50, 9000), 'r': st.floats(0, 1), 'e': st.floats(15, 150),
    'm': st.floats(10, 120), 'm2': st.floats(5, 150), 'fjd': st.floats(5, 50)}),
    quick=2000, thorough=60000, rule='basic components and coefficients')
def components(k):
    from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as en
    from metku.eurocodes.en1993.en1993_1_8 import component_method as cm
    from metku.materials.steel_data import Steel
    check_close(cm.min_coeff_w(k['beta'], k['b'], k['tw'], k['Av']),
                omega(k['beta'], k['b'] * k['tw'], k['Av']), f'omega, beta={k["beta"]}', 1e-9)
    fy, fu, bw = FYU[k['g']]
    for conc, f in ((True, 1), (False, 0.5)):
        check_close(en.block_tearing(fy, fu, k['Ant'], k['Anv'], conc),
                    f * fu * k['Ant'] / GM2 + fy * k['Anv'] / math.sqrt(3), 'block tearing', 1e-9)
    check_close(en.stiffness_ratio(k['r']), max(1, (1.5 * k['r']) ** 2.7), 'mu', 1e-9)
    m = Steel(k['g'])
    check_close(en.full_strength_weld_throat(m), bw / S2 * GM2 * m.fy / m.fu, 'weld', 1e-9)
    check_close(en.full_strength_weld_tube(m), 2 * bw / S2 * GM2 * m.fy / m.fu, 'weld', 1e-9)
    check_close(cm.new_alpha(k['e'], k['m'], k['m2']), alpha(k['e'], k['m'], k['m2']),
                'alpha', 1e-9)
    check_close(cm.Tstub_compression_flange(k['fjd'], k['b'], k['m']),
                k['fjd'] * k['b'] * k['m'], 'T-stub in compression', 1e-9)
    # Fig. 6.11, where it is defined
    l1, l2 = k['m'] / (k['m'] + k['e']), k['m2'] / (k['m'] + k['e'])
    try:
        a = cm.find_alpha(l1, l2)
    except (ValueError, TypeError):
        a = None
    if a is not None:
        need(4.45 - 1e-6 <= a <= 8 + 1e-6, f'alpha of Fig. 6.11 {a}')
        lim = 1.25 / (a - 2.75)
        lim2 = a * lim / 2
        if l2 < lim2:
            check_close(lim + (1 - lim) * ((lim2 - l2) / lim2) ** (0.185 * a ** 1.785), l1,
                        'alpha of Fig. 6.11', 1e-6)
    return 0.5 < k['beta'] < 2


def alpha(e, m, m2):
    return min(max(4 + 1.67 * e / m * (m / m2) ** 0.67, 4 + 1.25 * e / m), 8)


# ---------------------------------------------------------------- end plates
COLS = ['HEA 160', 'HEA 200', 'HEA 240', 'HEA 300', 'HEA 400', 'HEB 140', 'HEB 180',
        'HEB 220', 'HEB 300', 'HEB 400']
BEAMS = ['IPE 200', 'IPE 270', 'IPE 330', 'IPE 400', 'IPE 500', 'IPE 600', 'HEA 240',
         'HEA 300', 'HEB 240']
U = st.floats(0, 1)
JOINT = st.fixed_dictionaries({
    'col': st.sampled_from(COLS), 'beam': st.sampled_from(BEAMS),
    'g': st.sampled_from([235, 275, 355]), 'gp': st.sampled_from(['S235', 'S275', 'S355']),
    'tp': st.floats(6, 40), 'd': st.sampled_from([12, 16, 20, 24, 30]),
    'c': st.sampled_from([4.6, 5.8, 8.8, 10.9]), 'ext': st.booleans(),
    'u': st.lists(U, min_size=10, max_size=10), 'n': st.integers(1, 4),
    'shear': st.booleans(), 'beta': st.sampled_from([0.3, 0.75, 1.0, 1.0, 1.4, 2.0]),
    'af': st.floats(3, 12), 'aw': st.floats(3, 9), 'N': st.floats(-1, 0), 'M': st.floats(0, 0.5),
    'nogroups': st.booleans()})


def section(name, g):
    import importlib
    I = importlib.import_module('metku.sections.steel.ISection')
    t, n = name.split()
    return getattr(I, t)(int(n), g)


def layout(k, col, beam):
    """Dimensions of a joint and its rows: (bp, eb, etop, ebot, z, nt)."""
    u = k['u']
    h0 = d0(k['d'])
    lo = max(col.tw + 1.6 * col.r, beam.tw + 1.6 * S2 * k['aw']) + 14
    hi = col.b - 2.4 * h0
    if hi < lo:
        raise Skip
    w = lo + u[0] * (hi - lo)
    bp = w + 2.4 * h0 + u[1] * 100
    off = 0.8 * S2 * k['af'] + 10 + u[2] * 60
    ex = 1.2 * h0 + u[3] * 50
    etop = off + ex if k['ext'] else 20.0
    ebot = 15 + u[4] * 80
    z = []
    if k['ext']:
        z.append(beam.h / 2 + off)
    y = beam.h / 2 - beam.tf - 0.8 * S2 * k['af'] - 10 - u[5] * 60
    pmin = 2.2 * h0
    ylow = -beam.h / 2 + beam.tf + 1.5 * h0
    while len(z) < k['n'] and y > ylow + 10:
        z.append(y)
        y -= pmin + u[6] * 80 + 7 * len(z) * u[7]
    nt = len(z)
    if not nt or z[-1] < -beam.h / 2 + beam.tf + h0:
        raise Skip
    if k['shear'] and z[-1] - ylow > pmin:
        z.append(ylow)
    return bp, (bp - w) / 2, etop, ebot, z, nt


def positions(k, nt, n, en):
    rows, types = [], []
    for i in range(n):
        if k['ext'] and i == 0:
            p = en.ROW_OUTSIDE_BEAM_TENSION_FLANGE
        elif i == int(k['ext']):
            p = en.FIRST_ROW_BELOW_BEAM_TENSION_FLANGE
        else:
            p = en.OTHER_END_ROW if i >= nt - 1 else en.OTHER_INNER_ROW
        rows.append({'flange': en.END_ROW if i in (0, nt - 1) else en.INNER_ROW, 'plate': p})
        types.append(en.TENSION_ROW if i < nt else en.SHEAR_ROW)
    groups, gpos = [], []
    if not k['nogroups']:
        for b in range(1, nt):
            for a in range(b):
                groups.append(list(range(a, b + 1)))
                gp = []
                for i in groups[-1]:
                    end = i in (a, b)
                    pl = rows[i]['plate']
                    if pl in (en.OTHER_END_ROW, en.OTHER_INNER_ROW):
                        pl = en.OTHER_END_ROW if end else en.OTHER_INNER_ROW
                    gp.append({'flange': en.END_ROW if end else en.INNER_ROW, 'plate': pl})
                gpos.append(gp)
    return rows, types, groups, gpos


def build(k):
    from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as en
    from metku.structures.steel.end_plate_joint import EndPlateJoint
    col, beam = section(k['col'], k['g']), section(k['beam'], k['g'])
    bp, eb, etop, ebot, z, nt = layout(k, col, beam)
    rows, types, groups, gpos = positions(k, nt, len(z), en)
    col.Ned = k['N'] * col.A * col.fy * 0.5
    col.Med[0] = k['M'] * col.Wel[0] * col.fy
    j = EndPlateJoint(col, beam, tp=k['tp'], bp=bp, mat_p=k['gp'], etop=etop, ebottom=ebot,
                      bolt=en.Bolt(k['d'], k['c'], 50), y_bolts=z, e_bolts=eb,
                      bolt_row_pos=rows, groups=groups, group_pos=gpos, row_types=types)
    j.weld_f, j.weld_w, j.beta = k['af'], k['aw'], k['beta']
    return j, (bp, eb, etop, ebot, z, nt), groups


def tstub(cp, nc, tf, fy, m, n, FtB):
    """T-stub resistance and the effective length of the governing mode."""
    l1, l2 = min(cp, nc), nc
    F1 = l1 * tf ** 2 * fy / m
    F2 = (0.5 * l2 * tf ** 2 * fy + n * FtB) / (m + n)
    F = min(F1, F2, FtB)
    return F, (l1 if F == F1 else l2)


def reference(k, lay, groups):
    """EN 1993-1-8, 6.2.7.2 and 6.3 for an unstiffened joint."""
    col, beam = section(k['col'], k['g']), section(k['beam'], k['g'])
    bp, eb, etop, ebot, z, nt = lay
    tp, d, c, beta = k['tp'], k['d'], k['c'], k['beta']
    fyp = FYU[k['gp']][0]
    fyc, fyb = col.fy, beam.fy
    Avc = col.A - 2 * col.b * col.tf + (col.tw + 2 * col.r) * col.tf
    Avc = max(Avc, (col.h - 2 * col.tf) * col.tw)
    w = bp - 2 * eb
    dc = col.h - 2 * col.tf - 2 * col.r
    # compression side
    Vwp = 0.9 * fyc * Avc / math.sqrt(3)
    beff = beam.tf + 2 * S2 * k['af'] + 5 * (col.tf + col.r) + min(2 * tp, tp + ebot - S2 * k['af'])
    sig = -k['N'] * fyc * 0.5 + k['M'] * fyc
    kwc = 1 if sig <= 0.7 * fyc else 1.7 - sig / fyc
    lam = 0.932 * math.sqrt(beff * dc * fyc / (210e3 * col.tw ** 2))
    rho = 1 if lam <= 0.72 else min(1, (lam - 0.2) / lam ** 2)
    Fcwc = omega(beta, beff * col.tw, Avc) * kwc * rho * beff * col.tw * fyc
    Fcfb = beam.MRd[0] if isinstance(beam.MRd, (list, tuple)) else beam.MRd
    Fcfb = Fcfb / (beam.h - beam.tf)
    Fcom = min(Vwp / beta, Fcwc, Fcfb)
    # tension side
    m = (w - col.tw) / 2 - 0.8 * col.r
    e = (col.b - w) / 2
    emin = min(e, eb)
    FtB = 2 * Ft(d, c)
    pe = eb
    pm = (w - beam.tw) / 2 - 0.8 * S2 * k['aw']
    F, lf, lp, mm = [], [], [], []
    for i in range(nt):
        cp, nc = 2 * math.pi * m, 4 * m + 1.25 * e
        Fcf, l = tstub(cp, nc, col.tf, fyc, m, min(emin, 1.25 * m), FtB)
        Fcw = omega(beta, l * col.tw, Avc) * l * col.tw * fyc
        lf.append(min(cp, nc))
        if k['ext'] and i == 0:
            mx = z[0] - beam.h / 2 - 0.8 * S2 * k['af']
            ex = beam.h / 2 + etop - z[0]
            cp = min(2 * math.pi * mx, math.pi * mx + w, math.pi * mx + 2 * pe)
            nc = min(4 * mx + 1.25 * ex, pe + 2 * mx + 0.625 * ex, bp / 2,
                     w / 2 + 2 * mx + 0.625 * ex)
            Fep, l = tstub(cp, nc, tp, fyp, mx, min(ex, 1.25 * mx), FtB)
            Fbw = math.inf
            mm.append(mx)
        else:
            cp, nc = 2 * math.pi * pm, 4 * pm + 1.25 * pe
            if i == int(k['ext']):
                m2 = beam.h / 2 - beam.tf - 0.8 * S2 * k['af'] - z[i]
                nc = alpha(pe, pm, m2) * pm
            Fep, l = tstub(cp, nc, tp, fyp, pm, min(emin, 1.25 * pm), FtB)
            Fbw = l * beam.tw * fyb
            mm.append(pm)
        lp.append(min(cp, nc))
        F.append(min(Fcf, Fcw, Fep, Fbw))
    lg, pg = list(lf), list(lp)
    G = {}
    for g in groups:
        a, b = g[0], g[-1]
        CP = NC = 0
        for i in g:
            if i in (a, b):
                p = z[a] - z[a + 1] if i == a else z[b - 1] - z[b]
                cp, nc = math.pi * m + p, 2 * m + 0.625 * e + p / 2
            else:
                p = (z[i - 1] - z[i + 1]) / 2
                cp, nc = 2 * p, p
            CP += cp
            NC += nc
            lg[i] = min(lg[i], cp, nc)
        n = len(g)
        Fg, l = tstub(CP, NC, col.tf, fyc, m, min(emin, 1.25 * m), n * FtB)
        Fg = min(Fg, omega(beta, l * col.tw, Avc) * l * col.tw * fyc)
        if not (k['ext'] and a == 0):
            CP = NC = 0
            for i in g:
                if i in (a, b):
                    p = z[a] - z[a + 1] if i == a else z[b - 1] - z[b]
                    cp, nc = math.pi * pm + p, 2 * pm + 0.625 * pe + p / 2
                    if i == int(k['ext']):
                        m2 = beam.h / 2 - beam.tf - 0.8 * S2 * k['af'] - z[i]
                        nc = p / 2 + alpha(pe, pm, m2) * pm - (2 * pm + 0.625 * pe)
                else:
                    p = (z[i - 1] - z[i + 1]) / 2
                    cp, nc = 2 * p, p
                CP += cp
                NC += nc
                pg[i] = min(pg[i], cp, nc)
            Fp, l = tstub(CP, NC, tp, fyp, pm, min(emin, 1.25 * pm), n * FtB)
            Fg = min(Fg, Fp, l * beam.tw * fyb)
        G[a, b] = Fg
    single = list(F)
    R = []
    for i in range(nt):
        f = F[i]
        for (a, b), Fg in G.items():
            if a <= i <= b:
                f = min(f, Fg - sum(R[a:i]))
        R.append(f)
    grouped = list(R)
    tot = 0
    for i in range(nt):
        R[i] = min(R[i], Fcom - tot)
        tot += R[i]
    zc = -(beam.h - beam.tf) / 2
    h = [z[i] - zc for i in range(nt)]
    M = sum(r * x for r, x in zip(R, h))
    # stiffness
    Lb = tp + col.tf + 2 * BOLTS[d][5] + 0.5 * (BOLTS[d][1] + BOLTS[d][3])
    ke = [1 / (dc / (0.7 * lg[i] * col.tw) + m ** 3 / (0.9 * lg[i] * col.tf ** 3)
               + mm[i] ** 3 / (0.9 * pg[i] * tp ** 3) + Lb / (1.6 * BOLTS[d][0]))
          for i in range(nt)]
    zq = sum(a * x * x for a, x in zip(ke, h)) / sum(a * x for a, x in zip(ke, h))
    kq = sum(a * x for a, x in zip(ke, h)) / zq
    k1 = 0.38 * Avc / beta / zq
    k2 = 0.7 * beff * col.tw / dc
    S = 210e3 * zq ** 2 / (1 / k1 + 1 / k2 + 1 / kq)
    # vertical shear
    V = [0, 0]
    for i in range(len(z)):
        load = 'edge' if i == 0 else 'inner'
        p1 = 0 if i == 0 else z[i - 1] - z[i]
        fb = min(Fb(d, c, FYU[k['gp']][1], tp, beam.h / 2 + etop - z[i], eb, p1, w, 'edge', load),
                 Fb(d, c, col.fu, col.tf, 1e5, e, p1, w, 'edge', load))
        a, b = 2 * min(0.286 * Fv(d, c), fb), 2 * min(Fv(d, c), fb)
        r = R[i] if i < nt else 0
        V[0] += b if i >= nt else a
        V[1] += a if r > 1 else b
    return dict(Vwp=Vwp, Fcwc=Fcwc, Fcfb=Fcfb, single=single, G=G, R=R, M=M, S=S, V=V, zq=zq,
                kq=kq, grouped=grouped)


@CHECK.clause('endplate', JOINT, quick=1500, thorough=60000,
              rule='unstiffened end plate joints: rows, groups, compression side, moment '
              'resistance, stiffness, shear; non-trivial if a group or the compression '
              'side reduces a row')
def endplate(k):
    j, lay, groups = build(k)
    r = reference(k, lay, groups)
    nt = lay[5]
    S0 = j.Sj_ini() if k['u'][8] < 0.5 else None     # before the resistance is asked
    check_close(j.V_wp_Rd(), r['Vwp'], 'column web panel in shear', 1e-6)
    check_close(j.Fc_wc_Rd(), r['Fcwc'], 'column web in compression', 1e-6)
    check_close(j.Fc_fb_Rd(), r['Fcfb'], 'beam flange in compression', 1e-6)
    for i in range(nt):
        check_close(j.bolt_rows[i].tension_resistance(), r['single'][i],
                    f'row {i} of {nt} alone', 1e-6)
    for g, grp in zip(groups, j.row_groups):
        check_close(grp.tension_resistance(), r['G'][g[0], g[-1]], f'group {g}', 1e-6) \
            if not math.isinf(r['G'][g[0], g[-1]]) else None
    check_close(j.MjRd, r['M'], 'moment resistance', 1e-6, 1)
    for i in range(nt):
        check_close(j.bolt_rows[i].FtRd, r['R'][i], f'force of row {i} of {nt}', 1e-6, 1e-3)
    check_close(j.Sj_ini(), r['S'], 'initial stiffness', 1e-6)
    if S0 is not None:
        check_close(S0, r['S'], 'initial stiffness asked first', 1e-6)
    check_close(j.zeq(), r['zq'], 'equivalent lever arm', 1e-6)
    check_close(j.keq(), r['kq'], 'equivalent stiffness', 1e-6)
    V = j.VjRd
    tol = 1e-6 * max(abs(x) for x in r['V'])
    need(r['V'][0] - tol <= V <= r['V'][1] + tol,
         f'shear resistance {V} instead of {r["V"]}')
    if all(x > 1 for x in r['R']):
        check_close(V, r['V'][1], 'shear resistance', 1e-6)
    j.MjEd = k['u'][9] * r['M'] * 1e-6
    mu = max(1, (1.5 * k['u'][9]) ** 2.7)
    check_close(j.rotational_stiffness(), r['S'] / mu, 'stiffness', 1e-6)
    return nt > 1 and sum(r['R']) < 0.999 * sum(r['single'])


@CHECK.clause('modified', st.tuples(JOINT, st.fixed_dictionaries({
    'tp': st.floats(6, 40), 'd': st.sampled_from([12, 16, 20, 24]), 'u1': U,
    'xb': st.booleans(), 'shift': st.one_of(st.just(0), st.floats(-2, 6)), 'top': st.one_of(st.just(0), st.floats(0, 30)),
    'order': st.permutations(['tp', 'd', 'bp', 'eb'])})), quick=400, thorough=12000,
    rule='a joint changed through its properties gives the results of a joint built with '
    'the new values')
def modified(kk):
    k, c = kk
    j, lay, groups = build(k)
    k2 = dict(k, tp=c['tp'], d=c['d'])
    j.MjRd, j.Sj_ini(), j.VjRd
    bp, eb = lay[0] + 40 * c['u1'], lay[1] + 20 * c['u1']
    lay2 = (bp, eb, lay[2] + c['top'], lay[3], [z - c['shift'] for z in lay[4]], lay[5])
    if c['shift']:
        for row, z in zip(j.bolt_rows, lay[4]):
            check_close(row.z_top, j.beam.h / 2 + lay[2] - z, 'distance of the row from the top of the plate', 1e-9, 1e-9)
            row.z_top += c['shift']
            check_close(row.z, z - c['shift'], 'moved row', 1e-9, 1e-9)
    if c['top']:
        j.etop += c['top']
    check_close(j.end_plate.h, j.beam.h + lay2[2] + lay[3], 'height of the plate', 1e-9)
    for o in c['order']:
        if o == 'tp':
            j.tp = c['tp']
        elif o == 'd':
            j.bolt_size = c['d']
        elif o == 'bp':
            j.bp = bp
        elif c['xb']:
            # distance from the middle of the plate
            j.xbolts = j.bp / 2 - eb
            check_close(j.xbolts, j.bp / 2 - eb, 'distance of the bolts from the middle of the plate', 1e-9)
        else:
            j.ebolts = eb
        if o == c['order'][1] and j.bp - 2 * j.ebolts > lay[0] - 2 * lay[1] - 0.01:
            j.MjRd
    r = reference(k2, lay2, groups)
    check_close(j.MjRd, r['M'], 'moment resistance after changes', 1e-6, 1)
    check_close(j.Sj_ini(), r['S'], 'initial stiffness after changes', 1e-6)
    check_close(j.zeq(), r['zq'], 'lever arm after changes', 1e-6)
    # bolts far closer to the edge than EN 1993-1-8 allows have no bearing resistance (k1 < 0)
    tol = 1e-6 * max(abs(x) for x in r['V'])
    need(r['V'][0] - tol <= j.VjRd <= r['V'][1] + tol,
         f'shear resistance {j.VjRd} after changes instead of {r["V"]}')
    return lay[5] > 1


@CHECK.clause('stiffened', st.tuples(JOINT, st.one_of(st.floats(5, 25), st.floats(2, 8)), st.sampled_from(
    [None, None, None, 'IPE 500', 'IPE 600', 'HEA 600', 'HEA 800']), st.one_of(st.none(), st.floats(3, 25)),
    st.sampled_from([None, None, 'S235', 'S355', 'S420'])), quick=500, thorough=15000,
              rule='joint with column web stiffeners; non-trivial if the resistance increases')
def stiffened(kk):
    k, ts, tall, tt, grade = kk
    tt = tt or ts
    k = dict(k, beta=1.0, col=tall or k['col'])
    j, lay, groups = build(k)
    nt = lay[5]
    if k['ext'] and len(lay[4]) < 2:
        raise Skip
    M0 = j.MjRd
    col, beam = j.col, j.beam
    S0 = [x.tension_resistance() for x in j.bolt_rows[:nt]]
    j.add_stiffener('col_bottom_flange', t=ts)
    b = (col.b - col.tw) / 2
    eps = math.sqrt(235 / col.fy)
    A = (30 * eps * col.tw + ts) * col.tw + 2 * b * ts
    i = math.sqrt((2 * b + col.tw) ** 3 * ts / 12 / A)
    lam = (col.h - 2 * col.tf) / i / (93.9 * eps)
    phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam ** 2)
    chi = 1 if lam <= 0.2 else 1 / (phi + math.sqrt(phi ** 2 - lam ** 2))
    check_close(j.Fc_wc_Rd(), chi * A * col.fy, 'stiffened web in compression', 2e-3)
    need(j.k2() == math.inf, 'stiffened web deforms')
    fyt = col.fy
    if grade:
        from metku.structures.steel.plates import RectPlate
        plate = RectPlate(0.5 * (col.b - col.tw), col.h - 2 * col.tf, tt, material=grade)
        fyt = plate.fy
        need(fyt == float(grade[1:]), 'grade of the stiffener')
        j.add_stiffener('col_top_flange', plate=plate)
    else:
        j.add_stiffener('col_top_flange', t=tt)
    Mf = 0.25 * col.b * col.tf ** 2 * col.fy
    Ms = 0.125 * col.b * (ts ** 2 * col.fy + tt ** 2 * fyt)
    ds = beam.h - beam.tf
    Avc = max(col.A - 2 * col.b * col.tf + (col.tw + 2 * col.r) * col.tf,
              (col.h - 2 * col.tf) * col.tw)
    check_close(j.V_wp_Rd(), 0.9 * col.fy * Avc / math.sqrt(3)
                + min(4 * Mf, 2 * Mf + 2 * Ms) / ds, 'stiffened web panel', 1e-6)
    z = lay[4]
    m = (lay[0] - 2 * lay[1] - col.tw) / 2 - 0.8 * col.r
    e = (col.b - (lay[0] - 2 * lay[1])) / 2
    FtB = 2 * Ft(k['d'], k['c'])
    n = min(min(e, lay[1]), 1.25 * m)
    plate = j.stiffeners['col_top_flange']
    m2s = [abs(z[q] - (beam.h - beam.tf) / 2) - tt / 2 - 0.8 * S2 * plate.weld_size
           for q in range(min(nt, 2 if k['ext'] else 1))]
    if min(m2s) < 3:
        raise Skip
    for q, m2 in enumerate(m2s):
        # alpha of Fig. 6.11 is between the limits of prEN 1993-1-8 -+ 15 %
        check_close(j.bolt_rows[q].Tstub_col_flange.m2, m2, f'distance of row {q} from the stiffener', 1e-6)
        a = alpha(e, m, m2)
        got = j.bolt_rows[q].column_flange_in_bending()
        lo, _ = tstub(2 * math.pi * m, 0.85 * a * m, col.tf, col.fy, m, n, FtB)
        hi, _ = tstub(2 * math.pi * m, 1.15 * a * m, col.tf, col.fy, m, n, FtB)
        need(lo * (1 - 1e-6) <= got <= hi * (1 + 1e-6),
             f'column flange of row {q} next to stiffener: {got} outside {lo}..{hi}')
    # groups below the stiffener (rows on both sides of it form no group in the standard)
    for g, grp in zip(groups, j.row_groups):
        a, b = g[0], g[-1]
        if a < int(k['ext']):
            continue
        CP, NC = 0, [0, 0]
        for i in g:
            if i in (a, b):
                p = z[a] - z[a + 1] if i == a else z[b - 1] - z[b]
                CP += math.pi * m + p
                nc = [2 * m + 0.625 * e + p / 2] * 2
                if i == int(k['ext']):
                    al = alpha(e, m, m2s[-1])
                    adj = [p / 2 + f * al * m - (2 * m + 0.625 * e) for f in (0.85, 1.15)]
                    nc = adj if k['ext'] else [min(adj[0], nc[0]), max(adj[1], nc[1])]
            else:
                p = (z[i - 1] - z[i + 1]) / 2
                CP += 2 * p
                nc = [p, p]
            NC = [x + y for x, y in zip(NC, nc)]
        lo, hi = [tstub(CP, x, col.tf, col.fy, m, n, len(g) * FtB)[0] for x in NC]
        got = grp.column_flange_in_bending()
        need(lo * (1 - 1e-6) <= got <= hi * (1 + 1e-6),
             f'column flange of group {g} next to stiffener: {got} outside {lo}..{hi}')
    M1 = j.MjRd
    need(abs(M1) < math.inf and M1 > 0, f'moment resistance {M1}')
    need(j.Sj_ini() > 0, 'stiffness of stiffened joint')
    tot = sum(x.FtRd for x in j.bolt_rows[:nt])
    need(tot <= min(j.V_wp_Rd(), j.Fc_wc_Rd(), j.Fc_fb_Rd()) * (1 + 1e-9),
         'tension exceeds the compression side')
    for x, s in zip(j.bolt_rows[:nt], range(nt)):
        need(x.FtRd <= min(x.column_flange_in_bending(), x.end_plate_in_bending()) * (1 + 1e-9),
             f'row {s} exceeds its components')
    return M1 > M0 * 1.001


# ---------------------------------------------------------------- fin plates
@CHECK.clause('finplate', st.fixed_dictionaries({
    'beam': st.sampled_from(['IPE 240', 'IPE 300', 'IPE 400', 'IPE 550', 'HEA 300']),
    'g': st.sampled_from([235, 355]), 'gp': st.sampled_from(['S235', 'S355']),
    'd': st.sampled_from([12, 16, 20, 24]), 'c': st.sampled_from([5.6, 8.8, 10.9]),
    'n1': st.integers(2, 6), 'n2': st.sampled_from([1, 2]), 'tp': st.floats(6, 20), 'mod': st.booleans(),
    'u': st.lists(U, min_size=8, max_size=8)}), quick=1000, thorough=40000,
    rule='fin plate joints; elastic force in the extreme bolt of the eccentrically loaded group')
def finplate(k):
    from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
    from metku.structures.steel.fin_plate_joint import FinPlateJoint
    from metku.structures.steel.plates import RectPlateWithHoles
    beam = section(k['beam'], k['g'])
    u, d, c, tp = k['u'], k['d'], k['c'], k['tp']
    h = d0(d)
    p1 = h * (2.2 + 2 * u[0])
    p2 = h * (2.4 + 2 * u[1]) if k['n2'] == 2 else 0.0
    e1, e2, eb = h * (1.2 + u[2]), h * (1.2 + u[3]), h * (1.2 + u[4])
    gh = 5 + 20 * u[5]
    n1, n2 = k['n1'], k['n2']
    hp = (n1 - 1) * p1 + 2 * e1
    if hp > beam.h - 2 * beam.tf:
        raise Skip
    bp = gh + eb + (n2 - 1) * p2 + e2
    q = 1 + u[6] if k['mod'] else 1
    P = RectPlateWithHoles(bp * q, hp * q, tp * q, 13, [gh + eb, e1], p2 / q, p1 / q, n1, n2, k['gp'])
    j = FinPlateJoint(beam, P, Bolt(d, c, 50), gh)
    if k['mod']:
        # a joint changed through its properties is the joint built with the new values
        j.e1, j.z, j.I, j.bolt_shear()
        j.tp, j.hp, j.bp = tp, hp, bp
        j.p1, j.p2 = p1, p2
        check_vec([j.p1, j.p2, j.tp], [p1, p2, tp], 'dimensions set', 1e-12)
    z = gh + eb + (n2 - 1) * p2 / 2
    n = n1 * n2
    for a, w in (('e1', e1), ('e2', e2), ('e2b', eb), ('z', z), ('hp', hp), ('bp', bp),
                 ('e1b', beam.h / 2 - hp / 2 + e1), ('d0', h)):
        check_close(getattr(j, a), w, a, 1e-9)
    xy = [((i - (n2 - 1) / 2) * p2, (q - (n1 - 1) / 2) * p1) for i in range(n2)
          for q in range(n1)]
    I = sum(x * x + y * y for x, y in xy)
    # unit shear V=1 at distance z: components in the extreme bolt
    ver = 1 / n + z * max(x for x, _ in xy) / I
    hor = z * max(y for _, y in xy) / I
    check_close(j.bolt_shear(), Fv(d, c) / math.hypot(ver, hor), 'bolts in shear', 1e-9)
    pp2 = p2 if n2 == 2 else 1e5
    fy, fu, _ = FYU[k['gp']]
    Fver, Fhor = Fb(d, c, fu, tp, e1, e2, p1, pp2), Fb(d, c, fu, tp, e2, e1, pp2, p1)
    check_close(j.fin_plate_bearing(), 1 / math.hypot(ver / Fver, hor / Fhor),
                'bearing of the plate', 1e-9)
    check_close(j.fin_plate_shear_gross(), hp * tp * fy / 1.27 / math.sqrt(3), 'gross', 1e-9)
    check_close(j.fin_plate_shear_net(), (hp - n1 * h) * tp * fu / math.sqrt(3) / GM2, 'net', 1e-9)
    check_close(j.fin_plate_block_tearing(),
                0.5 * fu * tp * (e2 + (n2 - 1) * p2 - (n2 - 0.5) * h) / GM2
                + fy * tp * (hp - e1 - (n1 - 0.5) * h) / math.sqrt(3), 'block tearing', 1e-9)
    Mb = tp * hp ** 2 / 6 * fy / z
    check_close(j.fin_plate_bending(), Mb, 'plate in bending', 1e-9)
    lt = j.fin_plate_ltb()
    if z < tp / 0.15:
        check_close(lt, Mb, 'short plate does not buckle', 1e-9)
    else:
        need(0 < lt <= Mb * (1 + 1e-9), 'buckling of the plate')
    Fver, Fhor = Fb(d, c, beam.fu, beam.tw, 1e5, eb, p1, pp2), Fb(d, c, beam.fu, beam.tw, eb,
                                                                  1e5, pp2, p1)
    Lver, Lhor = Fb(d, c, beam.fu, beam.tw, e1, eb, p1, pp2), Fb(d, c, beam.fu, beam.tw, eb, e1,
                                                                 pp2, p1)
    # the end distance to the beam flange may be taken as that of the plate
    got = j.beam_web_bearing()
    need(1 / math.hypot(ver / Lver, hor / Lhor) * (1 - 1e-9) <= got
         <= 1 / math.hypot(ver / Fver, hor / Fhor) * (1 + 1e-9), 'bearing of the web')
    Av = max(beam.A - 2 * beam.b * beam.tf + (beam.tw + 2 * beam.r) * beam.tf,
             (beam.h - 2 * beam.tf) * beam.tw)
    check_close(j.beam_web_shear_gross(), Av * beam.fy / math.sqrt(3), 'web gross', 1e-9)
    check_close(j.beam_web_shear_net(), (Av - n1 * h * beam.tw) * beam.fu / math.sqrt(3) / GM2,
                'web net', 1e-9)
    check_close(j.beam_web_block_tearing(),
                0.5 * beam.fu * beam.tw * (eb + (n2 - 1) * p2 - (n2 - 0.5) * h) / GM2
                + beam.fy * beam.tw * (beam.h / 2 - hp / 2 + e1 + (n1 - 1) * p1 - (n1 - 0.5) * h)
                / math.sqrt(3), 'web block tearing', 1e-9)
    ok = [e1 / h >= 1.2, e2 / h >= 1.2, eb / h >= 1.2]
    need(j.check_bolt_position() == (all(ok) and True) or min(u[:5]) < 1e-6,
         'bolt positions within limits rejected')
    return n2 == 2
