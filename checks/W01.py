"""W01: timber members: charring, tapered sections, strengths and the design rules of EN 1995-1-1."""
import importlib
import math
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('W01', 'fire behind a protected side, or a branch of the standard away from its limits',
              ['members with given effective length factors', 'ridge and curved beams symmetric about midspan'])

SOLID = ['C14', 'C16', 'C18', 'C20', 'C22', 'C24', 'C27', 'C30', 'C35', 'C40', 'D30', 'D35', 'D40', 'D50', 'D60', 'D70']
GLT = ['GL24c', 'GL24h', 'GL28c', 'GL28h', 'GL30c', 'GL30h', 'GL32c', 'GL32h']
LVL = ['Kerto_S', 'Kerto_T', 'Kerto_Q_21_24', 'Kerto_Q_27_69']
GRADE = st.one_of(st.sampled_from(SOLID), st.sampled_from(GLT), st.sampled_from(LVL))
BOARDS = {'A': (22, 22, 13, 13), 'F': (28, None, 19, None), 'H': (11, 11, 2, 2), 'AA': (40, 40, 31, 31), 'FF': (61, None, 52, None),
          'HH': (23, 23, 14, 14), 'AF': (46, None, 37, None)}
BOARD = {'A': 13, 'F': 15, 'H': 9, 'AA': 26, 'FF': 30, 'HH': 18, 'AF': 28}


def mods():
    import metku.frame2d         # noqa: F401  (the timber member needs it)
    return SimpleNamespace(
        tm=importlib.import_module('metku.structures.timber.timber_member'),
        ts=importlib.import_module('metku.sections.timber.timber_section'),
        fp=importlib.import_module('metku.eurocodes.en1995.fire_protection'),
        e2=importlib.import_module('metku.eurocodes.en1995.en1995_1_2'),
        md=importlib.import_module('metku.materials.timber_data'))


def kind(g):
    return 'solid_timber' if g in SOLID else 'glt' if g in GLT else 'lvl'


def charring(g, rhok, thickness=100.0):
    """EN 1995-1-2 Table 3.1"""
    if g in SOLID:
        b0, bn = (0.5, 0.55) if g[0] == 'D' else (0.65, 0.8)
    elif g in GLT:
        b0, bn = 0.65, 0.7
    else:
        b0, bn = (0.7, 0.75) if g == 'Kerto_T' else (0.65, 0.7)
    if thickness < 20:
        b0 *= math.sqrt(450 / rhok) * math.sqrt(20 / thickness)
    return b0, bn


def times(p, bn, M):
    """tch, tf, ta of a protection in front of timber charring with bn"""
    if p['t'] == 'board':
        tch, tf, tch2, tf2 = BOARDS[p['k']]
        if p['gap'] >= 2:
            tch, tf = tch2, tf2
        if p['k'] in ('F', 'FF', 'AF'):
            tf = tch + 12.5 / (0.73 * bn)
    elif p['t'] == 'wood':
        m = M.md.Timber(M.md.T[p['g']])
        tch = tf = p['h'] / charring(p['g'], m.rhok, p['h'])[0]
    else:
        tch, tf = p['tch'], p['tch'] + p['dt']
    if tf > tch:
        ta = tf + max(0.0, 25 - (tf - tch) * 0.73 * bn) / (2 * bn)
    else:
        ta = min(2 * tf, 25 / (2 * bn) + tf)
    return tch, tf, ta


def depth(p, t, bn, M):
    """effective charring depth d_char,n + k0 d0 of a side"""
    if p is None:
        return bn * t + 7 * min(1, t / 20)
    tch, tf, ta = times(p, bn, M)
    k0 = min(1, t / (20 if tch <= 20 else tch))
    d = 0.0
    # integral of the rate of charring
    for a, b, k in ((tch, tf, 0.73), (tf, ta, 2.0), (ta, 1e9, 1.0)):
        d += max(0.0, min(t, b) - a) * k * bn
    return d + 7 * k0


def protection(p, M):
    if p is None:
        return None
    if p['t'] == 'board':
        return getattr(M.fp, 'GypsumPlasterboard' + p['k'])(p['gap'])
    if p['t'] == 'wood':
        return M.fp.WoodenFireProtection(M.md.T[p['g']], p['h'])
    return M.fp.FireProtection(p['tch'], p['b'], p['tch'] + p['dt'])


PROT = st.one_of(
    st.none(),
    st.fixed_dictionaries({'t': st.just('board'), 'k': st.sampled_from(sorted(BOARDS)), 'gap': st.sampled_from([0, 1, 2, 3])}),
    st.fixed_dictionaries({'t': st.just('wood'), 'g': GRADE, 'h': st.floats(8, 45)}),
    st.fixed_dictionaries({'t': st.just('own'), 'tch': st.floats(2, 60), 'b': st.floats(6, 30), 'dt': st.one_of(st.just(0), st.floats(1, 30))}))
FIRE = st.fixed_dictionaries({
    'gen': PROT, 'right': PROT, 'left': PROT, 'top': PROT, 'bottom': PROT, 'fps': st.sampled_from([3, 4]), 'sides': st.sampled_from([3, 4]),
    'R': st.one_of(st.just(0), st.floats(1, 120)), 'at': st.sampled_from(['', '', 'tch', 'tf', 'ta']), 'late': st.booleans()})
COLD = {'gen': None, 'right': None, 'left': None, 'top': None, 'bottom': None, 'fps': 3, 'sides': 3, 'R': 0, 'at': '', 'late': False}


def sides(F):
    """protection of right, left, top, bottom"""
    g = F['gen']
    if F['late']:               # given after the creation: replaces the individual ones
        return {'right': g, 'left': g, 'bottom': g, 'top': g if F['fps'] == 4 else F['top']}
    return {'right': F['right'] or g, 'left': F['left'] or g, 'bottom': F['bottom'] or g, 'top': F['top'] or (g if F['fps'] == 4 else None)}


def section(make, F, M):
    """a section made with the protections of F; returns it and the burned depths"""
    kw = {'fire_protection_' + s: protection(F[s], M) for s in ('right', 'left', 'top', 'bottom')}
    if not F['late']:
        kw['fire_protection_generic'] = protection(F['gen'], M)
    s = make(fire_protection_sides=F['fps'], sides_on_fire=F['sides'], **kw)
    if F['late']:
        s.fire_protection_generic = protection(F['gen'], M)
    return s


def burn(F, g, M):
    bn = charring(g, 0)[1]
    S = sides(F)
    R = F['R']
    if F['at']:
        for p in S.values():
            if p is not None:
                R = times(p, bn, M)[['tch', 'tf', 'ta'].index(F['at'])]
    # where the code and the reference round tch = tf + 0 differently a step decides: the curve is continuous, so it does not matter
    d = {s: depth(p, R, bn, M) for s, p in S.items()}
    return R, d['right'] + d['left'], d['bottom'] + (d['top'] if F['sides'] == 4 else 0), any(
        p is not None and R > times(p, bn, M)[0] for p in S.values())


def rect(s, B, H, what, x=None):
    A, I, W = (s.A, s.I, s.Wel) if x is None else (s.get_A(x), s.get_I(x), s.get_Wel(x))
    check_close(s.B, B, 'width ' + what, rtol=1e-9)
    check_close(s.H if x is None else s.get_H(x), H, 'depth ' + what, rtol=1e-9)
    check_close(A, B * H, 'area ' + what, rtol=1e-8)
    check_vec(I, [B * H ** 3 / 12, H * B ** 3 / 12], 'I ' + what, rtol=1e-8)
    check_vec(W, [B * H ** 2 / 6, H * B ** 2 / 6], 'W ' + what, rtol=1e-8)


@CHECK.clause('charring', st.fixed_dictionaries({
    'B': st.floats(40, 400), 'H': st.floats(80, 1200), 'g': GRADE, 'g2': GRADE, 'F': FIRE, 'share': st.booleans(), 'again': st.floats(0, 90),
    'regrade': st.booleans(), 'resize': st.booleans()}),
    quick=2500, thorough=60000, rule='a protected side has started to char')
def charring_(k):
    M = mods()
    F = k['F']
    q = 1.3 if k['resize'] else 1
    s = section(lambda **kw: M.ts.TimberSection(k['B'] * q, k['H'] * q, M.md.T[k['g2' if k['regrade'] else 'g']], **kw), F, M)
    if k['resize']:
        s.B, s.H = k['B'], k['H']
    if k['regrade']:        # another timber
        s.material = M.md.T[k['g']]
        need(s.material.type == kind(k['g']), 'material after a change')
    if k['share']:
        # the same protection in front of another timber: the first section stays as it is
        M.ts.TimberSection(200, 300, M.md.T[k['g2']], fire_protection_right=s.fire_protection_right, fire_protection_left=s.fire_protection_left,
                           fire_protection_bottom=s.fire_protection_bottom, fire_protection_top=s.fire_protection_top,
                           fire_protection_generic=s.fire_protection_generic)
    check_close(s.A, k['B'] * k['H'], 'area before the fire')
    R, db, dh, nt = burn(F, k['g'], M)
    for r in (R, k['again'], R):
        s.R = r
        R_, db, dh, _ = burn({**F, 'R': r, 'at': ''}, k['g'], M)
        B, H = k['B'] - db, k['H'] - dh
        B, H = (B if B > 0 else 1e-5), (H if H > 0 else 1e-5)
        if min(B, H) < 1e-3:
            need(s.B > 0 and s.H > 0 and abs(s.B - B) < 1e-3 and abs(s.H - H) < 1e-3, 'section burned through')
            continue
        rect(s, B, H, 'after %g min' % r)
        rect(s, B, H, 'along the member', x=0.3)
    need(s.get_R() == R, 'fire duration')
    return nt


# -- tapered and curved beams --------------------------------------------------------------------
SHAPE = st.one_of(
    st.fixed_dictionaries({'k': st.just('single'), 'h0': st.floats(200, 800), 'dh': st.floats(-0.6, 2.0), 'flip': st.booleans()}),
    st.fixed_dictionaries({'k': st.just('ridge'), 'h0': st.floats(200, 800), 'dh': st.floats(0.05, 2.0), 'xap': st.one_of(st.just(0.5), st.floats(0.15, 0.85))}),
    st.fixed_dictionaries({'k': st.just('belly'), 'h0': st.floats(200, 800), 'al': st.floats(0.5, 12), 'xap': st.one_of(st.just(0.5), st.floats(0.15, 0.85))}),
    st.fixed_dictionaries({'k': st.just('curved'), 'h0': st.floats(300, 900), 'al': st.floats(5, 20), 'be': st.floats(0.3, 1.0), 'r': st.floats(5000, 20000), 't': st.floats(20, 45)}),
    st.fixed_dictionaries({'k': st.just('pitched'), 'h0': st.floats(300, 900), 'al': st.floats(5, 20), 'be': st.floats(0.3, 1.0), 'r': st.floats(5000, 20000), 't': st.floats(20, 45)}))


class Shape:
    """geometry of a beam of length L"""

    def __init__(self, c, L, B):
        self.c, self.L, self.B = c, L, B
        if c['k'] in ('curved', 'pitched'):
            self.a, self.b = math.radians(c['al']), math.radians(c['al'] * c['be'])
            if c['r'] * math.sin(self.a) > 0.45 * L:
                raise Skip('the curved part does not fit')

    def line(self, x, slope, r, y0):
        """straight at the slope from y0, rounded by a circle of radius r about midspan"""
        x = min(x, self.L - x)
        xc = self.L / 2 - r * math.sin(slope)
        if x <= xc:
            return y0 + x * math.tan(slope)
        # the centre of the circle is below the tangent point
        return y0 + xc * math.tan(slope) + math.sqrt(r * r - (self.L / 2 - x) ** 2) - r * math.cos(slope)

    def h(self, u):
        c, L = self.c, self.L
        x = u * L
        if c['k'] == 'single':
            return c['h0'] * (1 + c['dh'] * u)
        if c['k'] == 'ridge':
            return c['h0'] * (1 + c['dh'] * min(u / c['xap'], (1 - u) / (1 - c['xap'])))
        if c['k'] == 'belly':
            ta = math.tan(math.radians(c['al']))
            # top edge at the slope all the way, lower edge bends at xap so that both ends are equally deep
            return (c['h0'] + ta * x - max(0, x - c['xap'] * L) * ta / (1 - c['xap'])) / math.cos(math.radians(c['al']))
        if c['k'] == 'curved':
            return self.line(x, self.a, c['r'], c['h0']) - self.line(x, self.b, c['r'], 0)
        return c['h0'] + min(x, L - x) * math.tan(self.a) - self.line(x, self.b, c['r'], 0)

    def make(self, M, g, **kw):
        c, B, T = self.c, self.B, M.md.T[g]
        if c['k'] == 'single':
            return M.ts.PulpettiPalkki(B, c['h0'], c['h0'] * (1 + c['dh']), material=T, flipped=c['flip'], **kw)
        if c['k'] == 'ridge':
            return M.ts.HarjaPalkki(B, c['h0'], c['h0'] * (1 + c['dh']), xap=c['xap'], material=T, **kw)
        if c['k'] == 'belly':
            s = M.ts.MahaPalkki(B, c['h0'], c['al'], xap=c['xap'], material=T, **kw)
        else:
            cls = M.ts.KaarevaPalkki if c['k'] == 'curved' else M.ts.KaarevaHarjaPalkki
            s = cls(B, c['h0'], c['al'], c['al'] * c['be'], c['r'], material=T, t=c['t'], **kw)
        s.parent = SimpleNamespace(length=self.L)
        if c['k'] != 'belly':
            s.update_circles()
        return s

    def face(self):
        """area of the face by integration over the smooth parts"""
        L, c = self.L, self.c
        br = {0, L, L / 2}
        if c['k'] in ('curved', 'pitched'):
            for s in (self.a, self.b):
                br |= {L / 2 - c['r'] * math.sin(s), L / 2 + c['r'] * math.sin(s)}
        if 'xap' in c:
            br.add(c['xap'] * L)
        br = sorted(br)
        X, W = np.polynomial.legendre.leggauss(40)
        return sum(0.5 * (b - a) * w * self.h((a + 0.5 * (1 + t) * (b - a)) / L) for a, b in zip(br[:-1], br[1:]) for t, w in zip(X, W))


@CHECK.clause('tapered', st.fixed_dictionaries({
    'shape': SHAPE, 'B': st.floats(80, 300), 'L': st.floats(5000, 30000), 'g': GRADE, 'F': FIRE, 'u': st.lists(st.floats(0, 1), min_size=2, max_size=5),
    'f': st.floats(0.7, 1.4), 'ne': st.integers(2, 12)}), quick=1200, thorough=30000, rule='the depth varies between the points')
def tapered(k):
    M = mods()
    S = Shape(k['shape'], k['L'], k['B'])
    F = k['F']
    s = section(lambda **kw: S.make(M, k['g'], **kw), F, M)
    c = dict(k['shape'])
    xap = c.get('xap', 0.5)
    R, db, dh, _ = burn(F, k['g'], M)
    need(s.R == 0, 'fire before it is given')
    s.num_elements = k['ne']
    s.create_elements()
    if c['k'] in ('curved', 'pitched'):
        check_close(s.A_face(), S.face(), 'area of the face', rtol=1e-6)
        check_close(s.hap, S.h(0.5), 'depth of the apex', rtol=1e-7)

    def look(S, r):
        d = (db, dh) if r else (0, 0)
        B = max(k['B'] - d[0], 1e-5)
        for u in [0, 1, xap] + list(k['u']):
            H = S.h(u) - d[1]
            if min(B, H) > 1:
                check_close(s.get_H(u), H, 'depth at %r' % u, rtol=1e-7)
                check_close(s.get_A(u), B * H, 'area at %r' % u, rtol=1e-7)
                check_vec(s.get_I(u), [B * H ** 3 / 12, H * B ** 3 / 12], 'I at %r' % u, rtol=1e-6)
                check_vec(s.get_Wel(u), [B * H ** 2 / 6, H * B ** 2 / 6], 'W at %r' % u, rtol=1e-6)
            elif H < 0:
                need(s.get_A(u) > 0, 'area of a section burned through')

    def parts(S):
        need(len(s.small_elements) == k['ne'], 'number of parts')
        for i, e in enumerate(s.small_elements):
            u = (i + 0.5) / k['ne']
            check_close(e.A, k['B'] * S.h(u), 'area of part %d' % i, rtol=1e-7)
            check_close(e.I[0], k['B'] * S.h(u) ** 3 / 12, 'I of part %d' % i, rtol=1e-6)

    look(S, 0)
    parts(S)
    # another depth
    c['h0'] *= k['f']
    S2 = Shape(c, k['L'], k['B'])
    if c['k'] == 'single':
        s.H0 = c['h0']
        s.Hap = c['h0'] * (1 + c['dh'])
    elif c['k'] == 'ridge':
        s.H0 = c['h0']
        s.Hap = c['h0'] * (1 + c['dh'])
    else:
        s.H0 = c['h0']
    look(S2, 0)
    parts(S2)
    if 'xap' in c:          # another place of the apex
        s.Xap = xap = c['xap'] = round(1 - 0.8 * c['xap'], 6)
        S2 = Shape(c, k['L'], k['B'])
        look(S2, 0)
        parts(S2)
        need(s.Xap == xap, 'place of the apex')
    elif c['k'] in ('curved', 'pitched'):       # other slopes and another radius
        c['al'], c['r'] = c['al'] * 0.9, c['r'] * (1.8 - 0.8 * k['f'])
        S2 = Shape(c, k['L'], k['B'])
        for a, v in sorted((('Alpha', c['al']), ('Beta', c['al'] * c['be']), ('R_in', c['r'])), reverse=k['ne'] % 2):
            setattr(s, a, v)
        look(S2, 0)
        parts(S2)
    s.R = R
    if R:
        look(S2, 1)
    return abs(s.get_H(xap) - s.get_H(0)) > 1


# -- materials and strengths ------------------------------------------------------------------------
KMOD = {1: (0.6, 0.7, 0.8, 0.9, 1.1), 2: (0.6, 0.7, 0.8, 0.9, 1.1), 3: (0.5, 0.55, 0.65, 0.7, 0.9)}
LDC = ['perm', 'lt', 'mt', 'st', 'inst']
GAMMA = {'solid_timber': 1.3, 'glt': 1.25, 'lvl': 1.2}
KDEF = {1: 0.6, 2: 0.8, 3: 2.0}
FORCE = st.one_of(st.floats(-1, 1), st.floats(0.01, 1), st.floats(-1, -0.01), st.just(0.0))
ON = st.sampled_from([True, True, True, False])
MEMBER = {
    'B': st.floats(40, 350), 'H': st.floats(60, 1400), 'g': GRADE, 'L': st.floats(1500, 25000), 'ldc': st.sampled_from(LDC), 'sc': st.sampled_from([1, 2, 3]),
    'varnish': st.booleans(), 'flat': st.booleans(), 'edge': st.sampled_from(['compression', 'tension']),
    'sy': st.lists(st.integers(1, 9), max_size=2, unique=True), 'sz': st.lists(st.integers(1, 9), max_size=3, unique=True),
    'beta': st.one_of(st.floats(0.5, 2.2), st.tuples(st.floats(0.5, 2.2), st.floats(0.5, 2.2))),
    'loc': st.lists(st.floats(0.01, 0.99), max_size=4, unique=True),
    'F': st.lists(st.tuples(FORCE, FORCE, FORCE, FORCE, FORCE, FORCE), min_size=9, max_size=9),
    'on': st.tuples(*[ON] * 6), 'shape': st.one_of(st.none(), st.none(), SHAPE)}


class Mem:
    """a member of the code and the forces given to it"""

    def __init__(self, k, M, R=0):
        self.k, self.M, self.g = k, M, k['g']
        self.L = k['L']
        self.shape = Shape(k['shape'], k['L'], k['B']) if k['shape'] else None
        T = M.md.T[k['g']]
        lv = 'flat' if k['flat'] else 'edge'
        if self.shape:
            s = self.shape.make(M, k['g'], lvldir=lv)
        else:
            q = (1.25, 0.8) if k.get('set') else (1, 1)
            s = M.ts.TimberSection(k['B'] * q[0], k['H'] * q[1], T, lvldir=lv)
        self.s = s
        self.mat = s.material
        beta = k['beta'] if isinstance(k['beta'], float) else list(k['beta'])
        self.beta = (beta, beta) if isinstance(beta, float) else beta
        self.sy, self.sz = [i / 10 for i in k['sy']], [i / 10 for i in k['sz']]
        m = M.tm.TimberMember(s, s.material, k['L'], k['ldc'], k['sc'], mtype=k.get('mtype', 'beam'), varnished=k['varnish'],
                              lateral_support_y=list(self.sy), lateral_support_z=list(self.sz), edge_load=k['edge'], beta=beta)
        s.timber_member = m
        if k.get('set') and not self.shape:     # dimensions set through the member
            m.h, m.b
            m.h, m.b = k['H'], k['B']
            need(m.h == k['H'] and m.b == k['B'], 'dimensions set')
        self.m = m
        m.calc_l_c()
        xap = (k['shape'] or {}).get('xap', 0.5)
        self.loc = sorted(set([0.0, 1.0, xap] + self.sy + self.sz + list(k['loc'])))
        if k.get('gap'):        # no section at the apex
            self.loc = [u for u in self.loc if u != xap]
        sc = (4e5, 2e8, 2e7, 1e5, 1e5, 1e7)
        self.F = [[f * a * o for f, a, o in zip(F, sc, k['on'])] for F in k['F']]
        self.F = (self.F * 2)[:len(self.loc)]
        for l, f in zip(self.loc, self.F):
            m.add_section(*f, loc=l)
        self.kmod = KMOD[k['sc']][LDC.index(k['ldc'])]
        self.gam = GAMMA[kind(self.g)]

    def H(self, u):
        return self.shape.h(u) if self.shape else self.k['H']

    def d(self, fk):
        return self.kmod * fk / self.gam

    def kh(self):
        """size effect of members in bending only; otherwise the code's, within its limits"""
        lim = {'solid_timber': (150, 0.2, 1.3), 'glt': (600, 0.1, 1.1), 'lvl': (300, self.mat.s if self.g in LVL else 0, 1.2)}[kind(self.g)]
        got = self.s.k_h
        if self.g in SOLID and self.mat.rhok > 700:
            need(got == 1, 'size effect of dense timber')
            return 1.0
        if kind(self.g) == 'lvl' or not any(f[0] for f in self.F):
            H = self.s.H
            if not any(f[1] or f[2] for f in self.F):
                e = 1.0
            else:
                e = min(lim[2], (lim[0] / H) ** lim[1])
                if kind(self.g) != 'lvl':
                    e = max(1.0, e)
            check_close(got, e, 'k_h')
        need(0.5 < got <= lim[2] and (kind(self.g) == 'lvl' or got >= 1), 'k_h out of range')
        return got

    def strengths(self):
        a, g = self.mat, self.g
        kh = self.kh()
        lv = kind(g) == 'lvl'
        fm = a.fm0flatk if lv and self.k['flat'] else a.fmk
        fc90 = (a.fc90flatk if self.k['flat'] else a.fc90edgek) if lv else a.fc90k
        ft90 = (None if self.k['flat'] else a.ft90edgek) if lv else a.ft90k
        kl = min(1.1, (3000 / self.L) ** (a.s / 2)) if lv and any(f[0] for f in self.F) else 1.0
        return SimpleNamespace(fm=kh * self.d(fm), ft=(kl if lv else kh) * self.d(a.ft0k), fc=self.d(a.fc0k), fv=self.d(a.fvk),
                               fc90=self.d(fc90), ft90=None if ft90 is None else self.d(ft90))

    def stress(self, n):
        u, B = self.loc[n], self.k['B']
        H = self.H(u)
        N, my, mz, vy, vz, t = self.F[n]
        return SimpleNamespace(N=N / (B * H), y=my / (B * H * H / 6), z=mz / (H * B * B / 6), H=H, V=max(abs(vy), abs(vz)), T=abs(t))


@CHECK.clause('strength', st.fixed_dictionaries({**MEMBER, 'set': st.booleans()}), quick=900, thorough=20000, rule='load duration and service class with k_mod other than 0.6')
def strength(k):
    M = mods()
    x = Mem(k, M)
    m, f = x.m, x.strengths()
    need(x.mat.type == kind(x.g), 'type of ' + x.g)
    if x.g in SOLID:
        need(x.mat.fmk == int(x.g[1:]), 'bending strength of ' + x.g)
    if x.g in GLT:
        need(x.mat.fmk == int(x.g[2:4]), 'bending strength of ' + x.g)
    check_close(m.kmod, x.kmod, 'k_mod')
    check_close(m.get_kdef(), KDEF[k['sc']], 'k_def')
    check_close(m.fmd, f.fm, 'fmd')
    check_close(m.ft0d, f.ft, 'ft0d')
    check_close(m.fc0d, f.fc, 'fc0d')
    check_close(m.fvd, f.fv, 'fvd')
    check_close(m.fc90d, f.fc90, 'fc90d')
    check_close(m.unmodified_fmd, x.d(x.mat.fmk), 'fmd without size effect')
    check_close(m.unmodified_ft0d, x.d(x.mat.ft0k), 'ft0d without size effect')
    if f.ft90 is not None:
        check_close(m.ft90d, f.ft90, 'ft90d')
    if kind(x.g) == 'lvl':
        check_close(m.fr0d, x.d(x.mat.fr0k), 'fr0d')
        check_close(m.ft90edged, x.d(x.mat.ft90edgek), 'ft90edged')
    check_close(m.NEd, max(abs(F[0]) for F in x.F), 'NEd')
    check_close(m.MEdY, max(abs(F[1]) for F in x.F), 'MEdY')
    check_close(m.MEdZ, max(abs(F[2]) for F in x.F), 'MEdZ')
    return x.kmod != 0.6


def saint_venant(a, b):
    """torsion constant and modulus of a rectangle by the series"""
    a, b = max(a, b), min(a, b)         # a long, b thin
    n = np.arange(1, 60, 2)
    s = np.sum(np.tanh(n * math.pi * a / (2 * b)) / n ** 5)
    J = a * b ** 3 * (1 / 3 - 64 * b / (math.pi ** 5 * a) * s)
    # largest stress per rate of twist at the middle of the long side: G theta b (1 - 8/pi^2 sum 1/(n^2 cosh))
    q = 1 - 8 / math.pi ** 2 * np.sum(1 / (n ** 2 * np.cosh(np.minimum(n * math.pi * a / (2 * b), 700))))
    return J, J / (b * q)


@CHECK.clause('section', st.fixed_dictionaries({**MEMBER, 'set': st.booleans(), 'flip': st.integers(0, 5), 'cols': st.tuples(st.one_of(st.none(), st.floats(100, 800)), st.one_of(st.none(), st.floats(100, 800)))}), quick=900, thorough=20000,
              rule='bending about both axes with normal force')
def section_(k):
    M = mods()
    x = Mem(k, M)
    m, f = x.m, x.strengths()
    nt = False
    kcr = 0.67 if not k['varnish'] else 1.0
    for n in range(len(x.loc)):
        s = x.stress(n)
        if s.H < 30:
            raise Skip('no section left')
        un = abs(s.N) / (f.ft if s.N > 0 else f.fc)
        check_close(m.check_normal_force(n), un, 'normal force', rtol=1e-7)
        um = max(abs(s.y) + 0.7 * abs(s.z), abs(s.z) + 0.7 * abs(s.y)) / f.fm
        check_close(m.check_bending_moment(n), um, 'bending', rtol=1e-6)
        check_vec(m.sigma_md(n), [s.y, s.z], 'bending stresses', rtol=1e-6, atol=1e-9)
        if s.N >= 0:
            check_close(m.check_bending_tension(n), un + um, 'bending and tension', rtol=1e-6)
        else:
            check_close(m.check_bending_compression(n), un ** 2 + um, 'bending and compression', rtol=1e-6)
        if kind(x.g) != 'lvl':
            check_close(m.check_shear_force(n, reduce=False), 1.5 * s.V / (s.H * k['B'] * kcr) / f.fv, 'shear', rtol=1e-7)
        J, W = saint_venant(s.H, k['B'])
        ks = min(1.3, 1 + 0.05 * s.H / k['B'])
        if s.H >= k['B']:
            check_close(m.k_shape(n), ks, 'k_shape', rtol=1e-7)
            check_close(m.check_torsion(n), s.T / W / (ks * f.fv), 'torsion', rtol=0.03, atol=1e-12)
        else:
            check_close(abs(m.tau_tord(n)), s.T / W, 'torsional stress', rtol=0.03, atol=1e-12)
        check_close(m.I_tor(x.loc[n]), J, 'torsion constant', rtol=0.025)
        nt |= bool(s.N and s.y and s.z)
    # the verdict of a rectangular section does not depend on the directions of moments and shear forces
    k2 = dict(k)
    i = k['flip']
    if i:
        k2['F'] = [[-v if j == i else v for j, v in enumerate(F)] for F in k['F']]
        y = Mem(k2, M)
        a, b = m.check_sections(reduce_uv=False), y.m.check_sections(reduce_uv=False)
        check_vec(a, b, 'utilisation with a force reversed', rtol=1e-9, atol=1e-12)
        check_close(max(a), max(m.section_resistance(n=n, return_list=False, reduce_uv=False) for n in range(m.nsect())), 'largest utilisation')
    # next to the supports the shear force at the distance of the depth from the edge of the support counts
    own = SimpleNamespace(member=m)
    m.parent = SimpleNamespace(
        n1=SimpleNamespace(parents=[own] + [SimpleNamespace(member=object(), cross_section=SimpleNamespace(H=c)) for c in k['cols'][:1] if c]),
        n2=SimpleNamespace(parents=[own] + [SimpleNamespace(member=object(), cross_section=SimpleNamespace(H=c)) for c in k['cols'][1:] if c]))
    H0 = x.s.get_H(0)
    a, b = [((c or 0) / 2 + H0) / x.L for c in k['cols']]
    if a + b < 1 and kind(x.g) != 'lvl' and all(abs(u - a) > 1e-9 and abs(u - 1 + b) > 1e-9 for u in x.loc):
        for n, u in enumerate(x.loc):
            i = n
            if u < a:
                i = max(j for j, v in enumerate(x.loc) if v <= a)
            elif u > 1 - b:
                i = min(j for j, v in enumerate(x.loc) if v >= 1 - b)
            s = x.stress(i)
            check_close(m.check_shear_force(n), 1.5 * s.V / (s.H * k['B'] * kcr) / f.fv, 'reduced shear', rtol=1e-7)
    return nt


def parts(supp):
    s = [0.0] + sorted(supp) + [1.0]
    return list(zip(s[:-1], s[1:]))


def slenderness(x, ax):
    """slenderness of the parts between supports of axis ax (0: y, 1: z)"""
    out = []
    for a, b in parts((x.sy, x.sz)[ax]):
        idx = [n for n, u in enumerate(x.loc) if a <= u <= b]
        v = [abs((x.stress(n).y, x.stress(n).z)[ax]) for n in idx]
        best = max(v)
        H = {round(x.H(x.loc[n]), 9) for n, w in zip(idx, v) if w >= best * (1 - 1e-9)}
        if len(H) > 1:
            raise Skip('the place of the largest stress is not unique')
        i = (H.pop() if ax == 0 else x.k['B']) / math.sqrt(12)
        out.append(x.beta[ax] * (b - a) * x.L / i)
    return out


def kc_of(x, lam):
    rel = lam / math.pi * math.sqrt(x.mat.fc0k / x.mat.E005)
    k = 0.5 * (1 + (0.2 if kind(x.g) == 'solid_timber' else 0.1) * (rel - 0.3) + rel ** 2)
    return 1 / (k + math.sqrt(k * k - rel * rel))


@CHECK.clause('stability', st.fixed_dictionaries({**MEMBER, 'set': st.booleans()}), quick=1300, thorough=30000, rule='intermediate supports or a slender beam, with compression')
def stability(k):
    M = mods()
    x = Mem(k, M)
    m, f = x.m, x.strengths()
    if min(x.H(u) for u in x.loc) < 30:
        raise Skip('no section left')
    for ax in (0, 1):
        check_vec(m.L_c[ax], [(b - a) * x.L for a, b in parts((x.sy, x.sz)[ax])], 'lengths between supports', rtol=1e-9)
    lam = [slenderness(x, 0), slenderness(x, 1)]
    kc = [[kc_of(x, l) for l in v] for v in lam]
    for ax in (0, 1):
        check_vec(list(m.lamda()[ax]), lam[ax], 'slenderness', rtol=1e-6)
        check_vec(list(m.k_c()[ax]), kc[ax], 'k_c', rtol=1e-6)
        check_vec(list(m.sigma()[ax]), [math.pi ** 2 * x.mat.E0mean / l ** 2 for l in lam[ax]], 'critical stress', rtol=1e-6)
    S = [x.stress(n) for n in range(len(x.loc))]
    want = []
    for ax in (0, 1):
        r = [0.0]
        for i, (a, b) in enumerate(parts((x.sy, x.sz)[ax])):
            T = [s for s, u in zip(S, x.loc) if a <= u <= b]
            c = -min(s.N for s in T)
            y, z = max(abs(s.y) for s in T), max(abs(s.z) for s in T)
            if c > 0:
                r.append(c / (kc[ax][i] * f.fc) + (y + 0.7 * z if ax == 0 else 0.7 * y + z) / f.fm)
        want.append(max(r))
    check_vec(list(m.check_buckling()), want, 'flexural buckling', rtol=1e-6, atol=1e-12)
    # lateral buckling
    lt = []
    bent = any(F[1] for F in x.F)
    axial = max(abs(F[0]) for F in x.F) > 0.1
    slender = False
    for i, (a, b) in enumerate(parts(x.sz)):
        for n, u in enumerate(x.loc):
            if not a <= u <= b:
                continue
            H, B = S[n].H, k['B']
            lef = 0.9 * (b - a) * x.L + (2 * H if k['edge'] == 'compression' else -0.5 * H)
            if lef < 0.05 * (b - a) * x.L:
                raise Skip('short and deep')
            check_close(m.l_ef(i, 1, u), lef, 'effective length', rtol=1e-6)
            sc = math.pi * math.sqrt(x.mat.E005 * H * B ** 3 / 12 * x.mat.G005 * m.I_tor(u)) / (lef * B * H * H / 6)
            check_close(m.sigma_mcrit(i, 1, u), sc, 'critical bending stress', rtol=1e-6)
            rel = math.sqrt(x.mat.fmk / sc)
            kr = 1.0 if rel <= 0.75 else 1.56 - 0.75 * rel if rel <= 1.4 else 1 / rel ** 2
            check_close(m.k_crit(i, 1, u), kr, 'k_crit', rtol=1e-5)
            slender |= kr < 1
            e = abs(S[n].y) / (kr * f.fm)
            if axial or not bent:
                e = e ** 2 + max(0, -S[n].N) / (kc[1][i] * f.fc)
            lt.append(e)
    check_close(m.check_LT_buckling(), max(lt), 'lateral buckling', rtol=1e-5, atol=1e-12)
    full = m.check_LT_buckling(get_full=True)
    check_close(full['r'], max(lt), 'lateral buckling', rtol=1e-5, atol=1e-12)
    return bool((len(k['sy']) + len(k['sz']) or slender) and any(F[0] < 0 for F in x.F))


@CHECK.clause('apex', st.fixed_dictionaries({**MEMBER, 'shape': SHAPE, 'gap': st.sampled_from([False, False, True])}), quick=900, thorough=20000, rule='curved or tapered apex with bending')
def apex(k):
    k = dict(k)
    k['shape'] = dict(k['shape'])
    kd = k['shape']['k']
    if kd in ('ridge', 'belly'):
        k['shape']['xap'] = 0.5
    M = mods()
    x = Mem(k, M)
    m, f, c = x.m, x.strengths(), x.shape
    if min(x.H(u) for u in x.loc) < 30:
        raise Skip('no section left')
    B = k['B']
    ys = [x.stress(n).y for n in range(len(x.loc))]
    if kd == 'single':
        a = math.atan(k['shape']['h0'] * k['shape']['dh'] / x.L)
        check_close(m.alfa(), a, 'slope', rtol=1e-7, atol=1e-12)
        check_close(m.V_tot(), k['shape']['h0'] * (1 + 0.5 * k['shape']['dh']) * x.L * B, 'volume')
        s = max(ys, key=abs)
        check_close(abs(m.sigma_m_alpha_d()), abs(s), 'largest bending stress', rtol=1e-6)
        if abs(max(ys) + min(ys)) < 1e-6 * abs(s):
            raise Skip('two sections decide')
        tension = (s < 0) != k['shape']['flip']        # at the tapered edge (positive moment sags)
        t = abs(math.tan(a))
        if s == 0 or tension and f.ft90 is None:
            return False
        km = (1 + (f.fm * t / (0.75 * f.fv)) ** 2 + (f.fm * t * t / f.ft90) ** 2) ** -0.5 if tension else (
            1 + (f.fm * t / (1.5 * f.fv)) ** 2 + (f.fm * t * t / f.fc90) ** 2) ** -0.5
        if s:
            check_close(m.k_m_alpha(), km, 'k_m,alpha', rtol=1e-6)
        check_close(m.check_single_tapered_beam_bending_tension(), abs(s) / (km * f.fm), 'bending of a tapered beam', rtol=1e-6, atol=1e-12)
        return s != 0
    h = c.h(0.5)
    a = math.radians(k['shape']['al']) if kd != 'ridge' else math.atan(k['shape']['h0'] * k['shape']['dh'] / (x.L / 2))
    t = math.tan(a)
    check_close(m.alfa(), a, 'slope', rtol=1e-7)
    if k['gap']:                # mean of the sections on both sides
        i = sum(u < 0.5 for u in x.loc)
        Map = (x.F[i - 1][1] + x.F[i][1]) / 2
    else:
        Map = x.F[x.loc.index(0.5)][1]
    check_close(m.M_apd(), Map, 'apex moment', atol=1e-9)
    W = B * h * h / 6
    check_close(m.W_ap()[0], W, 'section modulus of the apex', rtol=1e-6)
    if kd in ('ridge', 'belly'):
        kl, kr, kdis, kp = 1 + 1.4 * t + 5.4 * t * t, 1.0, 1.4, 0.2 * t
        V = B * h * h
        if kd == 'ridge':
            check_close(m.V_tot(), c.face() * B, 'volume', rtol=1e-6)
    else:
        r = k['shape']['r'] + h / 2
        q = k['shape']['r'] / k['shape']['t']
        kr = 1.0 if q >= 240 else 0.76 + 0.001 * q
        check_close(m.V_tot(), c.face() * B, 'volume', rtol=1e-6)
        if kd == 'curved':
            kl = 1 + 0.35 * h / r + 0.6 * (h / r) ** 2
            kp, kdis = 0.25 * h / r, 1.4
            # ring of the mean opening angle
            V = B * ((k['shape']['r'] + h) ** 2 - k['shape']['r'] ** 2) * (c.a + c.b) / 2
        else:
            kl = 1 + 1.4 * t + 5.4 * t * t + (0.35 - 8 * t) * h / r + (0.6 + 8.3 * t - 7.8 * t * t) * (h / r) ** 2 + 6 * t * t * (h / r) ** 3
            kp = 0.2 * t + (0.25 - 1.5 * t + 2.6 * t * t) * h / r + (2.1 * t - 4 * t * t) * (h / r) ** 2
            kdis, V = 1.7, None
    check_close(m.k_r(), kr, 'k_r')
    check_close(m.k_l(), kl, 'k_l', rtol=1e-6)
    check_close(m.k_dis(), kdis, 'k_dis')
    check_close(m.k_p(), kp, 'k_p', rtol=1e-6)
    vt = c.face() * B if kd != 'belly' else m.V_tot()
    if V is None:
        V = m.V()
        need(0 < V < vt, 'volume of the apex')
    else:
        check_close(m.V(), V, 'volume of the apex', rtol=1e-6)
    kv = 1.0 if kind(x.g) == 'solid_timber' else (1e7 / min(V, vt * 2 / 3)) ** 0.2
    check_close(m.k_vol(), kv, 'k_vol', rtol=1e-6)
    u = abs(kl * Map / W) / (kr * f.fm)
    check_close(m.check_apex_bending_stress(), u, 'bending of the apex', rtol=1e-6, atol=1e-12)
    if k['gap']:
        u = abs(kl * (ys[i - 1] + ys[i]) / 2) / (kr * f.fm)
    check_close(m.check_tapered_beam_bending_tension(), u, 'bending of the apex', rtol=1e-6, atol=1e-12)
    if f.ft90 is not None:
        u = kp * Map / W / (kdis * kv * f.ft90)
        check_close(m.check_apex_perpendicular_tension(), u, 'tension across the grain', rtol=1e-6, atol=1e-12)
        check_close(m.check_perpendicular_to_grain_tension(), u, 'tension across the grain', rtol=1e-6, atol=1e-12)
    return Map != 0


@CHECK.clause('frame', st.fixed_dictionaries({
    'shape': st.one_of(st.none(), SHAPE), 'B': st.floats(60, 300), 'H': st.floats(150, 1200), 'g': GRADE, 'L': st.integers(3000, 25000),
    'q': st.floats(0.5, 30), 'N': st.floats(-2e5, 2e5), 'ne': st.integers(3, 10), 'mtype': st.sampled_from(['beam', 'column']),
    'sz': st.integers(0, 2), 'sw': st.booleans()}), quick=250, thorough=5000, rule='depth varies along the member')
def frame(k):
    """a simply supported timber member in a frame: internal forces, displacements and utilisation"""
    import metku.frame2d.frame2d as f2
    M = mods()
    L, B, q, ne = float(k['L']), k['B'], k['q'], k['ne']
    S = Shape(k['shape'], L, B) if k['shape'] else None
    if S and min(S.h(u) for u in (0, 0.5, 1)) < 30:
        raise Skip('no section left')
    s = S.make(M, k['g']) if S else M.ts.TimberSection(B, k['H'], M.md.T[k['g']])
    h = S.h if S else lambda u: k['H']
    F = f2.Frame2D()
    sz = [round(j / ne, 3) for j in range(1, k['sz'] + 1)]
    b = f2.TimberFrameMember([[0, 0], [L, 0]], s, mtype=k['mtype'], num_elements=ne, lateral_support_z=list(sz), beta=1.0)
    F.add(b)
    F.add(f2.XYHingedSupport([0, 0]))
    F.add(f2.YHingedSupport([L, 0]))
    F.add(f2.LineLoad(b, [-q, -q], 'y'))
    F.add(f2.PointLoad([L, 0], [k['N'], 0, 0]))
    F.generate()
    if k['sw']:
        rho = b.material.rhomean
        V = b.weight / (rho * 1e-9)
        if S is None or k['shape']['k'] != 'belly':
            check_close(V, (S.face() if S else k['H'] * L) * B, 'volume of the member', rtol=1e-6) if not (S and k['shape'].get('xap', 0.5) != 0.5) else None
    F.calculate()
    m = b.member
    keep = [i for i in range(len(m.loc)) if i == 0 or m.loc[i] - m.loc[i - 1] > 1e-6]      # a node may have a section on both sides
    u = [float(m.loc[i]) for i in keep]
    check_vec(u, [round(i / ne, 3) for i in range(ne + 1)], 'places of the sections', atol=1.1e-3)
    for i, x in enumerate(m.loc):
        check_close(m.myed[i], q * x * L * (1 - x) * L / 2, 'bending moment at %r' % x, rtol=1e-5, atol=1e-5 * q * L * L)
        check_close(abs(m.vzed[i]) + abs(m.vyed[i]), abs(q * L * (0.5 - x)), 'shear at %r' % x, rtol=1e-5, atol=1e-5 * q * L)
        check_close(m.ned[i], k['N'], 'normal force at %r' % x, rtol=1e-5, atol=1e-3)
    # displacements by the unit load method with the stiffness of the middles of the parts
    E = b.material.E0mean
    X, W = np.polynomial.legendre.leggauss(6)
    D = list(list(b.nodal_displacements.values())[0].values())
    ux = 0.0
    for j in range(1, ne + 1):
        hm = h((j - 0.5) / ne)
        ux += k['N'] * (u[j] - u[j - 1]) * L / (E * B * hm)
        check_close(D[j][0], ux, 'extension at %r' % u[j], rtol=1e-4, atol=1e-9)
        v = 0.0
        for i in range(ne):
            I = B * h((i + 0.5) / ne) ** 3 / 12
            for t, w in zip(X, W):
                x = u[i] + (u[i + 1] - u[i]) * 0.5 * (1 + t)
                # kink where the unit load acts is a node
                v += 0.5 * w * (u[i + 1] - u[i]) * L * (q * x * (1 - x) * L * L / 2) * L * (x * (1 - u[j]) if x <= u[j] else u[j] * (1 - x)) / (E * I)
        check_close(-D[j][1], v, 'deflection at %r' % u[j], rtol=1e-4, atol=1e-6)
    want = max(max(m.check_sections()), max(m.check_buckling()))
    if k['mtype'] == 'beam':
        want = max(want, m.check_LT_buckling())
    check_close(list(b.r.values())[0], want, 'utilisation', rtol=1e-9)
    need(b.is_strong_enough == (want <= 1), 'verdict')
    return S is not None
