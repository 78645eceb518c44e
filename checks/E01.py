"""E01: steel at elevated temperatures, EN 1993-1-2."""
import math

import numpy as np
from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, check_vec, need

CHECK = Check('E01', 'temperature above 100 C and between tabulated values',
              ['explicit time stepping with the gas temperature at the '
               'beginning of the step',
               'convection 25/50 W/m2K for standard/hydrocarbon fire and '
               '25..35 for other fires'])
T0 = [20, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200]
CS = {'ky': [1, 1, 1, 1, 1, .78, .47, .23, .11, .06, .04, .02, 0],
      'kp': [1, 1, .807, .613, .42, .36, .18, .075, .05, .0375, .025, .0125, 0],
      'kE': [1, 1, .9, .8, .7, .6, .31, .13, .09, .0675, .045, .0225, 0],
      'kp02': [1, 1, .89, .78, .65, .53, .3, .13, .07, .05, .03, .02, 0]}
SS = {'ky': [.26, .24, .19, .19, .19, .19, .22, .26, .35, .38, .40, .40, .40],
      'k02': [1, .82, .68, .64, .6, .54, .49, .4, .27, .14, .06, .03, 0],
      'ku': [1, .87, .77, .73, .72, .67, .58, .43, .27, .15, .07, .03, 0],
      'kE': [1, .96, .92, .88, .84, .8, .76, .71, .63, .45, .2, .1, 0],
      'kEct': [.11, .05] + [.02] * 11,
      'epsU': [.4] * 6 + [.35, .3] + [.2] * 5}
TB = [20, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000]
KB = [1, .968, .952, .935, .903, .775, .55, .22, .1, .067, .033, 0]
TEMP = st.one_of(st.sampled_from(T0 + [150]), st.floats(20, 1200),
                 st.integers(20, 1200))


def interp(t, ts, vs):
    return float(np.interp(t, ts, vs))


@CHECK.clause('reduction', st.fixed_dictionaries({
    't': TEMP, 'fy': st.floats(200, 960), 'E': st.floats(1e5, 3e5)}),
    quick=3000, thorough=100000, rule='reduction factors and material '
    'properties at a temperature vs. tables 3.1, C.1, D.1, E.1')
def reduction(case):
    from metku.eurocodes.en1993 import en1993_1_2 as en
    from metku.materials.steel_data import Steel
    t, fy, E = case['t'], case['fy'], case['E']
    for p, v in CS.items():
        check_close(en.reduce_property(t, p), interp(t, T0, v), f'{p} carbon', 1e-9,
                    1e-12)
    for p, v in SS.items():
        check_close(en.reduce_property(t, p, '1.4301'), interp(t, T0, v),
                    f'{p} 1.4301', 1e-9, 1e-12)
    check_close(en.kbT(t), interp(t, TB, KB), 'bolts', 1e-9, 1e-12)
    ky, kp, kE = (interp(t, T0, CS[p]) for p in ('ky', 'kp', 'kE'))
    check_close(en.fyT(t, fy), ky * fy, 'fy', 1e-9, 1e-9)
    check_close(en.fpT(t, fy), kp * fy, 'fp', 1e-9, 1e-9)
    check_close(en.EaT(t, E), kE * E, 'E', 1e-9, 1e-9)
    check_close(en.f02pT(t, fy), interp(t, T0, SS['k02']) * fy, 'f02p', 1e-9, 1e-9)
    fu = (1.25 if t < 300 else 2 - 0.0025 * t if t < 400 else 1.0) * ky * fy
    check_close(en.fuT(t, ky * fy), fu, 'fu', 1e-9, 1e-9)
    check_close(en.fuT(t, fy, '1.4301'), interp(t, T0, SS['ku']) * fy, 'fu 1.4301',
                1e-9, 1e-9)
    m = Steel('S420')
    check_close(m.fy_temp(t), ky * 420, 'Steel.fy_temp', 1e-9, 1e-9)
    check_close(m.fp_temp(t), kp * 420, 'Steel.fp_temp', 1e-9, 1e-9)
    check_close(m.Etemp(t), kE * 210e3, 'Steel.Etemp', 1e-9, 1e-9)
    check_close(m.fu_temp(t), fu / fy * 420, 'Steel.fu_temp', 1e-9, 1e-9)
    return t > 100 and t not in T0


def sigma(e, t, E, fy, hard):
    ky, kp, kE = (interp(t, T0, CS[p]) for p in ('ky', 'kp', 'kE'))
    Ea, fp, f = kE * E, kp * fy, ky * fy
    if Ea == 0:
        return 0.0
    ep, ey = fp / Ea, 0.02
    if e <= ep:
        return Ea * e
    if e < ey:
        c = (f - fp) ** 2 / ((ey - ep) * Ea - 2 * (f - fp))
        a2 = (ey - ep) * (ey - ep + c / Ea)
        b2 = c * (ey - ep) * Ea + c * c
        return fp - c + math.sqrt(b2 / a2) * math.sqrt(a2 - (ey - e) ** 2)
    fu = (1.25 if t < 300 else 2 - 0.0025 * t if t < 400 else 1.0) * f
    if not hard:
        fu = f
    if e <= 0.15:
        return fu if e >= 0.04 or not hard else 50 * (fu - f) * e + 2 * f - fu
    if e < 0.2:
        return fu * (1 - 20 * (e - 0.15))
    return 0.0


@CHECK.clause('stress', st.fixed_dictionaries({
    't': TEMP, 'fy': st.floats(200, 700), 'hard': st.booleans(),
    'e': st.one_of(st.floats(0, 0.25), st.floats(0, 0.02), st.sampled_from(
        [0.0, 0.02, 0.04, 0.15, 0.2]))}),
    quick=3000, thorough=100000, rule='stress at given strain and temperature '
    'vs. Fig. 3.1 and Annex A; continuity of the curve')
def stress(case):
    from metku.eurocodes.en1993 import en1993_1_2 as en
    t, fy, e, h = case['t'], case['fy'], case['e'], case['hard']
    w = sigma(e, t, 210e3, fy, h)
    check_close(en.stress(e, t, 210e3, fy, hardening=h), w, 'stress', 1e-6, 1e-6)
    s1 = en.stress(e * (1 - 1e-7), t, 210e3, fy, hardening=h)
    s2 = en.stress(e * (1 + 1e-7) + 1e-12, t, 210e3, fy, hardening=h)
    need(abs(s2 - s1) <= 1e-3 * fy, f'jump of stress at strain {e}: {s1}, {s2}')
    from metku.materials.steel_data import Steel
    check_close(Steel('S355').stress_temp(e, t, h), sigma(e, t, 210e3, 355, h),
                'Steel.stress_temp', 1e-6, 1e-6)
    return e > 0 and t > 100


@CHECK.clause('stainless', st.fixed_dictionaries({
    't': TEMP, 'e': st.floats(0, 1), 'prod': st.sampled_from(
        ['cold_strip', 'hot_strip', 'hot_plate', 'sections'])}),
    quick=2000, thorough=60000, rule='stress of stainless steel vs. Annex C')
def stainless(case):
    from metku.eurocodes.en1993 import en1993_1_2 as en
    from metku.materials.steel_data import StainlessSteel
    m = StainlessSteel('1.4301', case['prod'])
    t = case['t']
    if 1000 < t < 1200:
        raise Skip     # the formulas of Annex C degenerate (small f02p)
    v = {p: interp(t, T0, x) for p, x in SS.items()}
    e = case['e'] * v['epsU']
    f, fu, Ea, Ec = v['k02'] * m.fy, v['ku'] * m.fu, v['kE'] * m.E, v['kEct'] * m.E
    if Ea == 0:
        want = 0.0
    else:
        ec = f / Ea + 0.002
        if e <= ec:
            b = (1 - ec * Ec / f) * Ea * ec / ((Ea * ec / f - 1) * f)
            a = (Ea * ec - f) / (f * ec ** b)
            want = Ea * e / (1 + a * e ** b)
        else:
            q = v['epsU'] - ec
            k = (fu - f) ** 2 / (q * Ec - 2 * (fu - f))
            d = math.sqrt(k * q * Ec + k * k)
            c = math.sqrt(q * (q + k / Ec))
            want = f - k + d / c * math.sqrt(c * c - (v['epsU'] - e) ** 2)
    got = en.stress_stainless(e, t, m.E, m.fy, m.fu)
    check_close(got, want, 'stress', 1e-6, 1e-6)
    need(got <= fu + 1e-6 * m.fu, 'stress above the ultimate strength')
    return e > 0.003


def ca(T):
    if T < 600:
        return 425 + .773 * T - 1.69e-3 * T ** 2 + 2.22e-6 * T ** 3
    if T < 735:
        return 666 + 13002 / (738 - T)
    if T < 900:
        return 545 + 17820 / (T - 731)
    return 650


def ca_ss(T):
    return 450 + .28 * T - 2.91e-4 * T ** 2 + 1.34e-7 * T ** 3


@CHECK.clause('thermal', st.fixed_dictionaries({
    't': TEMP, 'm': st.floats(0, 240), 'Ts': st.floats(20, 1200)}),
    quick=2000, thorough=60000, rule='thermal properties, fire curves, heat flux')
def thermal(case):
    from metku.eurocodes.en1993 import en1993_1_2 as en
    t, m, Ts = case['t'], case['m'], case['Ts']
    el = (1.2e-5 * t + .4e-8 * t * t - 2.416e-4 if t < 750 else 1.1e-2
          if t <= 860 else 2e-5 * t - 6.2e-3)
    check_close(en.therm_elongation(t), el, 'elongation', 1e-9, 1e-12)
    check_close(en.therm_conductivity(t), 54 - .0333 * t if t < 800 else 27.3,
                'conductivity', 1e-9)
    check_close(en.spec_heat(t), ca(t), 'specific heat', 1e-9)
    check_close(en.spec_heat_stainless(t), ca_ss(t), 'specific heat 1.4301', 1e-9)
    check_close(en.therm_conductivity_stainless(t), 14.6 + .0127 * t, 'cond.', 1e-9)
    check_close(en.therm_elongation_stainless(t),
                (16 + 4.79e-3 * t - 1.243e-6 * t * t) * (t - 20) * 1e-6, 'el.', 1e-9,
                1e-15)
    check_close(en.standard_fire(m), 20 + 345 * math.log10(8 * m + 1), 'ISO 834', 1e-9)
    check_close(en.hydrocarbon_fire(m), 1080 * (1 - .325 * math.exp(-.167 * m)
                - .675 * math.exp(-2.5 * m)) + 20, 'hydrocarbon', 1e-9)
    q = 25 * (t - Ts) + .7 * 5.67e-8 * ((t + 273) ** 4 - (Ts + 273) ** 4)
    check_close(en.hnet(t, Ts), q, 'net heat flux', 1e-9, 1e-6)
    return t > 100


@CHECK.clause('heating', st.fixed_dictionaries({
    'ksh': st.floats(0.3, 1), 'AmV': st.floats(20, 400), 'min': st.floats(1, 60),
    'fire': st.sampled_from(['standard', 'hydrocarbon', 'custom']),
    'dt': st.sampled_from([1, 2, 5]), 'ss': st.booleans(),
    'ini': st.floats(0, 60), 'Tmax': st.floats(100, 1000)}),
    quick=400, thorough=10000, rule='history of the temperature of unprotected '
    'steel; heat balance at each step')
def heating(case):
    from metku.eurocodes.en1993 import en1993_1_2 as en
    f = case['fire']
    gas = {'standard': en.standard_fire, 'hydrocarbon': en.hydrocarbon_fire,
           'custom': lambda m: 20 + (case['Tmax'] - 20) * min(m / 20, 1)}[f]
    ref = {'standard': lambda m: 20 + 345 * math.log10(8 * m + 1),
           'hydrocarbon': lambda m: 1080 * (1 - .325 * math.exp(-.167 * m)
           - .675 * math.exp(-2.5 * m)) + 20, 'custom': gas}[f]
    fn = en.stainless_steel_temp if case['ss'] else en.steel_temp
    T, tm = fn(case['ksh'], case['AmV'], case['min'] * 60, gas_temp=gas,
               dt=case['dt'], Tsteel_ini=case['ini'])
    n = math.ceil(case['min'] * 60 / case['dt'] - 1e-9)
    need(len(T) == len(tm) and abs(len(T) - 1 - n) <= 1, 'number of steps')
    em = 0.4 if case['ss'] else 0.7
    c = ca_ss if case['ss'] else ca
    acs = {'standard': [25], 'hydrocarbon': [50], 'custom': [25, 35]}[f]
    best = None
    for ac in acs:
        S = [case['ini']]
        for i in range(len(T) - 1):
            g = ref(i * case['dt'] / 60)
            q = ac * (g - S[-1]) + em * 5.67e-8 * ((g + 273) ** 4 - (S[-1] + 273) ** 4)
            S.append(S[-1] + case['ksh'] * case['AmV'] / c(S[-1]) / 7850 * q
                     * case['dt'])
        e = max(abs(a - b) for a, b in zip(S, T))
        best = e if best is None else min(best, e)
    need(best < 1e-3, f'steel temperature differs by {best}')
    check_vec(tm, [i * case['dt'] / 60 for i in range(len(T))], 'times', 1e-9, 1e-9)
    return T[-1] > 100
