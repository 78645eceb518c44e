"""K01: fabrication costs (Haapio 2012) of plates, connections, members and trusses."""
import math

from hypothesis import strategies as st

from lib.harness import Check, Skip, check_close, need

CHECK = Check('K01', 'more than one item priced, or parameters other than the defaults',
              ['reference: cost centres after Haapio (2012) with the rates of the workshop module'])

U = st.floats(0, 1)

# ---------------------------------------------------------------- reference
MIN_A = 252 * 8 * 60
WAGE = 19.76 * 1.7 / 60              # machine work with overheads, e/min
EL = 0.1 / 60
LAND = 12.0
UPKEEP = 8.0 * 6.385 * 1.81
PAINT = {'alkyd': ([.48, .45, .45], [80, 40, 40], [2.8, 3.6, 3.6]),
         'epoxy': ([.50, .50, .48], [60, 60, 40], [4.2, 4.2, 4.9]),
         'polyurethane': ([.50, .50], [60, 60], [4.2, 5.9]),
         'acryl': ([.48, .48, .40], [60, 60, 40], [6.4, 6.4, 6.4])}
WIRE = {'S355': 1.66, 'S420': 1.66, 'S550': 3.5, 'S690': 2.34}
NUT = {12: .10, 16: .27, 20: .54, 24: .98, 30: 2.13, 36: 4.45}
WASHER = {12: .30, 16: .46, 20: .65, 24: .82, 30: 1.41, 36: 1.76}
# shortest stocked bolt of at least the asked length: (d, length) -> price
BOLT = {(12, 50): (50, .39), (12, 65): (65, .56), (12, 72): (80, .58), (12, 100): (100, .71), (12, 240): (240, 3.28),
        (16, 40): (55, .78), (16, 60): (60, .83), (16, 85): (90, 1.16), (16, 200): (200, 2.48),
        (20, 50): (65, 1.57), (20, 70): (70, 1.61), (20, 120): (120, 2.50), (20, 270): (300, 11.43),
        (24, 50): (75, 2.96), (24, 80): (80, 3.01), (24, 155): (160, 5.35),
        (30, 50): (90, 6.99), (30, 100): (100, 7.40), (36, 60): (120, 17.46), (36, 150): (160, 19.31)}
FULL = {'S235': .8, 'S275': .85, 'S355': .9, 'S420': 1.0, 'S460': 1.0}


def annuity(P, i, n):
    return P * i / (1 - (1 + i) ** -n)


class Centre:
    """Parameters of a cost centre and the price of one minute in it."""

    def __init__(self, length, width, workers, invest, resale, maint, life=20):
        A = length * width
        self.minute = (workers * WAGE + annuity(A * (1000 - LAND), .05, 50) / MIN_A + A * UPKEEP / MIN_A
                       + annuity(invest - resale, .05, life) / MIN_A + maint / MIN_A)

    def price(self, t_non, t_prod, per_min=0.0, fixed=0.0, utility=1.0):
        return (t_non + t_prod) * self.minute / utility + t_prod * per_min + fixed


def r_blasting(c, p, L):
    return c.price(0, L / p.get('speed', 3000), .042 * .75 + 40 * EL, utility=p.get('utility', 1))


def r_cutting(c, p, t, L):
    if t <= 30:
        v = 8.9212 * t * t - 486.87 * t + 8155.8
        cons, en = .071 * .3 + 40 / 480, 72 * EL
    else:
        v = 658.67 - 4.1939 * t
        cons, en = .0063 * 18.4 + (.025 + 1e-5 * t * t + .001 * t + .0224) * 4.18, 0.0
    return c.price(3.0, L / v, cons + en, utility=p.get('utility', 1))


def r_painting(c, p, A):
    vol, dft, price = PAINT[p.get('paint', 'alkyd')]
    wet = [(d * 1e-3 + .01 + .3 * d * 1e-3) / v for v, d in zip(vol, dft)]
    return c.price(0, sum(wet) * A / 900000, 0, sum(w * q for w, q in zip(wet, price)) * 1e-6 * A,
                   utility=p.get('utility', 1))


def r_welding(c, p, a, L, kind='fillet'):
    if kind == 'fillet':
        t, area = L * 1e-3 * (.4988 * a * a - .0005 * a + .0021), a * a
    else:
        t, area = L * 1e-3 * (.249 * a * a + .0096 * a - .0506), a * a / 2
    t += .5 + .5 + .27 + 3 * .09 + .05
    wire = WIRE[p.get('steel_grade', 'S355')]
    return c.price(0, t, 6.0 * EL, area * L * 7850e-9 * (wire + .4 * 3.79), utility=p.get('utility', 1))


def r_sawing(c, p, L, bevels, H, T, AH, AT):
    tp = cons = 0.0
    for h, t, ah, at in zip(H, T, AH, AT):
        i = min(max(math.ceil(t / 5), 1), 8) - 1
        S = (120, 100, 90, 80, 70, 60, 50, 40)[i]
        fsp = (.4, .45, .5, .55, .6, .65, .7, .8)[i]
        tp += h / 2 / S + ah / 1800
        cons += at / (1800 * 1350 * fsp) * 170
    return c.price(2 + 2 * (.25 + .5 + .5) + bevels + L / 20e3, tp, 10 * EL, cons, utility=p.get('utility', 1))


DEF = {'blasting': (40, 10, 1, 200e3, 0, 1000), 'cutting': (20, 10, 2, 280e3, 0, 1000),
       'painting': (15, 5, 1, 0, 0, 0), 'assembly_welding': (15, 5, 1, 5000, 0, 0, 10),
       'sawing': (35, 15, 1, 310e3, 0, 1000, 20)}
REF = {'blasting': r_blasting, 'cutting': r_cutting, 'painting': r_painting,
       'assembly_welding': r_welding, 'sawing': r_sawing}


def default(kind, *args):
    return REF[kind](Centre(*DEF[kind]), {}, *args)


def workshop():
    from metku.cost.workshop import Workshop
    return Workshop()


# ---------------------------------------------------------------- cost centres
@st.composite
def centre(draw, kind):
    if draw(st.integers(0, 2)) == 0:
        return {}
    p = {'length': draw(st.integers(5, 60)), 'width': draw(st.integers(3, 20)), 'workers': draw(st.integers(1, 4))}
    if kind != 'painting':
        p['eq_invest'] = draw(st.integers(1, 50)) * 1e4
        p['eq_resale'] = draw(st.integers(0, 9)) * 0.1 * p['eq_invest']
        p['eq_maint'] = draw(st.integers(0, 30)) * 100.0
    if kind in ('sawing', 'assembly_welding'):
        p['eq_year'] = draw(st.integers(3, 30))
    if kind == 'painting':
        p['paint'] = draw(st.sampled_from(sorted(PAINT)))
    if kind == 'blasting':
        p['speed'] = draw(st.integers(5, 60)) * 100
    if kind == 'assembly_welding':
        p['steel_grade'] = draw(st.sampled_from(sorted(WIRE)))
    if draw(st.booleans()):
        p['utility'] = draw(st.sampled_from([0.5, 0.8, 0.25]))
    return p


@st.composite
def job(draw):
    kind = draw(st.sampled_from(sorted(REF)))
    which = draw(st.integers(0, 1))
    u = [draw(U) for _ in range(8)]
    if kind == 'blasting':
        a = [100 + 12000 * u[0]]
    elif kind == 'cutting':
        a = [draw(st.sampled_from([5.0, 12.0, 25.0, 30.0, 30.5, 40.0, 100.0])) if u[0] < .5 else 3 + 80 * u[1],
             50 + 5000 * u[2]]
    elif kind == 'painting':
        a = [1e3 + 1e7 * u[0]]
    elif kind == 'assembly_welding':
        a = [3 + 12 * u[0], 20 + 3000 * u[1]]
        if draw(st.booleans()):
            a.append(draw(st.sampled_from(['fillet', 'butt'])))
    else:
        n = draw(st.integers(1, 2))
        T = [draw(st.sampled_from([5.0, 5.1, 10.0, 12.5, 20.0, 25.0, 30.0, 32.0, 35.0, 36.0])) if u[4] < .5
             else 2 + 40 * draw(U) for _ in range(n)]
        H = [40 + draw(st.sampled_from([300, 1000])) * draw(U) for _ in range(n)]
        AH = [500 + 8000 * draw(U) for _ in range(n)]
        AT = [x + h * t for x, h, t in zip(AH, H, T)]
        a = [500 + 12000 * u[0], draw(st.integers(0, 2)), H, T, AH, AT]
    return [kind, which, a]


def call(c, kind, a, grade='S355'):
    if kind == 'sawing':
        L, bevels, H, T, AH, AT = a
        return c.cost(L, bevels, grade, H, T, AH, AT)
    return c.cost(*a)


@CHECK.clause('centres', st.fixed_dictionaries({
    'par': st.fixed_dictionaries({k: st.tuples(centre(k), centre(k)).map(list) for k in sorted(REF)}),
    'jobs': st.lists(job(), min_size=2, max_size=10),
    'grade': st.sampled_from(['S235', 'S355', 'S420', 'S500', 'S700'])}), quick=3000, thorough=60000,
    rule='sequences of jobs in cost centres of two workshops, each job priced as if it were the first')
def centres(k):
    from metku.cost import workshop as w
    cls = {'blasting': w.BlastingCost, 'cutting': w.CuttingCost, 'painting': w.PaintingCost,
           'assembly_welding': w.AssemblingCostWeld, 'sawing': w.SawingCost}
    names = ('length', 'width', 'workers', 'eq_invest', 'eq_resale', 'eq_maint', 'eq_year')
    shops, refs = [], []
    for i in (0, 1):
        cs, rs = {}, {}
        for n in REF:
            p = dict(k['par'][n][i])
            util = p.pop('utility', 1.0)
            cs[n] = cls[n](**p)
            cs[n].utility = util
            d = list(DEF[n])
            for q, name in enumerate(names[:len(d)]):
                d[q] = p.get(name, d[q])
            rs[n] = (Centre(*d), dict(k['par'][n][i]))
        shops.append(w.Workshop(cost_centres=cs))
        refs.append(rs)
    for n, i, a in k['jobs']:
        got = call(shops[i].cost_centres[n], n, a, k['grade'])
        c, p = refs[i][n]
        check_close(got, REF[n](c, p, *a), f'{n} {a}', 1e-9, 1e-9)
        need(math.isfinite(got) and got > 0, f'{n}: price {got}')
    return len(k['jobs']) > 1


# ---------------------------------------------------------------- plates
PLATE_T = st.sampled_from([5.0, 5.9, 6.0, 7.0, 7.99, 8.0, 10.0, 12.0, 15.0, 19.0, 20.0, 25.0, 40.0, 45.0, 50.0, 60.0, 70.0])


def add_on(t):
    for hi, v in ((6, 140), (7, 82), (8, 35), (10, 23), (12, 12), (20, 0), (50, 12), (60, 47), (80, 58)):
        if t < hi:
            return v
    return 140


def r_plate(b, h, t, grade, weld, holes, base=1169.0):
    parts = {'material': 7850e-9 * b * h * t * 1e-3 * (base + (0 if grade == 'S235' else 35) + add_on(t)),
             'cutting': default('cutting', t, 2 * (b + h)),
             'painting': default('painting', 2 * b * h + 2 * t * (b + h)),
             'blasting': default('blasting', max(b, h)),
             'drilling': 0.0,
             'welding': default('assembly_welding', weld, 2 * (b + h)) if weld else 0.0,
             'holes': default('cutting', t, sum(holes) * math.pi) if holes else 0.0}
    return parts


@CHECK.clause('plates', st.fixed_dictionaries({
    'g': st.sampled_from(['S235', 'S275', 'S355', 'S420']),
    'b': st.integers(40, 600), 'h': st.integers(40, 900), 't': PLATE_T,
    'hole': st.one_of(st.none(), st.fixed_dictionaries({
        'd0': st.sampled_from([13, 18, 22, 26, 33]), 'n1': st.integers(1, 5), 'n2': st.integers(1, 2)})),
    'ops': st.lists(st.one_of(
        st.tuples(st.just('dim'), st.sampled_from(['b', 'h']), st.integers(40, 900)),
        st.tuples(st.just('dim'), st.just('t'), PLATE_T),
        st.tuples(st.just('weld'), st.sampled_from([0.0, 3.0, 4.0, 7.5])),
        st.tuples(st.just('holes'), st.lists(st.sampled_from([13, 18, 26, 33]), max_size=6)),
        st.tuples(st.just('price'), st.sampled_from([900.0, 1169.0, 2000.0]))).map(list), max_size=5)}),
    quick=3000, thorough=50000,
    rule='plates with and without holes, modified and priced again')
def plates(k):
    from metku.structures.steel.plates import RectPlate, RectPlateWithHoles
    w = workshop()
    s = {'b': k['b'], 'h': k['h'], 't': k['t']}
    weld, holes, base = 0.0, [], 1169.0
    q = k['hole']
    if q:
        x0 = [0.2 * s['b'], 0.1 * s['h']]
        P = RectPlateWithHoles(s['b'], s['h'], s['t'], q['d0'], x0, 70, 60, q['n1'], q['n2'], k['g'])
        holes = [q['d0']] * (q['n1'] * q['n2'])
        need(P.n == len(holes), 'number of holes')
        for got, want in ((P.eLeft(), x0[0]), (P.eRight(), s['b'] - x0[0] - (q['n2'] - 1) * 70),
                          (P.eTop(), s['h'] - x0[1] - (q['n1'] - 1) * 60)):
            check_close(got, want, 'edge distance', 1e-9, 1e-9)
    else:
        P = RectPlate(s['b'], s['h'], s['t'], k['g'])

    def verify(i):
        b, h, t = s['b'], s['h'], s['t']
        for name, want in (('area', b * h), ('end_area', b * t), ('side_area', h * t), ('volume', b * h * t),
                           ('circumference', 2 * (b + h)), ('paint_area', 2 * (b * h + b * t + h * t)),
                           ('weight', 7850e-9 * b * h * t)):
            check_close(getattr(P, name)(), want, name, 1e-9)
        total = P.cost(w, base)
        ref = r_plate(b, h, t, k['g'], weld, holes, base)
        for n, v in ref.items():
            check_close(P._cost[n], v, f'step {i}: {n} cost of the plate', 1e-9, 1e-9)
        check_close(total, sum(ref.values()), f'step {i}: cost of the plate', 1e-9)

    verify(0)
    for i, op in enumerate(k['ops'], 1):
        if op[0] == 'dim':
            s[op[1]] = op[2]
            setattr(P, op[1], op[2])
        elif op[0] == 'weld':
            weld = op[1]
            P.weld_size = weld
        elif op[0] == 'price':
            base = op[1]
        elif not q:
            holes = op[1]
            P.holes = list(holes)
        verify(i)
    return bool(k['ops']) or bool(q)


# ---------------------------------------------------------------- connections
@CHECK.clause('connections', st.fixed_dictionaries({
    'type': st.sampled_from(['fin', 'end']), 'beam': st.sampled_from(['IPE 240', 'IPE 300', 'HE 300 A', 'IPE 500']),
    'col': st.sampled_from(['HE 200 A', 'HE 300 B']), 'gp': st.sampled_from(['S235', 'S355']),
    't': st.sampled_from([8.0, 10.0, 15.0, 20.0]), 'bolt': st.sampled_from(sorted(BOLT)).map(list),
    'c': st.sampled_from([8.8, 10.9]), 'n1': st.integers(2, 4), 'n2': st.integers(1, 2),
    'w': st.lists(st.sampled_from([3.0, 4.0, 5.0, 8.0]), min_size=3, max_size=3),
    'stiff': st.lists(st.sampled_from(['col_top_flange', 'col_bottom_flange', 'col_web_plate']), unique=True, max_size=3),
    'drop': st.booleans(), 'price': st.sampled_from([1169.0, 1500.0]),
    'before': st.lists(job(), max_size=3)}), quick=2000, thorough=40000,
    rule='fin plates and end plates in a workshop that priced other jobs before; bolts, nuts, washers, holes, welds, plates')
def connections(k):
    from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as en
    from metku.sections.steel.catalogue import make_section
    from metku.structures.steel.end_plate_joint import EndPlateJoint
    from metku.structures.steel.fin_plate_joint import FinPlateJoint
    from metku.structures.steel.plates import RectPlateWithHoles
    w = workshop()
    w.steel_price = {'plates': k['price']}
    for n, _, a in k['before']:
        call(w.cost_centres[n], n, a)
    beam, col = make_section(k['beam'], 'S355'), make_section(k['col'], 'S355')
    d, blen = k['bolt']
    d0 = d + (1 if d < 16 else 2 if d < 27 else 3)
    bolt = en.Bolt(d, k['c'], blen)
    need(bolt.length == BOLT[d, blen][0], f'M{d}: stocked length {bolt.length}')
    p_bolt = BOLT[d, blen][1]
    g, t = k['gp'], k['t']
    weld = lambda a, L: default('assembly_welding', a, L)
    if k['type'] == 'fin':
        n = k['n1'] * k['n2']
        hp, bp = 2 * d0 + (k['n1'] - 1) * 3 * d0 + 20, 60 + k['n2'] * 3 * d0
        P = RectPlateWithHoles(bp, hp, t, 13, [2 * d0, 1.5 * d0], 3 * d0, 3 * d0, k['n1'], k['n2'], g)
        J = FinPlateJoint(beam, P, bolt, 10)
        J.weld_size = k['w'][0]
        got = J.cost(w)
        ref = {'plate': sum(r_plate(bp, hp, t, g, 0, [d0] * n, k['price']).values()),
               'bolts': n * (p_bolt + NUT[d] + WASHER[d]),
               'beam holes': default('cutting', beam.tw, n * d0 * math.pi),
               'welding': weld(k['w'][0], 2 * hp)}
    else:
        nr = k['n1']
        rows = [{'flange': en.INNER_ROW, 'plate': en.OTHER_INNER_ROW}] * nr
        z = [beam.h / 2 - 60 - 40 * i for i in range(nr)]
        bp = beam.b + 20
        J = EndPlateJoint(col, beam, tp=t, bp=bp, mat_p=g, etop=20, ebottom=15, bolt=bolt, y_bolts=z, e_bolts=40,
                          bolt_row_pos=rows, row_types=[en.TENSION_ROW] * nr)
        J.weld_f, J.weld_w = k['w'][:2]
        ref = {}
        for s in k['stiff']:
            J.add_stiffener(s, t=t)
            pl = J.stiffeners[s]
            ref[s] = sum(r_plate(pl.b, pl.h, t, 'S355', pl.weld_size, [], k['price']).values())
        if k['drop'] and k['stiff']:
            J.cost(w)
            J.stiffeners[k['stiff'][0]] = None
            ref[k['stiff'][0]] = 0.0
        got = J.cost(w)
        perimeter = 2 * (2 * (beam.b + beam.tf) - 2 * beam.r - beam.tw + math.pi * beam.r)
        ref.update({'plate': sum(r_plate(bp, beam.h + 35, t, g, 0, [], k['price']).values()),
                    'bolts': nr * (2 * p_bolt + 2 * NUT[d] + 4 * WASHER[d]),
                    'holes': default('cutting', t, nr * 2 * d0 * math.pi),
                    'welding': weld(k['w'][0], perimeter) + weld(k['w'][1], 2 * (beam.h - 2 * beam.tf - 2 * beam.r))})
    for n, v in ref.items():
        check_close(J._cost[n], v, f'{k["type"]} plate: {n}', 1e-9, 1e-9)
    check_close(got, sum(ref.values()), f'{k["type"]} plate: total', 1e-9)
    check_close(J.cost(), got, f'{k["type"]} plate: priced again', 1e-12)
    return True


# ---------------------------------------------------------------- trusses
SHS = [(60, 4), (80, 5), (100, 6), (120, 6), (140, 8), (200, 8), (150, 12.5)]


@CHECK.clause('trusses', st.fixed_dictionaries({
    'topo': st.sampled_from(['K', 'N', 'KT']), 'L': st.integers(16, 60), 'h': st.integers(3, 16),
    'slope': st.sampled_from([0, 2.5, 5, 10]), 'n': st.integers(2, 4), 'up': st.booleans(), 'ev': st.booleans(),
    'prof': st.lists(st.integers(0, 6), min_size=3, max_size=3), 'fy': st.sampled_from([355, 355, 420]),
    'paint': st.sampled_from(sorted(PAINT)), 'before': st.lists(job(), max_size=3),
    'ops': st.lists(st.one_of(
        st.tuples(st.just('move'), st.integers(0, 40), st.sampled_from(['x', 'y']), st.integers(-10, 10)),
        st.tuples(st.just('section'), st.integers(0, 60), st.integers(0, 6)),
        st.tuples(st.just('unit'), st.sampled_from([0.8, 1.5, 2.0]))).map(list), max_size=4)}),
    quick=500, thorough=12000,
    rule='roof trusses of square tubes: material, blasting, painting, sawing and welding; moved nodes and new profiles')
def trusses(k):
    from metku.raami.raami_plane_truss import SlopedTruss
    from metku.sections.steel.RHS import SHS as Tube
    from metku.cost.workshop import PaintingCost
    w = workshop()
    w.cost_centres['painting'] = PaintingCost(paint=k['paint'])
    for n, _, a in k['before']:
        call(w.cost_centres[n], n, a)
    L = k['L'] * 250.0
    T = SlopedTruss(L1=L, L2=L, dx1=0, dx2=0, h1=k['h'] * 0.02 * L, slope=k['slope'])
    T.workshop = w
    mk = lambda i: Tube(*SHS[i], fy=k['fy'])
    T.generate_topology(k['topo'], k['n'], first_diagonal_up=k['up'], edge_verticals=k['ev'],
                        top_chord_profile=mk(k['prof'][0]), bottom_chord_profile=mk(k['prof'][1]),
                        brace_profile=mk(k['prof'][2]))
    mems = list(T.members.values())
    nodes = list(T.nodes)
    sizes = {}
    for m in mems:
        sizes[id(m)] = SHS[k['prof'][0 if m in T.top_chord else 1 if m in T.bottom_chord else 2]]
    unit = 1.0
    full = {355: 2 * .9 / math.sqrt(2) * 1.25 * 355 / 490, 420: 2 * 1.0 / math.sqrt(2) * 1.25 * 420 / 500}[k['fy']]

    def dims(m):
        H, t = sizes[id(m)]
        R = 2 * t if t <= 6 else 2.5 * t if t <= 10 else 3 * t
        P = 4 * H - 8 * R + 2 * math.pi * R
        A = 4 * t * (H - t) - (4 - math.pi) * (R ** 2 - (R - t) ** 2)
        return H, t, R, P, A

    def vec(m):
        a, b = m.nodes
        return b.x - a.x, b.y - a.y

    def verify(i):
        tot = T.cost()
        cost = dict.fromkeys(['material', 'blasting', 'painting', 'sawing', 'welding'], 0.0)
        pc = Centre(*DEF['painting'])
        W = 0.0
        for m in mems:
            H, t, R, P, A = dims(m)
            Lm = math.hypot(*vec(m))
            W += A * Lm * 7850e-9
            part = {'material': A * Lm * 7850e-9 * unit, 'blasting': default('blasting', Lm),
                    'painting': r_painting(pc, {'paint': k['paint']}, P * Lm)}
            if m in T.braces.values():
                part['sawing'] = default('sawing', Lm, 0, [H] * 2, [t] * 2, [2 * H * t] * 2, [A] * 2)
            for n, v in part.items():
                check_close(m.costs[n], v, f'step {i}: {n} of member {m.mem_id}', 1e-6)
                cost[n] += v
        for j in T.joints.values():
            c = 0.0
            cx, cy = vec(j.chords[0])
            for br in j.braces:
                H, t, R, P, A = dims(br)
                bx, by = vec(br)
                s = abs(cx * by - cy * bx) / math.hypot(cx, cy) / math.hypot(bx, by)
                if s < 1e-3:
                    raise Skip
                c += default('assembly_welding', full * t, P + 2 * H * (1 / s - 1))
            check_close(j.costs['welding'], c, f'step {i}: welds of joint {j.node.node_id}', 1e-6, 1e-9)
            cost['welding'] += c
        for n, v in cost.items():
            check_close(T.costs[n], v, f'step {i}: {n} cost of the truss', 1e-6, 1e-9)
        check_close(tot, sum(cost.values()), f'step {i}: cost of the truss', 1e-6)
        check_close(T.weight(), W, f'step {i}: weight', 1e-6)
        check_close(sum(T.weight_detailed()), W, f'step {i}: weight of the parts', 1e-6)

    verify(0)
    for i, op in enumerate(k['ops'], 1):
        if op[0] == 'move':
            nd = nodes[op[1] % len(nodes)]
            setattr(nd, op[2], getattr(nd, op[2]) + op[3] * 1e-3 * L)
        elif op[0] == 'section':
            m = mems[op[1] % len(mems)]
            m.cross_section = mk(op[2])
            sizes[id(m)] = SHS[op[2]]
            m.cross_section.unit_cost = unit
        else:
            unit = op[1]
            for m in mems:
                m.cross_section.unit_cost = unit
        verify(i)
    return True
