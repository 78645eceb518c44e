"""R02: optimum design of members and groups picks the first profile that carries the forces."""
import contextlib
import copy
import io

from hypothesis import strategies as st

from checks.R01 import SECS, Frame, frames, load
from lib.harness import Check, Skip, need

CHECK = Check('R02', 'at least two members or load cases and a profile that is not among the first ones',
              ['plane frames of steel members', 'profile lists of the catalogue'])


# ------------------------------------------------------------ optimum design
def verdict(sec, mems, forces, lids, opts):
    """First reason why a section does not do, or None."""
    import numpy as np
    from metku.structures.steel.steel_member import SteelMember
    sec.Ned = -1
    b = sec.D if type(sec).__name__ == 'CHS' else sec.b
    if b < opts['bmin'] or b > opts['bmax']:
        return 'width'
    if sec.section_class() > opts['sec_class']:
        return 'class'
    for q, (m, L) in enumerate(zip(mems, forces[0])):
        S = SteelMember(sec, L, Lcr=list(m['lcr'] or [1, 1]), mtype=m['type'])
        if q and opts['pair']:      # a symmetry pair is as long as the member itself
            continue
        if np.any(np.asarray(S.slenderness()) > opts['max_slenderness']):
            return 'slenderness'
    for lid in lids:
        for m, L, f in zip(mems, forces[0], forces[1]):
            S = SteelMember(sec, L, Lcr=list(m['lcr'] or [1, 1]), mtype=m['type'])
            for q in range(m['nel'] + 1):
                S.add_section(loc=q / m['nel'], ned=f[lid]['N'][q], vzed=f[lid]['Vz'][q], myed=f[lid]['My'][q])
            if S.design(sway=False) > opts['max_utility']:
                return 'utilisation'
    return None


@CHECK.clause('optimum', st.fixed_dictionaries({
    'fr': frames(max_nodes=4, bars=False), 'loads': st.lists(load(), min_size=1, max_size=4),
    'type': st.sampled_from(['CURRENT', 'SHS', 'HEA', 'IPE', 'HEB', 'CHS', 'shs']), 'group': st.booleans(),
    'max_utility': st.sampled_from([1.0, 1.0, 0.6, 1.4]), 'max_slenderness': st.sampled_from([5.0, 2.0, 1.0]),
    'bmin': st.sampled_from([10, 100]), 'bmax': st.sampled_from([1e5, 220]), 'sec_class': st.sampled_from([3, 2, 1]),
    'scale': st.sampled_from([0.1, 0.3, 1.0]), 'pair': st.booleans()}), quick=700, thorough=20000,
    rule='the chosen profile is the first of the list that carries the forces of all load cases')
def optimum(k):
    from metku.raami.frame_member import MemberGroup
    from metku.sections.steel import catalogue as cat
    for m in k['fr']['mem']:
        m['lcr'] = None
    F = Frame(k)
    for l in k['loads']:
        F.add_load(dict(l, v=[a * k['scale'] for a in l['v']]))
    F.F.generate_fem()
    F.analyse('REM')
    M = F.M
    if k['group']:
        mems = F.mem
        obj = MemberGroup(list(M[:1]), 'g')
        for x in M[1:]:
            obj.add_member(x)
        other = MemberGroup()
        other.add_member(M[0])
        need(MemberGroup().members == [], 'members of another group')
        first = M[0].cross_section
    else:
        mems, obj, first = F.mem[:1], M[0], M[0].cross_section
        if k['pair'] and len(M) > 1:
            M[0].symmetry_pair, M[1].symmetry_pair = M[1], M[0]
            mems = F.mem[:2]
    sel = M[:len(mems)]
    forces = ([x.length() for x in sel], [copy.deepcopy(x.nodal_forces) for x in sel])
    opts = {q: k[q] for q in ('max_utility', 'max_slenderness', 'bmin', 'bmax', 'sec_class')}
    fam = k['type'].upper()
    if fam == 'CURRENT':
        fam = type(first).__name__
        if fam == 'RHS':
            raise Skip('long list')
    names = {'SHS': cat.shs_profiles, 'HEA': cat.hea_profiles, 'HEB': cat.heb_profiles, 'IPE': cat.ipe_profiles,
             'CHS': cat.chs_profiles}[fam]
    given = opts
    opts = dict(opts, pair=k['pair'] and not k['group'])
    obj.optimum_design(prof_type=k['type'], verb=False, material='S355', **given)
    got = sel[0].cross_section
    why = None
    for i, name in enumerate(names):
        s = cat.make_section(name)
        s.material = 'S355'
        why = verdict(s, mems, forces, list(F.F.load_cases), opts)
        if why is None:
            break
    if why is not None:
        return False
    need(repr(got) == repr(s), lambda: f'{got} chosen, the first profile that does is {s}')
    for x in sel:
        need(x.cross_section is got and x.member.profile is got, 'cross-section of another member')
        need(all(e.section is got for e in x.fem_elements), 'cross-section of the elements')
    for x in sel:
        for lid, u in x.utilization.items():
            need(u <= opts['max_utility'], 'utilisation')
    return i > 2 and len(F.F.load_cases) > 1


@CHECK.clause('optimize', st.fixed_dictionaries({
    'fr': frames(max_nodes=4, bars=False), 'loads': st.lists(load(), min_size=1, max_size=3),
    'type': st.sampled_from(['CURRENT', 'SHS', 'HEA', 'IPE']), 'group': st.sampled_from([0, 0, 2, 9]),
    'scale': st.sampled_from([0.1, 0.3])}), quick=200, thorough=4000,
    rule='after optimize_members has settled all members carry the forces of the final frame')
def optimize(k):
    from metku.raami.frame_member import MemberGroup
    for m in k['fr']['mem']:
        m['lcr'] = None
        m['nel'] = min(m['nel'], 2)
        if k['type'] == 'CURRENT' and SECS[m['sec']][0] == 'RHS':
            m['sec'] = 3
    F = Frame(k)
    for l in k['loads']:
        F.add_load(dict(l, v=[a * k['scale'] for a in l['v']]))
    F.F.generate_fem()
    M = F.M
    if k['group']:
        F.F.member_groups['g'] = MemberGroup(list(M[:k['group']]), 'g')
    # the same frame, designed by repeated analyses until nothing changes
    G = Frame(k)
    for l in k['loads']:
        G.add_load(dict(l, v=[a * k['scale'] for a in l['v']]))
    G.F.generate_fem()
    parts = list(G.M)
    if k['group']:
        parts = [MemberGroup(list(G.M[:k['group']]), 'g')] + parts[k['group']:]
    settled = None
    for i in range(5):
        G.analyse('REM')
        before = [repr(x.cross_section) for x in G.M]
        for x in parts:
            x.optimum_design(k['type'], False)
        settled = [repr(x.cross_section) for x in G.M]
        if settled == before:
            break
    else:
        settled = None
    out = []
    for _ in range(3):
        F.F.optimize_members(k['type'])
        out.append([repr(x.cross_section) for x in M])
        need(settled is None or out[0] == settled, lambda: f'optimisation ends at {out[0]}, design by repeated analyses at {settled}')
        if len(out) > 1 and out[-1] == out[-2]:
            break
    else:
        raise Skip('does not settle')
    u1 = [dict(x.utilization) for x in M]
    F.analyse('REM')
    for x, u in zip(M, u1):
        for lid, r in x.utilization.items():
            need(r <= 1 + 1e-6, lambda: f'utilisation {r} of {x} after optimisation') if r < 5 else None
    if k['group']:
        need(len({id(x.cross_section) for x in M[:k['group']]}) == 1, 'sections of a group differ')
    return len(M) > 1


# ------------------------------------------------------------------ trusses
@st.composite
def truss_cases(draw):
    from checks import T02, T03
    kind = draw(st.integers(0, 3))
    portal = kind == 0
    k = draw(T03.cases() if portal else T02.cases() if kind < 3 else T02.vierendeels())
    k['ops'], k['pre'] = [], k.get('pre', [])
    k['nel'] = [min(k['nel'][0], 2), min(k['nel'][1], 2)]
    if kind == 3:
        k['joints'] = True
    k['loads'] = [l if l.get('kind') != 'pw' else {'kind': 'uni', 'chord': 'top', 'lid': l['lid'], 'q': l['q'][0] or -5.0}
                  for l in k['loads'] if l['lid'] < 2]
    opts = {}
    for g in ['top', 'bottom', 'braces'] + ['columns'] * portal:
        if draw(st.booleans()):
            u = draw(st.sampled_from([1.0, 0.8, 0.6]))
            opts[g] = {'material': draw(st.sampled_from(['S355', 'S420', 'S235'])), 'class': draw(st.sampled_from([2, 2, 3])),
                       'bmin': 10, 'bmax': 1e5}
            opts[g].update({'utility_tens': u, 'utility_comp': draw(st.sampled_from([1.0, 0.7]))} if g == 'braces' else {'utility': u})
    if portal:
        for g in opts:
            opts[g]['bmin'] = draw(st.sampled_from([10, 10, 100, 140])) if g != 'braces' else 10
    return {'portal': portal, 'vier': kind == 3, 'k': k, 'opts': opts, 'width': draw(st.booleans())}


@CHECK.clause('trusses', truss_cases(), quick=96, thorough=1500, shards=8,
              rule='profiles of trusses after optimize_members: grades, groups, pairs, utilisation, no earlier profile of the list would do')
def trusses(c):
    from checks import T02, T03
    k, opts = c['k'], c['opts']
    with contextlib.redirect_stdout(io.StringIO()):
        if c['portal']:
            k = dict(k, col=k['col'] % 2)       # square tubes
            P = T03.Portal(k)
            F, T = P.p, P.T
            P.analyse()

            def again():
                P.done = False
                P.analyse()
        else:
            P = T02.Vierendeel(k) if c['vier'] else T02.Truss(k)
            F = T = P.T
            if not c['vier']:
                T.symmetry()
            for op in k['pre']:
                P.apply(op)
            P.analyse(True)

            def again():
                P.done = False
                P.analyse(True)
        groups = {'top': T.top_chord, 'bottom': T.bottom_chord, 'columns': F.columns if c['portal'] else []}
        full = {g: dict({'material': 'S355', 'class': 2, 'utility': 1.0, 'utility_tens': 1.0, 'utility_comp': 1.0}, **opts.get(g, {}))
                for g in ('top', 'bottom', 'braces', 'columns')}

        def sections():
            return [repr(m.cross_section) for m in F.members.values()]
        calls = []
        analysis = F.structural_analysis
        F.structural_analysis = lambda *a, **q: (calls.append(0), analysis(*a, **q))
        F.optimize_members(prof_type='SHS', limit_width=c['width'], **opts)
        rounds = len(calls)
        out = sections()
        calls.clear()
        F.optimize_members(prof_type='SHS', limit_width=c['width'], **opts)
        del F.structural_analysis
        if sections() != out or len(calls) > 1:
            need(rounds >= 9, lambda: f'optimisation stops after {rounds} analyses, but goes on when it is called again')
            raise Skip('does not settle')
        again()
    lids = list(F.load_cases)
    names = list(catalogue('SHS'))
    last = make('SHS', len(names) - 1)
    units = []
    for g, mems in groups.items():
        if mems:
            need(len({repr(m.cross_section) for m in mems}) == 1, lambda: f'sections of the {g} members differ')
            units.append((g, list(mems)))
    done = set()
    for m in T.braces.values():
        if id(m) in done:
            continue
        pair = [m] + ([m.symmetry_pair] if m.symmetry_pair is not None else [])
        done |= {id(x) for x in pair}
        need(len({repr(x.cross_section) for x in pair}) == 1, 'sections of a pair differ')
        units.append(('braces', pair))
    some = False
    wide = max(m.cross_section.b for m in T.braces.values()) if c['width'] else 10
    for g, mems in units:
        o = full[g]
        bmin, bmax = max(o.get('bmin', 10), wide if g in ('top', 'bottom') else 10), 1e5
        if c['vier'] and c['width'] and g == 'braces':      # T joints: width ratios between 0.25 and 1
            b0 = [T.top_chord[0].cross_section.b, T.bottom_chord[0].cross_section.b]
            bmin, bmax = 0.25 * max(b0), min(b0)
        lead = mems[0]
        sec = lead.cross_section
        lim = o['utility'] if g != 'braces' else \
            o['utility_tens'] if list(lead.NEd.values())[0] >= 0 else o['utility_comp']
        need(sec.material.name == o['material'], lambda: f'{g}: steel {sec.material.name}, {o["material"]} asked for')
        if repr(sec) == repr(last):
            continue                       # nothing carries the forces
        for m in mems:
            for part in getattr(m, 'members', [m]):
                for lid in lids:
                    part.design(lid)
                    u = part.utilization[lid]
                    need(u <= lim * (1 + 1e-4), lambda: f'{g}: utilisation {u} after optimisation, the limit is {lim}')
        need(sec.section_class() <= o['class'], lambda: f'{g}: cross-section class')
        need(bmin - 1e-9 <= sec.b <= bmax + 1e-9, lambda: f'{g}: width {sec.b}, asked for {bmin} to {bmax}')
        some = True
        # the profile before it in the list does not do
        i = [repr(make('SHS', q)) for q in range(len(names))].index(repr(sec))
        if i:
            new = make('SHS', i - 1)
            for m in mems:
                m.cross_section = new
                m.cross_section.material = o['material']
            new.Ned = -1
            bad = new.section_class() > o['class'] or not bmin <= new.b <= bmax
            for m in mems:
                for part in getattr(m, 'members', [m]):
                    bad = bad or any(part.member.slenderness() > 5.0)
                    for lid in lids:
                        part.design(lid)
                        bad = bad or part.utilization[lid] > lim * (1 - 1e-4)
            need(bad, lambda: f'{g}: {sec} chosen although {new} before it in the list carries the forces')
            for m in mems:
                m.cross_section = sec
    return some and len(units) > 4


def catalogue(fam):
    from metku.sections.steel import catalogue as cat
    return {'SHS': cat.shs_profiles}[fam]




def make(fam, i):
    from metku.sections.steel import catalogue as cat
    return cat.make_section(list(catalogue(fam))[i])
