"""F02: analysis results depend only on the current model (histories)."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks.F01 import compare
from lib import genframe, refframe
from lib.harness import Check, Skip, check_vec, need

CHECK = Check('F02', 'at least one analysis with a non-zero response was made '
              'after a modification of an already analysed model')

CASES = [2, 3, 4]
OPS = ['solve', 'solve', 'solve', 'joint', 'load', 'unload', 'scale', 'value', 'section',
       'release', 'joint', 'move', 'member', 'case', 'support', 'unsupport']


@st.composite
def history(draw, exact=True):
    m = draw(genframe.frame(max_nodes=5, cases=3))
    # a second support set, used by load case 4
    n = len(m['nodes'])
    two = draw(st.booleans())
    if two:
        node = draw(st.integers(0, n - 1))
        m['supports'].append({'sid': 2, 'node': node, 'dofs': [0, 1, 2]})
    ops = []
    for k in range(draw(st.integers(3, 10))):
        # first an analysis, then modifications and analyses in any order
        o = 'solve' if k == 0 else draw(st.sampled_from(OPS))
        op = {'op': o, 'i': draw(st.integers(0, 50))}
        if o == 'solve':
            op['cases'] = draw(st.sampled_from(
                [[2], [3], [4], [2, 3], [3, 2], [2, 3, 4]]))
            op['method'] = draw(st.sampled_from(['REM', 'REM', 'ZERO']))
            op['aslist'] = draw(st.booleans())
        elif o == 'load':
            op['load'] = draw(genframe.load_list(
                m['nodes'], m['elems'], 3, min_size=1, max_size=1))[0]
        elif o == 'scale':
            op['f'] = draw(st.sampled_from([0.0, 1.5, -1.0, 2.0]))
        elif o == 'value':
            op['v'] = draw(genframe.NZ)
        elif o == 'section':
            op['AI'] = list(draw(st.sampled_from(genframe.SECTIONS)))
        elif o == 'release':
            op['rel'] = draw(st.sampled_from([[], [2], [5], [2, 5], [0]]))
        elif o == 'joint':
            op['r'] = [draw(st.sampled_from([0.05, 1.0, 20.0])),
                       draw(st.sampled_from([0.05, 1.0, 20.0]))]
        elif o == 'move':
            op['d'] = [draw(st.sampled_from([-300, 0, 300])),
                       draw(st.sampled_from([-400, 0, 400]))]
        elif o == 'member':
            op['AI'] = list(draw(st.sampled_from(genframe.SECTIONS)))
            op['d'] = [draw(st.sampled_from([1200, 0, -900])),
                       draw(st.sampled_from([1600, -1200]))]
        elif o == 'support':
            op['dofs'] = draw(st.sampled_from([[0], [1], [0, 1], [0, 1, 2], [2]]))
        ops.append(op)
    ops.append({'op': 'solve', 'cases': [2, 3], 'method': 'REM', 'i': 0,
                'aslist': True})
    return {'model': m, 'ops': ops, 'two': two}


def sid_of(case, two):
    return 2 if (two and case == 4) else 1


def stable(m, sid):
    fr = refframe.Frame2D(m).factor(sid)
    return fr is not None and fr[2] < 1e7


@CHECK.clause('history', history(), quick=700, thorough=40000,
              rule='each analysis equals the reference of the current model')
def hist(case):
    m = copy.deepcopy(case['model'])
    two = case['two']
    if not stable(m, 1) or (two and not stable(m, 2)):
        raise Skip('unstable')
    fem = genframe.build(m)
    loads = list(fem.loads)
    for c in CASES:
        fem.add_loadcase(supp_id=sid_of(c, two), load_id=c)
    fem.nodal_dofs()
    solved = False
    dirty = False
    useful = False
    tol = 5e-6
    for op in case['ops']:
        o = op['op']
        if o == 'solve':
            cs = op['cases']
            if two and 4 in cs and len(cs) > 1:
                cs = [c for c in cs if c != 4]
            if len(cs) == 1 and not op['aslist']:
                fem.linear_statics(lcase=cs[0], support_method=op['method'])
            else:
                fem.linear_statics(lcase=list(cs), support_method=op['method'])
            ref = refframe.Frame2D(m)
            for c in cs:
                u, R = compare(m, fem, ref, c, tol, sid_of(c, two))
                if dirty and np.abs(u).max() > 0:
                    useful = True
            solved = True
            continue
        if o == 'load':
            m['loads'].append(op['load'])
            loads.append(genframe.add_load(fem, op['load']))
        elif o == 'unload' and loads:
            k = op['i'] % len(loads)
            fem.loads.remove(loads.pop(k))
            m['loads'].pop(k)
        elif o == 'scale' and loads:
            k = op['i'] % len(loads)
            loads[k].f = op['f']
            m['loads'][k]['f'] = op['f']
        elif o == 'value' and loads:
            k = op['i'] % len(loads)
            if m['loads'][k]['type'] == 'line':
                v = [op['v'] / 2.0, -op['v'] / 4.0]
                loads[k].qval = list(v)
                m['loads'][k]['q'] = v
            else:
                v = [1000.0 * op['v'], -500.0 * op['v'], 0.0]
                loads[k].v = list(v)
                m['loads'][k]['v'] = v
        elif o == 'section':
            k = op['i'] % len(m['elems'])
            e = m['elems'][k]
            if e['type'] == 'spring':
                continue
            e['A'], e['I'] = op['AI']
            fem.elements[k].section.A = op['AI'][0]
            fem.elements[k].section.I[0] = op['AI'][1]
        elif o in ('release', 'joint', 'move'):
            t = copy.deepcopy(m)
            k = op['i'] % len(m['elems'])
            e = t['elems'][k]
            if o == 'release':
                if e['type'] != 'beam' or e.get('rot'):
                    continue
                e['rel'] = op['rel']
            elif o == 'joint':
                if not e.get('rot'):
                    continue
                k0 = e['E'] * e['I'] / 4000.0
                e['rot'] = [k0 * r for r in op['r']]
            else:
                k = op['i'] % len(m['nodes'])
                x = [t['nodes'][k][0] + op['d'][0], t['nodes'][k][1] + op['d'][1]]
                t['nodes'][k] = x
                if any(abs(x[0] - p[0]) + abs(x[1] - p[1]) < 500
                       for j, p in enumerate(t['nodes']) if j != k):
                    continue
            if not stable(t, 1) or (two and not stable(t, 2)):
                continue
            m = t
            if o == 'release':
                fem.elements[k].releases = list(op['rel'])
            elif o == 'joint':
                if op['i'] % 2:
                    fem.elements[k].rot_stiff = list(e['rot'])
                else:
                    for j in range(2):
                        fem.elements[k].rot_stiff[j] = e['rot'][j]
            else:
                fem.nodes[k].x = x[0]
                fem.nodes[k].y = x[1]
                # moved nodes leave the exact 0.001 grid of lengths
                tol = 1e-3
        elif o == 'member':
            from metku.framefem import framefem as ff
            from metku.framefem.elements import EBBeam
            base = op['i'] % len(m['nodes'])
            x = [m['nodes'][base][0] + op['d'][0],
                 m['nodes'][base][1] + op['d'][1]]
            if any(abs(x[0] - p[0]) + abs(x[1] - p[1]) < 500
                   for p in m['nodes']):
                continue
            t = copy.deepcopy(m)
            t['nodes'].append(x)
            E = t['elems'][0]['E']
            t['elems'].append({'type': 'beam', 'n': [base, len(m['nodes'])],
                               'E': E, 'A': op['AI'][0], 'I': op['AI'][1]})
            if not stable(t, 1) or (two and not stable(t, 2)):
                continue
            m = t
            node = fem.add_node(*x)
            fem.add_element(EBBeam(fem.nodes[base], node,
                                   ff.BeamSection(*op['AI']),
                                   fem.add_material(E, 0.3, 7850e-9)))
            fem.nodal_dofs()
        elif o == 'support':
            # support one more node
            k = op['i'] % len(m['nodes'])
            t = copy.deepcopy(m)
            t['supports'].append({'sid': 1, 'node': k, 'dofs': op['dofs']})
            if not stable(t, 1):
                continue
            m = t
            fem.add_support(1, k, list(op['dofs']))
        elif o == 'unsupport':
            k = op['i'] % len(m['supports'])
            t = copy.deepcopy(m)
            t['supports'].pop(k)
            if not stable(t, 1) or (two and not stable(t, 2)):
                continue
            m = t
            fem.supports.pop(k)
        elif o == 'case':
            c = CASES[op['i'] % 3]
            fem.add_loadcase(supp_id=sid_of(c, two), load_id=c)
        dirty = solved or dirty
    return useful


@CHECK.clause('together', st.fixed_dictionaries({
    'model': genframe.frame(cases=3), 'order': st.permutations(CASES),
    'method': st.sampled_from(['REM', 'ZERO'])}), quick=300, thorough=15000,
    rule='several load cases solved together vs. one at a time vs. their sum')
def together(case):
    m = case['model']
    if not stable(m, 1):
        raise Skip('unstable')

    def fresh(loads=None):
        mm = dict(m, loads=m['loads'] if loads is None else loads)
        f = genframe.build(mm)
        for c in CASES + [9]:
            f.add_loadcase(supp_id=1, load_id=c)
        f.nodal_dofs()
        return f

    def state(f, c):
        u = np.concatenate([np.asarray(n.u[c], dtype=float) for n in f.nodes])
        r = np.array([list(map(float, e.fint[c][k])) for e in f.elements
                      for k in ('fx', 'fz', 'my')]).reshape(-1)
        return u, r
    a = fresh()
    a.linear_statics(lcase=list(case['order']), support_method=case['method'])
    tot_u = tot_r = 0.0
    us = rs = 0.0
    for c in CASES:
        b = fresh()
        b.linear_statics(lcase=c, support_method='REM')
        ua, ra = state(a, c)
        ub, rb = state(b, c)
        su = np.abs(ub).max() + 1e-6
        sr = np.abs(rb).max() + 1.0
        check_vec(ua, ub, f'displacements of case {c}', 0, 1e-7 * su)
        check_vec(ra, rb, f'member forces of case {c}', 0, 1e-7 * sr)
        tot_u, tot_r = tot_u + ub, tot_r + rb
        us, rs = max(us, su), max(rs, sr)
    s = fresh([dict(l, case=9) for l in m['loads']])
    s.linear_statics(lcase=9, support_method=case['method'])
    u9, r9 = state(s, 9)
    check_vec(u9, tot_u, 'superposed displacements', 0, 1e-7 * us)
    check_vec(r9, tot_r, 'superposed member forces', 0, 1e-7 * rs)
    return len({l['case'] for l in m['loads']}) > 1 and rs > 1
