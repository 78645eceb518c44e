"""python runner.py <ID> [--tier quick|thorough] [--replay FILE] [--clause C]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
# the working tree under test goes first: an installed copy must not shadow it
sys.path.insert(0, REPO)
# Hypothesis lives in the tooling environment (same Python); searched last
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from lib import harness  # noqa: E402


def load(prop):
    mod = importlib.import_module('checks.' + prop)
    import metku
    p = os.path.realpath(os.path.dirname(metku.__file__))
    if p != os.path.realpath(os.path.join(REPO, 'metku')):
        raise SystemExit(f'metku imported from {p}, not from {REPO}')
    return mod.CHECK


# the clauses of fast checks are run on more cases: about 25 s on 8 cores
QUICK = {'F01': 3, 'F02': 4, 'F03': 6, 'F04': 6, 'F05': 5, 'S01': 2.5, 'S02': 2,
         'S03': 4, 'S04': 6, 'M01': 1.5, 'E01': 5, 'E02': 5, 'E03': 5, 'L01': 5,
         'O01': 2.5, 'O02': 3, 'O03': 3, 'R01': 2, 'T01': 3, 'T02': 1.5, 'C01': 2.5,
         'P01': 3, 'W01': 2, 'K01': 2.5}


def known_findings(prop):
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        data = json.load(f)
    return [k for k in data['findings']
            if k['property'] == prop and k['status'] == 'known']


def start_coverage():
    """tools/mutate.py: record the executed lines of metku (not of imports)"""
    mon, lines = sys.monitoring, set()
    root = os.path.join(REPO, 'metku')

    def line(code, n):
        if code.co_filename.startswith(root) and code.co_name != '<module>':
            lines.add((code.co_filename, n))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, 'verif')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return lines


COVERED = start_coverage() if os.environ.get('VERIF_COV') else None


def worker(args):
    try:
        return worker_(args)
    finally:
        if COVERED is not None:
            import pickle
            with open(os.path.join(os.environ['VERIF_COV'],
                                   f'{os.getpid()}.pkl'), 'wb') as f:
                pickle.dump(COVERED, f)


def worker_(args):
    prop, cname, n, seed, known, deadline = args
    budget = max(2.0, deadline - time.time())
    try:
        check = load(prop)
        return args, harness.run_shard(check, check.get(cname), n, seed,
                                       set(known), budget), None
    except BaseException:
        return args, None, traceback.format_exc()


def write_replay(prop, clause, failure, tier, seed):
    d = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{clause}.json')
    with open(path, 'w') as f:
        f.write(harness.dumps({
            'property': prop, 'clause': clause, 'tier': tier, 'seed': seed,
            'what': failure['msg'], 'case': failure['case'],
            'rerun': f'bash /verif/run.sh {prop} --replay {path}'}, indent=1))
        f.write('\n')
    return path


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    check = load(prop)
    status, info = harness.execute(check, check.get(r['clause']), r['case'])
    print(f'{prop}/{r["clause"]}: {status} {info if info else ""}')
    if status == 'fail':
        known = {k['id'] for k in known_findings(prop)}
        if info[1] in known:
            print(f'KNOWN-FINDING: property={prop} {info[1]}')
            return 0
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--clause', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        return replay(a.prop, a.replay)
    check = load(a.prop)
    known = known_findings(a.prop)
    kids = [k['id'] for k in known]
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    clauses = [c for c in check.clauses
               if not a.clause or c.name in a.clause]

    violations = []
    # listed findings are demonstrated on their recorded case
    for k in known:
        if a.clause and k['clause'] not in a.clause:
            continue
        status, info = harness.execute(check, check.get(k['clause']), k['case'])
        if status == 'fail' and info[1] == k['id']:
            print(f'KNOWN-FINDING: property={a.prop} {k["id"]} {k["what"]}')
        elif status == 'fail':
            violations.append((k['clause'], {'case': k['case'], 'msg': info[0]}))

    tasks = []
    for i, c in enumerate(clauses):
        n = max(1, int((c.quick * QUICK.get(a.prop, 1) if a.tier == 'quick'
                        else c.thorough) * a.scale))
        shards = c.shards or (min(jobs, max(1, n // 40))
                              if a.tier == 'quick' else jobs)
        shards = min(shards, n)
        for s in range(shards):
            m = n // shards + (1 if s < n % shards else 0)
            tasks.append((a.prop, c.name, m, (a.seed * 1000 + i) * 100 + s,
                          kids, t0 + (400 if a.tier == 'quick' else 720)))
    # interleave the clauses, so that long ones start early
    tasks.sort(key=lambda t: (t[3] % 100, t[1]))
    per = {c.name: None for c in clauses}
    errors = []
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs) as pool:
        for args, st, err in pool.imap_unordered(worker, tasks, 1):
            name = args[1]
            if err:
                errors.append((name, err))
                continue
            agg = per[name]
            if agg is None:
                per[name] = st
                st['hashes'] = set(st['hashes'])
                st['failures'] = [st['failure']] if st['failure'] else []
                continue
            for k in ('evaluations', 'skipped', 'trivial', 'wall'):
                agg[k] += st[k]
            agg['hashes'] |= set(st['hashes'])
            for key in ('known', 'labels'):
                for l, v in st[key].items():
                    agg[key][l] = agg[key].get(l, 0) + v
            agg['truncated'] |= st['truncated']
            agg['samples'] = (agg['samples'] + st['samples'])[:3]
            if st['failure']:
                agg['failures'].append(st['failure'])
    for name, st in per.items():
        if st and st['failures']:
            f = min(st['failures'], key=lambda f: len(harness.dumps(f['case'])))
            violations.append((name, f))

    ev = sum(s['evaluations'] for s in per.values() if s)
    dn = sum(len(s['hashes']) for s in per.values() if s)
    samples = []
    for s in per.values():
        if s:
            samples += s['samples'][:2]
    cov = {
        'evaluations': ev, 'distinct_nontrivial': dn, 'rule': check.rule,
        'samples': samples[:12],
        'clauses': {n: {'evaluations': s['evaluations'],
                        'distinct_nontrivial': len(s['hashes']),
                        'skipped': s['skipped'], 'trivial': s['trivial'],
                        'known_finding_hits': s['known'],
                        'labels': dict(sorted(s['labels'].items())[:40]),
                        'rule': check.get(n).rule or '',
                        'truncated_by_time': s['truncated'],
                        'cpu_s': round(s['wall'], 2)}
                    for n, s in per.items() if s},
    }
    evidence = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration', 'coverage': cov,
        'wall_s': round(time.time() - t0, 2),
        'assumptions': check.assumptions,
        'violations': len(violations),
    }
    if not a.clause and os.environ.get('VERIF_EVIDENCE') != '0':
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f:
            f.write(harness.dumps(evidence, indent=1) + '\n')
    for n, s in per.items():
        if s:
            print(f'  {a.prop}/{n}: {s["evaluations"]} cases, '
                  f'{len(s["hashes"])} distinct non-trivial, '
                  f'{s["skipped"]} skipped, {s["trivial"]} trivial, '
                  f'cpu {s["wall"]:.1f}s'
                  + (f' known {s["known"]}' if s['known'] else '')
                  + (' TRUNCATED' if s['truncated'] else ''))
    for name, f in violations:
        path = write_replay(a.prop, name, f, a.tier, a.seed)
        print(f'  {a.prop}/{name}: {f["msg"][:1200]}')
        print(f'VIOLATION property={a.prop} replay={path}')
    if violations:
        return 1
    if errors:
        for n, e in errors:
            print(f'HARNESS ERROR in {a.prop}/{n}:\n{e}', file=sys.stderr)
        return 3
    dead = [n for n, s in per.items() if s and not s['hashes']]
    if dead and not a.clause:
        print(f'HARNESS ERROR: no non-trivial case in {dead}', file=sys.stderr)
        return 4
    print(f'{a.prop}: held on {ev} cases ({dn} distinct non-trivial), '
          f'{time.time() - t0:.1f} s')
    return 0


if __name__ == '__main__':
    for i, arg in enumerate(sys.argv):
        if arg == '--replay' and i + 1 < len(sys.argv):
            sys.argv[i + 1] = os.path.abspath(sys.argv[i + 1])
    with tempfile.TemporaryDirectory(prefix='metku-verif-') as scratch:
        os.environ['MPLCONFIGDIR'] = scratch
        os.chdir(scratch)
        rc = main()
    sys.stdout.flush()
    sys.exit(rc)
