#!/usr/bin/env python3
"""Rewrite the "fixed" list of known_findings.json from the fix: commits of /repo.

Commits are listed in order; a range starts with the commit named here."""
import json
import pathlib
import subprocess

ROOT = pathlib.Path(__file__).resolve().parent.parent
STARTS = [
    ('16e3a12', 'F01'), ('c16a35e', 'F04'), ('d887a39', 'F03'), ('e7167ca', 'F01'), ('08ce7cb', 'F03'), ('3fcb65d', 'F01'),
    ('78a9ea0', 'F03'), ('2d194a2', 'F01'), ('53fe4d8', 'F03'), ('215be81', 'S01'), ('157796b', 'S02'), ('f856f2d', 'S01'),
    ('bb96708', 'S02'), ('1532949', 'S03'), ('7b12ee0', 'S01'), ('39eb17c', 'S02'), ('d164d04', 'S03'), ('4fcddd3', 'S01'),
    ('c82b643', 'S04'), ('49ac84b', 'S02'), ('ab875a8', 'M01'), ('8dd916c', 'S04'), ('e59f0c2', 'S01'), ('4eb4548', 'S03'),
    ('0a10dd9', 'S02'), ('c6ec7d9', 'M01'), ('6d966f6', 'S02'), ('aefcdcd', 'S01'), ('083d4a3', 'S02'), ('4c0b97d', 'S01'),
    ('a1e9982', 'S03'), ('ba4a65b', 'M01'), ('07c0c96', 'E01'), ('5bff971', 'E02'), ('7598e29', 'E03'), ('1e83b50', 'L01'),
    ('38eee22', 'O01'), ('8c59b00', 'O02'), ('cb74ee7', 'R01'), ('c81501e', 'T02'), ('cab5881', 'G01'), ('e4af8cb', 'C01'),
    ('05b4f51', 'P01'), ('aefe804', 'W01')]
# single commits that interrupt a range
ONE = {'dd12bf1': 'S02', '20290c0': 'S01', 'f1d309e': 'O02', '537d9d9': 'O02', 'ec20a1c': 'O02', '34ca5f5': 'O02', '5d5d4b9': 'O02',
       'd3a0ba5': 'O01', '73d48d3': 'O01', '70ae9f8': 'E03', 'd60e1d5': 'E03', '8242b4b': 'E03', '6c2e60a': 'E03', 'b69fc67': 'E03',
       '119f993': 'E03', '3105869': 'E03', 'cc0b6c6': 'E03'}


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    starts = dict(STARTS)
    extra = ROOT / 'tools' / 'fixed_extra.json'      # {commit: property} for later commits
    later = json.loads(extra.read_text()) if extra.exists() else {}
    cur, out = None, []
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        h = h[:7]
        cur = starts.get(h, cur)
        out.append(f'fixed: property={later.get(h) or ONE.get(h, cur)} {h} {s[5:]}')
    p = ROOT / 'known_findings.json'
    d = json.loads(p.read_text())
    d['fixed'] = out
    p.write_text(json.dumps(d, indent=1) + '\n')
    print(len(out))


main()
