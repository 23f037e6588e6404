#!/usr/bin/env python3
"""Runs the check of one property: build, seeded search, evidence."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import build

# property -> (binary, quick runs, quick seconds)
CHECKS = {
    'C01': ('verif', 8000, 90), 'C02': ('verif', 12000, 90), 'C03': ('verif', 16000, 90),
    'C04': ('verif', 16000, 90), 'C05': ('verif', 16000, 90), 'C06': ('verif', 16000, 90),
    'C07': ('verif', 16000, 90), 'C08': ('timetruth', 60000, 60),
    'C09': ('verif', 6000, 90), 'C10': ('verif', 16000, 90), 'C11': ('verif', 10000, 90), 'C12': ('verif', 16000, 90),
    'C13': ('verif', 14000, 50), 'C14': ('verif', 14000, 50), 'C15': ('verif', 28000, 50),
    'C16': ('verif', 17000, 50), 'C17': ('verif', 14000, 50), 'C18': ('verif', 28000, 50),
    'C19': ('verif', 28000, 50), 'C20': ('verif', 28000, 50),
    'C21': ('verif', 28000, 50), 'C22': ('verif', 28000, 50), 'C23': ('verif', 28000, 50),
    'C26': ('prog', 28000, 50),
}
VARIANTS = {'C22': 'msan'}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    binary, runs, secs = CHECKS[prop]
    var = VARIANTS.get(prop, 'pattern')
    if build.build(os.environ.get('VERIF_REPO', '/repo'), var, [binary], quiet=True):
        print('could not build the simulator from /repo', file=sys.stderr)
        return 3
    if tier == 'thorough':
        runs, secs = 100000000, int(os.environ.get('VERIF_SECONDS', '780'))
    os.makedirs(f'{V}/evidence', exist_ok=True)
    cmd = [f'{V}/build/{var}/{binary}', '--check', prop, '--tier', tier, '--seed', seed,
           '--runs', str(runs), '--limit', str(secs), '--workers', str(os.cpu_count() or 4),
           '--out', f'{V}/build/replays', '--known', f'{V}/known-findings.txt',
           '--evidence', f'{V}/evidence/{prop}.json']
    os.makedirs(f'{V}/build/replays', exist_ok=True)
    return subprocess.call(cmd)


if __name__ == '__main__':
    sys.exit(main())
