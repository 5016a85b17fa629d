#!/usr/bin/env python3
"""Write MANIFEST.json: one check for each property the harness has targets for."""
import json, os, re, glob

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    'C31': 'property-based testing with scripted operating-system faults, forks and threads',
    'C32': 'coverage-guided fuzzing and structured generation under address and undefined-behaviour sanitizers',
    'C33': 'property-based testing under valgrind with secret bytes marked undefined',
    'C34': 'differential property-based testing of three builds by transcript comparison',
    'C36': 'property-based testing of concurrent call programs against the same calls run alone, also under ThreadSanitizer',
    'C37': 'metamorphic property-based testing (same and changed entropy) with statistics over series of draws',
    'C35': 'metamorphic property-based testing (same call, different blinding and context histories)',
}
DEFAULT = 'property-based testing against an independent reference implementation'
NOTE = {
    'C31': 'Holds for every generated script of faults, fork point and thread mix. Trusts the stand-ins that replace the '
           'entropy system calls at link time; the hardware generator path is only observed, not faulted.',
    'C32': 'No sanitizer report, abort or overrun on any generated or mutated input. Trusts ASan/UBSan and guard bytes; '
           'uninitialised reads are seen through valgrind or output comparison only.',
    'C33': 'No secret-dependent branch or address reported by memcheck on the executed paths of the native and portable '
           'builds. Trusts memcheck definedness tracking; timing of individual instructions is out of scope.',
    'C34': 'Byte-identical transcripts of the native, 128-bit and portable builds on every generated call.',
    'C36': 'Schedules are those the scheduler and ThreadSanitizer produce, not enumerated; a race is judged from the accesses made, so it need not hit.',
    'C37': 'Every tried bit of entropy matters and every free bit varies over each series of draws; finer bias than a doubled or halved frequency is not noticed.',
    'C35': 'Same results on every generated history of blinding and reuse.',
}
DEFNOTE = ('Held on every generated case in three builds (assembly, portable, sanitizers); generation is biased to '
           'boundary values and seeded by VERIF_SEED. Trusts the reference implementation, itself independent of the '
           'code under test. Not exhaustive.')

def main():
    have = set()
    for f in glob.glob(os.path.join(HERE, 'props', '*.cpp')):
        have |= set(re.findall(r'PBT_PROP\((C\d\d)', open(f).read()))
    checks, missing = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)['id']
        if p not in have:
            missing.append({'property': p, 'reason': 'No check yet: its harness has not been written.'})
            continue
        checks.append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p,
                       'thorough_cmd': 'python3 run.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': TECH.get(p, DEFAULT),
                       'level': 'exploration',
                       'level_note': NOTE.get(p, DEFNOTE)})
    m = {'version': 1, 'setup_cmd': 'python3 build.py', 'checks': checks, 'not_applicable': missing,
         'notes': 'No hooks in /repo: checks compile its sources unchanged with their own build (build.py). '
                  'Replay a reported case with: python3 run.py --replay <path>.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=2)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')

if __name__ == '__main__':
    main()
