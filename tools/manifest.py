"""writes MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'P01': 'pure function of its argument: no schedule, clock, fault or history enters; exercised only as'
           ' part of C01, C03, C14 and C17 histories, not decided',
    'P02': 'pure closed-form formulas: nothing for a simulator to schedule or fail',
    'P03': 'pure function of three unit arguments',
    'P04': 'pure function of an angle',
    'P05': 'pure function of a real argument',
    'P06': 'pure predicate over two element vectors',
    'P07': 'pure wrapper around a function call; re-entrancy of wrapped functions is decided under C09',
}
SIM = 'deterministic simulation: '
CHECKS = json.load(open(os.path.join(HERE, 'tools', 'checks.json')))
man = dict(
    version=1,
    setup_cmd='./setup.sh',
    hooks=dict(guard='none', enable='no hooks in /repo: every seam (allocator, interpreter events, '
               'exceptions, thread turns, simulated ticks) is installed from outside by /verif/dst',
               source_commits=[]),
    checks=[dict(property=p, quick_cmd=f'./check {p}', thorough_cmd=f'./check {p} --tier thorough',
                 evidence_file=f'evidence/{p}.json', technique=SIM + t, level='exploration',
                 level_note=n) for p, (t, n) in CHECKS.items()],
    not_applicable=[dict(property=p, reason=r) for p, r in NA.items()],
    notes='Only one kind of change was made to /repo: fix commits, listed in known_findings.txt. '
          'Replays: /opt/venv/bin/python -B -m dst.runner replay FILE (from /verif).',
)
props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
for p in props:
    if p not in CHECKS and p not in NA:
        man['not_applicable'].append(dict(property=p, reason='check not built yet'))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
