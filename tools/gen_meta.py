"""Writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

P = []
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prop(id, title, statement, over, text, why, files, state=(), mechanism=(), observe=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, state=list(state),
                  mechanism=[dict(name=n, where=w) for n, w in mechanism], observe=list(observe), technique=technique,
                  note=note))


SCHED = 'runtime monitoring under a controlled thread scheduler with a virtual clock'
MODEL = 'runtime monitoring: online reference-model checker over generated histories'
CO = 'satella/coding/concurrent/'
ST = 'satella/coding/structures/'

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

SCHEMA_NOTE = 'Held on every schedule, history and input explored; nothing is claimed about those not explored. '


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], state=p['state'], mechanism=p['mechanism'], observe_at=p['observe'],
                             hook_needed=False))) + '\n')
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
            continue
        t = p['technique'] or (SCHED if 'schedules' in p['over'] else MODEL)
        checks.append(dict(
            property=p['id'], quick_cmd='bash /verif/run.sh %s quick' % p['id'],
            thorough_cmd='bash /verif/run.sh %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
            technique=t, level='exploration', level_note=SCHEMA_NOTE + (p['note'] or '') +
            ('Trusts the scheduler shim: real threads, one running at a time, switched at line/bytecode boundaries of the '
             'monitored code and at lock operations; CPython\'s own C-level operations are taken as atomic.'
             if 'schedules' in p['over'] else 'Trusts the reference model in the check.')))
    na = [dict(property=p['id'], reason='no check built') for p in P if
          not os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys"', checks=checks, not_applicable=na,
                       notes='Pure Python: every check imports /repo as it is, nothing is built or installed. No hooks are '
                             'needed in the source, instrumentation is done with sys.monitoring and by substituting '
                             'threading/time primitives in the checking process.'), f, indent=1)
        f.write('\n')


main()
