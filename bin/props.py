"""The properties, and how each is decided. `python3 bin/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys

ASSUMPTIONS = [
    'The crates imap-next depends on are represented by the models in /verif/model (imap-types, imap-codec, tokio, tokio-rustls, ...), whose signatures are those the repository uses; their own behaviour is assumed, not analysed.',
    'The MIR the nightly compiler produces for the current sources is what the compiled program does.',
    'The abstract semantics of the analyser and its models of the standard library are right.',
]
CL = [('imap-next', 'client')]
SV = [('imap-next', 'server')]
M_CLIENT = ('Path-sensitive abstract interpretation of the MIR of the whole client (public API down to the leaves), closed by a '
            'most general user and a most general server: from every abstract state every API call is analysed until no new state appears. '
            'The queue is abstracted to any number of commands before and after one arbitrary marked command, whose fragments contain one arbitrary marked fragment; '
            'a typestate monitor over the marked objects checks the rule on every transition.')
M_SERVER = ('Path-sensitive abstract interpretation of the MIR of the whole server (public API down to the leaves), closed by a '
            'most general user and a most general client: from every abstract state every API call is analysed until no new state appears. '
            'The queue is abstracted to any number of responses before and after one arbitrary marked response, whose fragments contain one arbitrary marked fragment; '
            'a typestate monitor over the marked objects checks the rule on every transition.')
T_ABS = 'abstract interpretation of MIR with a typestate monitor, to fixpoint'
PROPS = {}
def P(id, title, statement, over, quant, why, files, mech, method=None, rule=None, runs=None, technique=None, note=None, na=None, assumptions=None, observe=None, state=None):
    d = dict(title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    p = dict(decl=d)
    if runs:
        p.update(runs=runs, method=method, rule=rule, technique=technique or T_ABS, note=note)
        if assumptions: p['assumptions'] = assumptions
    else:
        p['na'] = na
    PROPS[id] = p

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'proplist.py')).read())

def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for i, p in PROPS.items():
            assert len(p['decl']['title']) <= 80, (i, len(p['decl']['title']))
            f.write(json.dumps(dict(id=i, **p['decl'])) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[],
             notes='Every check re-reads /repo, dumps the MIR of the package it is about and analyses it; see DESIGN.md.')
    for i, p in PROPS.items():
        if 'runs' in p:
            m['checks'].append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --thorough', technique=p['technique'],
                                    level='other', level_note=p['note']))
        else:
            m['not_applicable'].append(dict(property=i, reason=p['na']))
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
if __name__ == '__main__':
    main()
