"""DESIGN.md from doc/head.md, the list of properties, doc/tail.md and the seeds. `python3 bin/design.py`."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(root + '/doc/head.md').read().rstrip(), '', '## 3. The properties', '',
       'The statements are in `properties.jsonl`. Quick and thorough runs differ in the lengths of lists and texts and in the budget of paths; a check takes 5 to 60 s. The tests cannot settle them because they',
       'compile only two files here, and elsewhere sample a few dialogues.', '']
groups = [('C', 'Client'), ('S', 'Server'), ('G', 'Client and server'), ('R', 'Receiving'), ('H', 'Handles and tags'), ('O', 'Options'), ('L', 'Secrets'), ('T', 'Stream'), ('X', 'Proxy')]
na = []
for g, name in groups:
    ids = [i for i in props.PROPS if i[0] == g]
    if not ids: continue
    out += ['### ' + name, '']
    methods = {}
    for i in ids:
        p = props.PROPS[i]
        if 'runs' not in p:
            na.append((i, p)); continue
        methods.setdefault(p['method'], []).append(i)
    for m, l in methods.items():
        out += [f"*Method of {', '.join(l)}.* {m}", '']
        for i in l:
            p = props.PROPS[i]
            out.append(f"* **{i} — {p['decl']['title']}.** {p['rule']} Analyses: {', '.join(sorted(set(r[1] for r in p['runs'])))}. {p['note']}")
        out.append('')
if na:
    out += ['### Not applicable', ''] + [f"* **{i} — {p['decl']['title']}.** {p['na']}" for i, p in na] + ['']
seeds = ['| seed | caught by | what it breaks |', '|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(f))
    seeds.append(f"| {f.split('/')[-2]} | {j['property']} | {j['what_it_breaks']} |")
out.append(open(root + '/doc/tail.md').read().replace('@SEEDS@', '\n'.join(seeds)))
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
