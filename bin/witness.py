#!/usr/bin/env python3
"""witness.py OUT.json: decides G03 from which of the programs in /verif/ws/witness compile against /repo's current sources."""
import json, os, subprocess, sys, time, glob, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what the compiler says if a type lacks a trait, or has one too many
ABSENT = {'E0283', 'E0790', 'E0282'}
TRAIT = {'E0277', 'E0310', 'E0373', 'E0521', 'E0597', 'E0599'}

def cargo(args):
    env = dict(os.environ, VERIF=ROOT)
    for p in ('imap-next', 'witness'):
        subprocess.run(['rm', '-rf', *glob.glob(f'{ROOT}/build/target/debug/.fingerprint/{p}-*')])
    cmd = f'. {ROOT}/bin/env.sh; export LD_LIBRARY_PATH="$SYSROOT/lib" RUSTFLAGS="-Zalways-encode-mir -Cdebug-assertions=off" CARGO_TARGET_DIR="{ROOT}/build/target" RUSTC_WORKSPACE_WRAPPER="{ROOT}/build/driver/release/mirdump"; unset MIRDUMP_OUT; cd {ROOT}/ws && cargo check --offline --quiet --keep-going -p witness --message-format=json {args}'
    r = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, env=env)
    errs, ok = [], set()
    for l in r.stdout.splitlines():
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m['reason'] == 'compiler-artifact':
            ok.add((m['target']['kind'][0], m['target']['name']))
        if m['reason'] == 'compiler-message' and m['message']['level'] == 'error':
            errs.append((m['target']['name'], m['message']))
    return errs, ok, r.stderr

def fns(path):
    """[(first line, last line, name)] of the witnesses."""
    out, start, name = [], 0, None
    for i, l in enumerate(open(path), 1):
        m = re.match(r'fn (\w+)', l)
        if m and '_' in m[1] and not m[1].startswith('is_'):
            start, name = i, m[1]
        if l.startswith('}') and name:
            out.append((start, i, name))
            name = None
    return out

def main():
    t0 = time.time()
    errs, ok, err = cargo('--lib --bins')
    viol, incomplete = [], None
    def add(key, msg, trace, undecided=False):
        viol.append(dict(property='G03', key=key, message=msg, trace=trace, undecided=undecided))
    if ('lib', 'imap_next') not in ok:
        print(err or 'imap-next does not compile', *[m['rendered'] for t, m in errs if t == 'imap_next'])
        sys.exit(1)
    src = f'{ROOT}/ws/witness/src'
    good = fns(f'{src}/lib.rs')
    failed = set()
    for t, m in errs:
        if t != 'witness':
            continue
        code = (m.get('code') or {}).get('code', '')
        lines = [s['line_start'] for s in m['spans'] if s['is_primary'] and s['file_name'].endswith('witness/src/lib.rs')] or \
                [s['line_start'] for s in m['spans'] if s['file_name'].endswith('witness/src/lib.rs')]
        # inside of a macro the line is that of its use
        for s in m['spans']:
            e = s.get('expansion')
            while e:
                lines.append(e['span']['line_start'])
                e = e['span'].get('expansion')
        names = [n for a, b, n in good if any(a <= l <= b for l in lines)]
        text = m['rendered'].splitlines()
        if not names:
            incomplete = incomplete or 'a witness cannot be attributed: ' + m['message']
            continue
        name = names[0]
        failed.add(name)
        absent = 'cannot_be' in name
        definite = code in ABSENT if absent else (code == 'E0277' or code == '' and 'cannot be' in m['message'] or 'future cannot be' in m['message'])
        says = name.replace('_', ' ')
        add(name, f'it is not so that {says}: {m["message"]}' if definite else f'whether {says} cannot be told: {m["message"]}', text[:60], not definite)
    bad = {'twice': ('two operations on one stream at once compile', {'E0499'}), 'forge': ('a program compiles that makes up a handle', {'E0603', 'E0432', 'E0433', 'E0616', 'E0624', 'E0451'})}
    stats = {'witnesses that compile': len(good) - len(failed), 'programs that do not compile, as they should': 0}
    if not failed and not incomplete:
        for t, (msg, codes) in bad.items():
            if ('bin', t) in ok:
                add(t, msg, [l.rstrip() for l in open(f'{src}/{t}.rs')])
            else:
                got = {(m.get('code') or {}).get('code', '') for n, m in errs if n == t}
                if got & codes:
                    stats['programs that do not compile, as they should'] += 1
                else:
                    incomplete = f'{t}: does not compile for another reason: {sorted(got)}'
    n = len(good) + len(bad)
    j = dict(family='witness', violations=viol, floors=[] if len(good) >= 15 else ['witnesses'], incomplete=incomplete, tainted=0, states=n, transitions=n, steps=n,
             functions=[g[2] for g in good] + list(bad), blocks=0, stats=stats, unknown=[], samples=[f'{g[2]} ({src}/lib.rs:{g[0]})' for g in good[:4]], seconds=time.time() - t0)
    json.dump(j, open(sys.argv[1], 'w'), indent=1)

main()
