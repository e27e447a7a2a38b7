#!/usr/bin/env python3
"""fit.py ORIG_SRC REPO_COPY MUTGEN SKIP.json: leaves out mutants until the copy compiles."""
import json, os, re, subprocess, sys
src, repo, gen, skipf = sys.argv[1:5]
skip = set(json.load(open(skipf))) if os.path.exists(skipf) else set()
for round in range(60):
    json.dump(sorted(skip), open(skipf, 'w'))
    subprocess.run([gen, src, repo + '/src', skipf], check=True)
    p = subprocess.run(['cargo', 'check', '--offline', '--locked', '--features', 'commands,custom', '--message-format=json'] + (['--lib'] if round < 25 else []), cwd=repo, capture_output=True, text=True)
    if p.returncode == 0 and round >= 25: break
    if p.returncode == 0 and round < 25:
        p = subprocess.run(['cargo', 'check', '--offline', '--locked', '--features', 'commands,custom', '--message-format=json'], cwd=repo, capture_output=True, text=True)
        if p.returncode == 0: break
    new, texts, errors = set(), {}, 0
    for l in p.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        m = m.get('message')
        if not m or m.get('level') != 'error': continue
        errors += 1
        spans = list(m['spans']) + [s for c in m.get('children', []) for s in c['spans']]
        def walk(s):
            while s:
                yield s
                s = (s.get('expansion') or {}).get('span')
        for s0 in sorted(spans, key=lambda s: (0 if re.search('temporary|created here|moved here|borrow', s.get('label') or '') and not s['is_primary'] and s['line_end'] - s['line_start'] < 2 else 1 if s['is_primary'] else 2, s['byte_end'] - s['byte_start'])):
            done = False
            for s in walk(s0):
                f = os.path.join(repo, s['file_name'])
                if not os.path.exists(f) or '/src/' not in f: continue
                t = texts.setdefault(f, open(f, 'rb').read())
                at, end = s['byte_start'], s['byte_end']
                alt = node = None
                for mm in re.finditer(rb'/\*\[(\d+)\*/', t):
                    if mm.start() > at: break
                    if t.index(b'/*' + mm.group(1) + b']*/', mm.end()) >= at: alt = (mm.start(), [int(mm.group(1))])
                for mm in re.finditer(rb'/\*<([\d,]+)\*/', t):
                    if mm.start() > at: break
                    if t.index(b'/*' + mm.group(1) + b'>*/', mm.end()) >= end: node = (mm.start(), [int(x) for x in mm.group(1).split(b',')])
                if alt: new.update(alt[1]); done = True; break
                if node and len(node[1]) < 6 or node and s0 is spans[-1]: new.update(node[1]); done = True; break
                line0 = t.rfind(b'\n', 0, at) + 1; line1 = t.find(b'\n', end)
                mm = re.search(rb'/\*<([\d,]+)\*/', t[at:end]) or re.search(rb'/\*<([\d,]+)\*/', t[line0:line1])
                if mm: new.update(int(x) for x in mm.group(1).split(b',')); done = True; break
            if done: break
    new -= skip
    print(f'round {round}: {errors} errors, {len(new)} dropped', flush=True)
    if not new:
        print('stuck'); open('/tmp/mut/stuck.txt', 'w').write('\n'.join(json.loads(l)['message']['rendered'] for l in p.stdout.splitlines() if '"level":"error"' in l)); sys.exit(1)
    skip |= new
