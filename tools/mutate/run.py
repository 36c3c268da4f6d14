#!/usr/bin/env python3
"""run.py DIR NWORKER COUNT SEED   mutates scratch copies of /repo, one line at a time, and records in DIR/log.jsonl which
mutants the unit tests miss and what the replay then says about each; `run.py DIR --proof` runs the proof on those nothing found"""
import sys, os, re, json, random, subprocess, shutil, glob, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
FILES = [f for f in glob.glob('/repo/sia/src/**/*.rs', recursive=True)]
OPS = [
    (r' <= ', [' < ']), (r' < ', [' <= ']), (r' >= ', [' > ']), (r' > ', [' >= ']), (r' == ', [' != ']), (r' != ', [' == ']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' % ', [' / ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r' & ', [' | ']), (r' \| ', [' & ']),
    (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' \|= ', [' &= ']), (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'!(?=[a-z(])', ['']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'_le_bytes', ['_be_bytes']), (r'_be_bytes', ['_le_bytes']),
    (r'checked_', ['wrapping_']), (r'overflowing_', ['wrapping_']), (r'wrapping_', ['saturating_']), (r'saturating_', ['wrapping_']),
    (r'\.all\(', ['.any(']), (r'\.any\(', ['.all(']), (r'is_some\(', ['is_none(']), (r'is_none\(', ['is_some(']), (r'is_empty\(\)', ['len() == 1']), (r'\.\.=', ['..']), (r'_u64\b|as u64', ['as u32 as u64']), (r'as u128', ['as u64 as u128']),
    (r'\.iter\(\)', ['.iter().skip(1)', '.iter().rev()']), (r'(?<=[a-z]) as usize', [' as u8 as usize']), (r'verify_strict', ['verify']), (r'siafund', ['siacoin']), (r'siacoin', ['siafund']), (r'filesize', ['capacity']), (r'renter', ['host']), (r'host', ['renter']),
    (r'height', ['id', 'expiration_height', 'proof_height']), (r'valid', ['missed']), (r'missed', ['valid']), (r'final_', ['']), (r'new_', ['']), (r'_v1\(', ['(']), (r'SHA256|Sha', ['']),
    (r'(?<![\w.])(\d[\d_]*)(?![\w.])', ['+1', '-1']), (r'0x([0-9a-f]+)', ['hex']), (r'"[^"]+"', ['str']),
]
def code(f):
    t = open(f).read(); i = t.find('#[cfg(test)]'); return t if i < 0 else t[:i]
def mutants():
    out = []
    for f in FILES:
        L = code(f).split('\n')
        for i, l in enumerate(L):
            s = l.strip()
            if not s or s.startswith(('//', '#[', 'use ', '*', 'pub use', 'mod ', 'pub mod', 'impl', 'pub struct')): continue
            if 'where' in s or len(re.findall(r'\b\d+,', s)) > 6: continue
            for pat, reps in OPS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        if r in ('+1', '-1'):
                            v = int(m.group(1).replace('_', '')) + (1 if r == '+1' else -1)
                            if v < 0: continue
                            n = str(v)
                        elif r == 'hex': n = hex(int(m.group(1), 16) ^ 1)
                        elif r == 'str': n = '"' + m.group(0)[1:-2] + '"'
                        else: n = r
                        out.append((f, i, l[:m.start()] + n + l[m.end():], pat))
            if s.endswith(';') and not s.startswith(('let', 'return', 'pub', 'type', 'const')) and s.count('(') == s.count(')'):
                out.append((f, i, '', 'del'))
            if i + 1 < len(L) and s.endswith((';', ',')) and L[i + 1].strip().endswith(s[-1]) and not s.startswith(('use', 'pub ')) and not re.fullmatch(r'[\w: <>\[\],]*,', s):
                out.append((f, i, L[i + 1] + '\n' + l, 'swap'))
    return out
def apply(R, m):
    f, i, n, _ = m
    t = open(f).read().split('\n')
    if m[3] == 'swap': t[i:i + 2] = n.split('\n')
    else: t[i:i + 1] = [n] if n else []
    g = f.replace('/repo', R)
    open(g, 'w').write('\n'.join(t))
    return g
def sh(c, t=300, **k):
    try: return subprocess.run(['timeout', '-k', '5', str(t), 'bash', '-c', c], text=True, capture_output=True, stdin=subprocess.DEVNULL, **k)
    except Exception as e: return subprocess.CompletedProcess(c, 99, str(e), '')
def worker(D, w, ms):
    R = f'{D}/repo{w}'
    if not os.path.exists(R): sh(f'cp -a /repo {R}', 600)
    for n, m in ms:
        sh(f'git -C {R} checkout -q -- .')
        g = apply(R, m)
        d = sh(f'git -C {R} diff -U0 -- sia | tail -n +5').stdout
        rec = {'n': n, 'file': m[0], 'line': m[1] + 1, 'op': m[3], 'diff': d}
        p = sh('RUSTFLAGS="" cargo test --workspace --no-fail-fast --offline -- --test-threads 4', 200, cwd=R)
        if 'error: could not compile' in p.stderr or 'error[' in p.stderr: continue
        if p.returncode != 0:
            print('tests', n, flush=True); continue
        else:
            p = sh(f'SIA_REPO={R} SIA_BUILD={D}/build{w} python3 {HERE}/one.py', 900)
            rec['state'] = 'replay' if '"hit": [' in p.stdout and '"hit": []' not in p.stdout else 'SURVIVED'
            rec['out'] = p.stdout[-1500:] + p.stderr[-500:]
        open(f'{D}/log.jsonl', 'a').write(json.dumps(rec) + '\n')
if __name__ == '__main__':
    D = sys.argv[1]; os.makedirs(D, exist_ok=True)
    if sys.argv[2] == '--proof':
        R = f'{D}/repo0'
        done = {json.loads(l)['n'] for l in open(f'{D}/proof.jsonl')} if os.path.exists(f'{D}/proof.jsonl') else set()
        for l in open(f'{D}/log.jsonl'):
            r = json.loads(l)
            if r['state'] != 'SURVIVED' or r['n'] in done: continue
            sh(f'git -C {R} checkout -q -- .')
            open(f'{D}/p.diff', 'w').write(f"--- a/{r['file'][6:]}\n+++ b/{r['file'][6:]}\n" + r['diff'])
            a = sh(f'git -C {R} apply --unidiff-zero {D}/p.diff')
            p = sh(f'RETRY=0 SIA_REPO={R} SIA_BUILD={D}/build0 python3 {HERE}/../../driver/check.py --proof', 900)
            r['apply'] = a.stderr; r['proof'] = p.stdout[-3000:]; r['found'] = 'alarm' in p.stdout
            open(f'{D}/proof.jsonl', 'a').write(json.dumps(r) + '\n')
    else:
        nw, cnt, seed = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
        ms = mutants(); random.Random(seed).shuffle(ms)
        print(len(ms), 'mutants')
        ms = list(enumerate(ms))[:cnt]
        with concurrent.futures.ThreadPoolExecutor(nw) as ex:
            list(ex.map(lambda w: worker(D, w, ms[w::nw]), range(nw)))
