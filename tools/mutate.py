#!/usr/bin/env python3
"""Mutation trial of the checks (development aid, not a registered check).

mutate.py list SEED N          pick N random mutants of /repo/src, as JSON lines
mutate.py run FILE OUT WORKERS try each: build, repository tests, then every check

Works on copies under /tmp/mut only.
"""
import sys, os, re, json, random, subprocess, shutil, threading, queue, glob

ROOT = '/repo'
FILES = [f for f in subprocess.check_output(['git', '-C', ROOT, 'ls-files', 'src'], text=True).split()
         if f.endswith('.rs') and '/tests/' not in f and f != 'src/lib.rs']
TMP = '/tmp/mut'

def mutants():
    out = []
    for f in FILES:
        lines = open(os.path.join(ROOT, f)).read().split('\n')
        def add(i, new, kind):
            if new != lines[i:i + (2 if isinstance(new, list) else 1)]:
                out.append({'file': f, 'line': i, 'new': new if isinstance(new, list) else [new], 'n': 2 if isinstance(new, list) else 1, 'kind': kind,
                            'old': lines[i:i + (2 if isinstance(new, list) else 1)]})
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#[') or s.startswith('pub use') or s.startswith('mod ') or s.startswith('pub mod'):
                continue
            code = l.split('//')[0]
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w])', code):
                n = int(m.group(1))
                for d in (1, -1):
                    if n + d >= 0:
                        add(i, code[:m.start()] + str(n + d) + code[m.end():], 'int')
            for m in re.finditer(r'0x([0-9A-Fa-f]+)', code):
                add(i, code[:m.start()] + hex(int(m.group(1), 16) ^ 2) + code[m.end():], 'hex')
            for a, b in ((' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '),
                         (' + ', ' - '), (' - ', ' + '), (' & ', ' | '), ('true', 'false'), ('false', 'true'), ('>> ', '<< '),
                         ('is_none', 'is_some'), ('if !', 'if '), ('Some(', 'None; //'), ('break', 'continue')):
                k = code.find(a)
                if k >= 0 and '"' not in code[:k]:
                    add(i, code[:k] + b + code[k + len(a):], 'op')
            if s.endswith(';') and not s.startswith('let ') and not s.startswith('pub ') and 'def_op' not in s and not s.startswith('return'):
                add(i, '', 'del')
            if s.endswith(',') and '=>' in s and i + 1 < len(lines):
                t = lines[i + 1].strip()
                if t.endswith(',') and '=>' in t:
                    a1, b1 = l.split('=>', 1); a2, b2 = lines[i + 1].split('=>', 1)
                    add(i, [a1 + '=>' + b2, a2 + '=>' + b1], 'swaparm')
            m = re.match(r'(\s*def_op_\w+!\(\w+;\s*(?:result_id =)?)(.*)(\);)$', l)
            if m and m.group(2).strip():
                ops = [x.strip() for x in m.group(2).split('|')]
                for k in range(len(ops) - 1):
                    o = ops[:]; o[k], o[k + 1] = o[k + 1], o[k]
                    add(i, m.group(1) + ' ' + ' | '.join(o) + m.group(3), 'swapop')
                for k in range(len(ops)):
                    o = ops[:k] + ops[k + 1:]
                    add(i, m.group(1) + ' ' + ' | '.join(o) + m.group(3), 'dropop')
            for m in re.finditer(r'"([^"]*)"', code):
                t = m.group(1)
                if len(t) > 1 and not t.startswith(';'):
                    add(i, code[:m.start()] + '"' + t[:-1] + ('x' if t[-1] != 'x' else 'y') + '"' + code[m.end():], 'str')
            for m in re.finditer(r'\b(Ok|Err)\((\w+)::(\w+)', code):
                pass
    seen = set(); res = []
    for m in out:
        k = (m['file'], m['line'], tuple(m['new']))
        if k not in seen:
            seen.add(k); res.append(m)
    return res

def run(cmd, cwd, t, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v 16000000; ' + cmd], cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=e)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, 'timeout'

PROPS = ['C%02d' % i for i in range(1, 25)]

def prepare(w):
    d = '%s/w%d' % (TMP, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/verif')
    subprocess.check_call(['cp', '-a', ROOT, d + '/repo'])
    subprocess.check_call(['cp', '-a', '/verif/harness', d + '/verif/harness'])
    subprocess.check_call(['cp', '/verif/check', '/verif/known-findings.txt', d + '/verif/'])
    p = d + '/verif/harness/Cargo.toml'
    t = open(p).read().replace('"/repo"', '"%s/repo"' % d)
    open(p, 'w').write(t)
    return d

def trial(d, m, props=PROPS, env=None):
    f = os.path.join(d, 'repo', m['file'])
    orig = open(f).read()
    lines = orig.split('\n')
    if lines[m['line']:m['line'] + m['n']] != m['old']:
        return 'stale', {}
    lines[m['line']:m['line'] + m['n']] = m['new']
    open(f, 'w').write('\n'.join(lines))
    try:
        rc, o = run('RUSTFLAGS=-Awarnings timeout 120 cargo test --offline -q 2>&1 | tail -40; exit ${PIPESTATUS[0]}', d + '/repo', 200)
        if rc != 0:
            return 'nobuild' if 'could not compile' in o else 'tests', {}
        rc, o = run('./check build', d + '/verif', 200)
        if rc != 0:
            return 'harness-nobuild', {'out': o[-600:]}
        res = {}
        e = {'VERIF_SCALE': '1', 'VERIF_BUDGET_S': '60', 'VERIF_DIR': d + '/verif'}
        e.update(env or {})
        # likeliest first; the first check that reports it is enough
        first = (['C13', 'C16', 'C12', 'C14', 'C15'] if 'control_flow' in m['file'] else
                 ['C11', 'C10', 'C19'] if 'logical' in m['file'] else
                 ['C09', 'C21', 'C16', 'C20'] if 'types' in m['file'] or 'op.rs' in m['file'] or 'dis' in m['file'] else
                 ['C02', 'C03', 'C04', 'C05', 'C18', 'C20', 'C08'])
        for p in first + [p for p in props if p not in first]:
            rc, o = run('timeout 200 harness/target/debug/vharness check %s quick' % p, d + '/verif', 300, e)
            res[p] = rc
            if rc == 1:
                break
        bad = [p for p in res if res[p] not in (0, 1)]
        return ('caught' if 1 in res.values() else 'SURVIVED') + (' BROKEN' if bad else ''), res
    finally:
        open(f, 'w').write(orig)

def main():
    if sys.argv[1] == 'list':
        ms = mutants()
        random.seed(int(sys.argv[2]))
        random.shuffle(ms)
        print(len(ms), file=sys.stderr)
        for m in ms[:int(sys.argv[3])]:
            print(json.dumps(m))
    elif sys.argv[1] == 'run':
        ms = [json.loads(l) for l in open(sys.argv[2])]
        q = queue.Queue()
        for m in ms: q.put(m)
        lock = threading.Lock()
        outf = open(sys.argv[3], 'a')
        def worker(w):
            d = prepare(w)
            while True:
                try: m = q.get_nowait()
                except queue.Empty: break
                st, res = trial(d, m)
                m['status'] = st; m['by'] = [p for p in res if res.get(p) == 1]; m['broken'] = {p: r for p, r in res.items() if r not in (0, 1)}
                with lock:
                    outf.write(json.dumps(m) + '\n'); outf.flush()
            shutil.rmtree(d, ignore_errors=True)
        ts = [threading.Thread(target=worker, args=(w,)) for w in range(int(sys.argv[4]))]
        [t.start() for t in ts]; [t.join() for t in ts]
main()
