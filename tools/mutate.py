#!/usr/bin/env python3
# Development aid, not a check: mechanical mutants of the contracts, each built and run through its scenarios with
# every expectation counting ('*').   tools/mutate.py list | run [SLOTS] [CONTRACT ...]
# Works in /tmp/mut (scratch copies of /repo); results in /tmp/mut/results.jsonl, one line per mutant.
import re, sys, os, json, subprocess, hashlib, threading, queue, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, SCR = '/repo', '/tmp/mut'
FILES = {
 'staking-pool': (['src/lib.rs', 'src/internal.rs'], ['staking-pool']),
 'staking-pool-factory': (['src/lib.rs'], ['pool-factory']),
 'whitelist': (['src/lib.rs'], ['whitelist', 'pool-factory']),
 'voting': (['src/lib.rs'], ['voting']),
 'multisig': (['src/lib.rs'], ['multisig1']),
 'multisig2': (['src/lib.rs'], ['multisig2', 'multisig-factory']),
 'multisig-factory': (['src/lib.rs'], ['multisig-factory']),
 'lockup': (['src/lib.rs', 'src/getters.rs', 'src/internal.rs', 'src/owner.rs', 'src/owner_callbacks.rs', 'src/foundation.rs', 'src/foundation_callbacks.rs', 'src/types.rs', 'src/gas.rs'], ['lockup']),
 'lockup-factory': (['src/lib.rs', 'src/types.rs'], ['lockup-factory']),
 'w-near': (['src/lib.rs', 'src/w_near.rs', 'src/legacy_storage.rs'], ['w-near']),
 'state-manipulation': (['src/lib.rs'], ['state']),
}
RUNS = {'staking-pool': 700, 'pool-factory': 700, 'whitelist': 500, 'voting': 1000, 'multisig1': 500, 'multisig2': 500, 'multisig-factory': 1000, 'lockup': 900, 'lockup-factory': 1000, 'w-near': 500, 'state': 3000}
SWAPS = [(r' >= ', ' > '), (r' > ', ' >= '), (r' <= ', ' < '), (r' < ', ' <= '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '),
 (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\bif !', 'if '), (r'\bassert!\(\s*!', 'assert!('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'saturating_sub', 'wrapping_sub'), (r'saturating_add', 'wrapping_add'), (r'std::cmp::max', 'std::cmp::min'), (r'std::cmp::min', 'std::cmp::max'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
 (r'predecessor_account_id', 'signer_account_id'), (r'is_some\(', 'is_none('), (r'is_none\(', 'is_some('), (r'_rounded_down', '_rounded_up'), (r'_rounded_up', '_rounded_down'),
 (r'#\[private\]', ''), (r'#\[payable\]', ''), (r'assert_eq!', 'assert_ne!'), (r'assert_ne!', 'assert_eq!'), (r'#\[init\]', '#[init(ignore_state)]'),
 (r'get_account_balance\(\)', 'get_balance()'), (r'account_balance\(\)', 'account_locked_balance()'), (r'attached_deposit\(\)', 'account_balance()'), (r'\bIdle\b', 'Busy'), (r'\bBusy\b', 'Idle')]
def body(path):
    t = open(path).read()
    i = t.find('#[cfg(test)]')
    return t if i < 0 else t[:i]
def mutants():
    out = []
    for c, (files, scen) in FILES.items():
        for f in files:
            p = os.path.join(REPO, c, f)
            if not os.path.exists(p): continue
            t = body(p); full = open(p).read()
            def add(a, b, new, what):
                line = t.count('\n', 0, a) + 1
                m = dict(c=c, f=f, a=a, b=b, new=new, line=line, what=what, old=t[a:b])
                m['id'] = c + ':' + f.split('/')[-1] + ':' + str(line) + ':' + hashlib.sha256(f'{a}/{b}/{new}'.encode()).hexdigest()[:6]
                out.append(m)
            # spans not worth touching: comments, logs, use lines, generics in signatures
            dead = [m.span() for m in re.finditer(r'//[^\n]*|env::log\((?:[^;]|\n)*?;|log!\((?:[^;]|\n)*?;|^use [^;]*;|"(?:[^"\\]|\\.)*"|^\s*(?:pub )?fn [^{]*\{|-> [^{;]*|^\s*#\[(?!private|payable|init)[^\]]*\]', t, re.M)]
            isdead = lambda x: any(s <= x < e for s, e in dead)
            for pat, new in SWAPS:
                for m in re.finditer(pat, t):
                    if not isdead(m.start() + (1 if m.group().startswith(' ') else 0)): add(m.start(), m.end(), new, 'swap')
            # whole statements
            for m in re.finditer(r'^([ \t]+)((?:self\.|assert|env::panic|require!|Self::|\*?\w+(?:\.\w+)* [-+]?= )[^;{}]*;)[ \t]*$', t, re.M):
                if not isdead(m.start(2)): add(m.start(2), m.end(2), '', 'drop')
            for m in re.finditer(r'^const [^;]*?= *([\d_]+)[^;]*;|^pub const [^;]*?= *([\d_]+)[^;]*;', t, re.M):
                g = 1 if m.group(1) else 2
                add(m.start(g), m.end(g), str(int(m.group(g).replace('_', '')) + 1), 'const+1')
            # conditions: if X {  ->  if true / if false
            for m in re.finditer(r'\bif (?!let)([^{}\n]+) \{', t):
                if not isdead(m.start()):
                    add(m.start(1), m.end(1), 'true', 'iftrue'); add(m.start(1), m.end(1), 'false', 'iffalse')
            # early drop of ? none in these contracts; numbers in code
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.\d])', t):
                ls = t.rfind('\n', 0, m.start()) + 1
                if not isdead(m.start()) and not t[ls:].startswith(('const', 'pub const')) and t[m.end():m.end()+1] != ']' :
                    add(m.start(), m.end(), str(int(m.group()) + 1), 'number')
    seen, res = set(), []
    for m in out:
        k = (m['c'], m['f'], m['a'], m['b'], m['new'])
        if k not in seen: seen.add(k); res.append(m)
    return res
def run(slots, only):
    os.makedirs(SCR, exist_ok=True)
    resf = SCR + '/results.jsonl'
    have = {json.loads(l)['id'] for l in open(resf)} if os.path.exists(resf) else set()
    todo = [m for m in mutants() if (not only or m['c'] in only) and m['id'] not in have]
    random.Random(1).shuffle(todo)
    q = queue.Queue(); [q.put(m) for m in todo]
    lock = threading.Lock()
    def slot(k):
        d = f'{SCR}/slot{k}'
        if not os.path.exists(d + '/repo'):
            os.makedirs(d); subprocess.check_call(['rsync', '-a', '--exclude', 'target', '--exclude', '.git', REPO + '/', d + '/repo/'])
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/build')
        subprocess.run([ROOT + '/bin/build-wasm.sh'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        prev = 'whitelist'
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            p = f"{d}/repo/{m['c']}/{m['f']}"
            full = open(f"{REPO}/{m['c']}/{m['f']}").read()
            open(p, 'w').write(full[:m['a']] + m['new'] + full[m['b']:])
            r = dict(m)
            try:
                b = subprocess.run([ROOT + '/bin/build-wasm.sh', m['c'], prev], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if b.returncode: r['res'] = 'nobuild'
                elif cmp_all(d): r['res'] = 'same wasm'
                else:
                    r['res'] = 'SURVIVED'
                    for s in FILES[m['c']][1]:
                        job = dict(prop='*', scenario=s, index=0, runs=RUNS[s], seed=20260 + int(hashlib.sha256(m['id'].encode()).hexdigest()[:6], 16), tier='quick', maxShrinks=0, known=[])
                        try:
                            w = subprocess.run(['node', '--disable-wasm-trap-handler', '--max-old-space-size=2500', '--stack-size=4000', ROOT + '/sim/worker.mjs', json.dumps(job)], env=env, capture_output=True, text=True, timeout=240)
                        except subprocess.TimeoutExpired: r['res'] = 'timeout'; break
                        if w.returncode: r['res'] = 'error'; r['msg'] = w.stderr[:600]; break
                        o = json.loads(w.stdout)
                        if o['failing']: r['res'] = 'killed'; r['msg'] = o['failing']['msg'][:200]; r['props'] = o['failing'].get('props'); r['n'] = o['evaluations']; break
            finally: open(p, 'w').write(full); prev = m['c']
            with lock: open(resf, 'a').write(json.dumps(r) + '\n')
    def cmp_all(d):
        for f in os.listdir(d + '/build/wasm'):
            c = SCR + '/clean/' + f
            if os.path.exists(c) and open(c, 'rb').read() != open(d + '/build/wasm/' + f, 'rb').read(): return False
        return True
    subprocess.check_call([ROOT + '/bin/build-wasm.sh'], env=dict(os.environ, VERIF_BUILD=SCR + '/cleanbuild'))
    os.makedirs(SCR + '/clean', exist_ok=True); subprocess.check_call(f'cp {SCR}/cleanbuild/wasm/* {SCR}/clean/', shell=True)
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(slots)]
    [t.start() for t in ts]; [t.join() for t in ts]
if sys.argv[1] == 'list':
    M = mutants(); from collections import Counter
    print(len(M), Counter(m['c'] for m in M), Counter(m['what'] for m in M))
elif sys.argv[1] == 'check':  # mutate.py check PROP REGEX: the quick check of one property on the mutants whose description matches
    d = SCR + '/one'
    if not os.path.exists(d + '/repo'):
        os.makedirs(d); subprocess.check_call(['rsync', '-a', '--exclude', 'target', '--exclude', '.git', REPO + '/', d + '/repo/'])
    for m in mutants():
        if not re.search(sys.argv[3], f"{m['id']} {m['what']} {m['old']} -> {m['new']}"): continue
        p = f"{d}/repo/{m['c']}/{m['f']}"; full = open(f"{REPO}/{m['c']}/{m['f']}").read()
        open(p, 'w').write(full[:m['a']] + m['new'] + full[m['b']:])
        try: w = subprocess.run([ROOT + '/bin/check', sys.argv[2]], env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/build'), capture_output=True, text=True)
        finally: open(p, 'w').write(full)
        print(m['id'], m['what'], ' '.join(m['old'].split())[:60], '->', m['new'], '|', w.returncode, re.findall(r'VIOLATION.*', w.stdout)[:1], re.findall(r'case \d+.*', w.stdout)[:1], flush=True)
else: run(int(sys.argv[2]), sys.argv[3:])
