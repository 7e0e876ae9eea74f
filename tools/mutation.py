#!/usr/bin/env python3
"""mutation.py build|run: mutation testing of the checks (see DESIGN.md). Works in /tmp/mut.

build  one copy of /repo with every mutant compiled in (MUT=<id> picks one at run time), its own test
       binary, and a harness on it whose case counts are scaled by HARNESS_SCALE
run    for each mutant: the checks at a small scale, then larger; survivors run the repository's tests
"""
import json, os, re, subprocess, sys, concurrent.futures as cf, time
W = '/tmp/mut'
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(['bash', '-c', c], text=True, capture_output=True, **k)
def build():
    os.makedirs(W, exist_ok=True)
    sh(f'rsync -a --delete --exclude .git --exclude target /repo/ {W}/repo/; mkdir -p {W}/verif; rsync -a --exclude target --exclude seeded --exclude .git --exclude replay {here}/ {W}/verif/')
    e = f'{W}/verif/harness/src/engine.rs'; t = open(e).read()
    t = t.replace('const MAX_SHRINK: u32 = 3000;', 'const MAX_SHRINK: u32 = 0;')
    t = t.replace('let total = if env.thorough { self.thorough } else { self.quick };', 'let total = ((if env.thorough { self.thorough } else { self.quick }) as f64 * std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)) as u32;')
    t = t.replace('Duration::from_secs(120)', 'Duration::from_secs(20)')
    open(e, 'w').write(t)
    m = f'{W}/verif/harness/src/main.rs'; t = open(m).read()
    t = t.replace('    println!("VIOLATION property={id} replay={p}");\n}\n', '    println!("VIOLATION property={id} replay={p}");\n    std::process::exit(1);\n}\n', 1)
    open(m, 'w').write(t)
    ex = set(json.load(open(f'{W}/exclude.json'))) if os.path.exists(f'{W}/exclude.json') else set()
    env = f'. /opt/vp/env.sh; export RUSTFLAGS="-Awarnings"; '
    while True:
        json.dump(sorted(ex), open(f'{W}/exclude.json', 'w'))
        r = sh(f'{env} CARGO_TARGET_DIR=/tmp/mutator-target cargo run -q --release --offline --manifest-path {here}/tools/mutator/Cargo.toml -- /repo {W}/repo {W}/exclude.json {W}/mutants.json')
        if r.returncode: print(r.stderr); sys.exit(1)
        bad = set(); other = []
        for d in ('repo', 'repo/wasm'):
            r = sh(f'{env} cd {W}/{d} && CARGO_TARGET_DIR={W}/t-check cargo check --offline --message-format json')
            for l in r.stdout.splitlines():
                j = json.loads(l)
                if j.get('reason') != 'compiler-message' or j['message']['level'] != 'error': continue
                sp = [s for s in j['message']['spans'] if s['is_primary']]
                if not sp: continue
                s = sp[0]
                p = s['file_name']; p = p if p.startswith('/') else f'{W}/{d}/{p}'
                if not os.path.exists(p): p = f"{W}/repo/{s['file_name']}"
                txt = open(p, 'rb').read()[:s['byte_end']].decode(errors='ignore')
                # the last marker before the error's end
                ks = re.findall(r'__m \((\d+)u32\)', txt)
                if ks: bad.add(int(ks[-1]))
                else: other.append(j['message']['rendered'])
            if bad: break
        print('excluded', len(ex), 'new', len(bad), [o[:200] for o in other[:2]]); sys.stdout.flush()
        if not bad:
            if other: print(other[0][:500])
            break
        ex |= bad
    r = sh(f'{env} cd {W}/repo && CARGO_TARGET_DIR={W}/t-test cargo test --offline --no-run --message-format json')
    exe = [json.loads(l).get('executable') for l in r.stdout.splitlines() if l.startswith('{')]
    exe = [x for x in exe if x]
    if r.returncode: print([l[:200] for l in r.stderr.splitlines() if l.startswith('error')])
    json.dump(exe, open(f'{W}/tests.json', 'w')); print('tests', exe)
    r = sh(f'{env} cd {W}/verif/harness && CARGO_TARGET_DIR={W}/t-harness cargo build --offline')
    print(r.returncode, [l[:200] for l in r.stderr.splitlines() if l.startswith('error')] if r.returncode else ''); print(len(json.load(open(f'{W}/mutants.json'))), 'mutants')
if __name__ == '__main__':
    if sys.argv[1] == 'build': build()
CHECKS = {  # tried in this order; the others follow
    'bexter': 'C16 C17', 'common': 'C19 C20', 'matter': 'C01 C02 C06', 'indexer': 'C03 C04 C06', 'counter': 'C05 C06', 'util': 'C05 C03 C01',
    'cigar': 'C07 C23', 'siger': 'C07 C03', 'verfer': 'C07 C08', 'signer': 'C07 C23 C21', 'salter': 'C09 C23', 'diger': 'C10',
    'saider': 'C11', 'prefixer': 'C12', 'number': 'C15', 'seqner': 'C15', 'dater': 'C16', 'pather': 'C17', 'tholder': 'C13 C14',
    'serder': 'C20', 'creder': 'C20', 'sadder': 'C20 C19', 'data': 'C18', 'sign': 'C07 C08', 'salt': 'C09', 'hash': 'C10', 'csprng': 'C21', 'wasm': 'C24',
}
ALL = [f'C{i:02}' for i in range(1, 25)]
def order(f):
    k = 'wasm' if f.startswith('wasm') else f.split('/')[-2] if f.endswith(('mod.rs', 'tables.rs')) else f.split('/')[-1][:-3]
    first = CHECKS.get(k, '').split()
    return first, first + [c for c in ALL if c not in first + ['C09']] + []
def call(cmd, k, t, **e):
    env = dict(os.environ, MUT=str(k), RUST_BACKTRACE='0', RUST_LIB_BACKTRACE='0', **e)
    try: return subprocess.run(f'ulimit -v 12582912; exec timeout -s KILL {t} {cmd} >/dev/null 2>&1', shell=True, env=env).returncode
    except Exception as x: return repr(x)
def go(m):
    k = m['id']; r = {}
    if call(json.load(open(f'{W}/tests.json'))[0] + ' -q --test-threads 2', k, 120) != 0: return m, 'tests'
    d = f'{W}/v{k}'
    os.makedirs(d, exist_ok=True); sh(f'cp {W}/verif/known_findings.txt {d}/')
    first, every = order(m['file'])
    res = 'SURVIVES'
    for c, s in [(c, '0.01') for c in every] + [(c, '0.2') for c in first]:
        rc = call(f'{W}/t-harness/debug/harness {c}', k, 400, VERIF_DIR=d, HARNESS_SCALE=s)
        if rc != 0: res = f'{c} {s} rc {rc}'; break
    sh(f'find {d} -type f -delete; find {d} -depth -type d -empty -delete')
    return m, res
def run(ids):
    ms = json.load(open(f'{W}/mutants.json'))
    done = {}
    if os.path.exists(f'{W}/results.jsonl'):
        for l in open(f'{W}/results.jsonl'): j = json.loads(l); done[j['id']] = j['result']
    ms = [m for m in ms if (not ids or m['id'] in ids) and m['id'] not in done]
    print(len(ms), 'to run')
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '5'))) as ex, open(f'{W}/results.jsonl', 'a') as out:
        for m, r in ex.map(go, ms):
            out.write(json.dumps(dict(m, result=r)) + '\n'); out.flush()
if __name__ == '__main__' and sys.argv[1] == 'run': run(set(map(int, sys.argv[2:])))
