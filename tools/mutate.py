#!/usr/bin/env python3
"""Mechanical mutants of the library, to find what no check notices.

    mutate.py list                      writes /tmp/mut/mutants.json
    mutate.py tests WORKER WORKERS      runs the tests on every WORKERS-th one;
                                        results in /tmp/mut/tests.WORKER
    mutate.py run WORKER WORKERS [IDS]  runs the checks on every WORKERS-th one the
                                        tests do not kill; in /tmp/mut/out.WORKER

Start the last two with tools/ns.sh, so that /repo and /verif are copies.

A mutant is: not compiling, killed by the tests, caught by checks, or silent.
"""
import json, os, re, subprocess, sys, time
OUT = '/tmp/mut'
SRC = '/repo/src'
SWAPS = [
    (' == ', [' != ']), (' != ', [' == ']), (' < ', [' <= ', ' > ']), (' <= ', [' < ']), (' > ', [' >= ', ' < ']),
    (' >= ', [' > ']), (' && ', [' || ']), (' || ', [' && ']), (' + ', [' - ']), (' - ', [' + ']), (' * ', [' + ']),
    (' += ', [' -= ']), (' -= ', [' += ']), (' | ', [' & ']), (' & ', [' | ']), (' << ', [' >> ']), (' >> ', [' << ']),
    ('.is_some()', ['.is_none()']), ('.is_none()', ['.is_some()']), ('.first()', ['.last()']), ('.last()', ['.first()']),
    ('.min(', ['.max(']), ('.max(', ['.min(']), ('trim_start', ['trim_end']), ('trim_end', ['trim_start']),
    ('..=', ['..']), ('true', ['false']), ('false', ['true']), ('.is_ok()', ['.is_err()']), ('.any(', ['.all(']),
    ('.all(', ['.any(']), ('.rev()', ['']), ('.iter()', ['.iter().rev()']), ('break', ['continue']),
    ('continue', ['break']), ('saturating_sub', ['wrapping_sub']), ('checked_', ['wrapping_']), ('Some(_)', ['None']),
    ('Direct', ['Optional']), ('Optional', ['Direct']), ('Owned', ['Borrowed']), ('Borrowed', ['Owned']),
    ('start', ['end']), ('.len()', ['.len() + 1', '.len() - 1']), ('left', ['right']), ('right', ['left']),
    ('.m.', ['.n.']), ('.n.', ['.m.']), ('begin', ['end']), ('Begin', ['End']), ('.0', ['.1']), ('.1', ['.0']),
]
SKIP = ('debug_assert', '#[', '//', 'use ', 'macro_rules', 'pub mod', 'mod ', 'unreachable!', '///')

def mask(line):
    """Blanks strings, characters and comments."""
    out, i, q = [], 0, None
    while i < len(line):
        c = line[i]
        if q:
            if c == '\\':
                out.append('\0\0'); i += 2; continue
            if c == q: q = None
            out.append('\0' if q else c)
        elif c == '"': q = '"'; out.append(c)
        elif c == "'" and re.match(r"'(\\.|[^\\'])'", line[i:]):
            m = re.match(r"'(\\.|[^\\'])'", line[i:]).group(0)
            out.append('\0' * len(m)); i += len(m); continue
        elif line.startswith('//', i):
            out.append('\0' * (len(line) - i)); break
        else: out.append(c)
        i += 1
    return ''.join(out)

def mutants():
    res = []
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, '/repo')
            if not f.endswith('.rs') or f == 'impls.rs': continue
            lines = open(p).read().split('\n')
            for n, line in enumerate(lines):
                if re.match(r'\s*#\[cfg\(test\)\]', line) and n + 1 < len(lines) and 'mod ' in lines[n + 1]: break
                t = line.strip()
                if not t or t.startswith(SKIP): continue
                m = mask(line)
                def add(new, what):
                    if new != line: res.append(dict(file=rel, line=n, old=line, new=new, what=what))
                for a, bs in SWAPS:
                    i = m.find(a)
                    while i >= 0:
                        for b in bs: add(line[:i] + b + line[i + len(a):], f'{a.strip()} to {b.strip()}')
                        i = m.find(a, i + 1)
                for x in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', m):
                    v = int(x.group(1))
                    for w in {v + 1, max(v - 1, 0)} - {v}:
                        add(line[:x.start()] + str(w) + line[x.end():], f'{v} to {w}')
                for x in re.finditer(r'(?<=[ (|&])!(?=[\w(])', m):
                    add(line[:x.start()] + line[x.end():], 'drop not')
                x = re.match(r'(\s*(?:\} else )?if )(?!let )(.*)( \{)$', line)
                if x:
                    add(f'{x[1]}true{x[3]}', 'if true'); add(f'{x[1]}false{x[3]}', 'if false')
                x = re.match(r'(.* if )(.*)( => .*)$', line)
                if x:
                    add(f'{x[1]}true{x[3]}', 'guard true'); add(f'{x[1]}false{x[3]}', 'guard false')
                if re.match(r'(self|\*|[a-z_.]+\s*[+-]?=|[a-z_.]+\.(push|insert|pop|take|clear)|return Err|write|f\.|let _ =)', t) and t.endswith(';'):
                    add('', 'delete statement')
                if re.search(r' => .*,$', m) and m.count('(') == m.count(')') and m.count('{') == m.count('}'):
                    add('', 'delete arm')
    seen, uniq = set(), []
    for r in res:
        k = (r['file'], r['line'], r['new'])
        if k not in seen: seen.add(k); uniq.append(r)
    return uniq

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.79.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR='/repo/target')
def sh(c, secs, env=ENV):
    try:
        r = subprocess.run(['timeout', '-k', '1', str(secs), 'bash', '-c', c], cwd='/repo', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return r.returncode, r.stdout
    except Exception as e:
        return -1, str(e)

def put(m):
    p = f"/repo/{m['file']}"
    text = open(p).read()
    lines = text.split('\n')
    assert lines[m['line']] == m['old']
    lines[m['line']] = m['new']
    open(p, 'w').write('\n'.join(lines))
    return p, text

def tests():
    rc, o = sh('cargo check --offline -q', 120)
    if rc: return 'does not compile'
    rc, o = sh('cargo test --offline -q --lib --tests -p upon -- --test-threads 4', 90)
    if rc: return 'killed by the tests'
    rc, o = sh('cargo test --offline -q --doc -p upon', 120)
    return 'killed by the tests' if rc else 'survives'

FIRST = {
    'src/error.rs': ['C19', 'C20'], 'src/macros.rs': ['C23'], 'src/value': ['C14', 'C17', 'C15', 'C23'], 'src/fmt.rs': ['C13', 'C16'],
    'src/compile/lex': ['C05', 'C01', 'C02', 'C11', 'C03'], 'src/compile/search': ['C11', 'C05'],
    'src/compile': ['C03', 'C02', 'C05', 'C19'], 'src/render': ['C03', 'C06', 'C09', 'C08', 'C21'], 'src/types': ['C19', 'C05'],
}
def checks(m, props, henv):
    rc, o = sh('bash /verif/build.sh', 600, henv)
    if rc: return 'harness does not build ' + o[-300:], []
    first = [x for f, q in FIRST.items() if m['file'].startswith(f) for x in q]
    last = ['C01', 'C19', 'C20', 'C23']
    order = list(dict.fromkeys(first + [q for q in props if q not in last] + last))
    for q in order:
        if q == 'C23' and 'macros' not in m['file'] and 'value' not in m['file']: continue
        rc, o = sh(f'ulimit -v 8000000; cd /verif; VT_DIR=/verif target/debug/vt check {q} --cases 20000 --secs 15 --seed 1', 400, henv)
        if rc == 1 and f'VIOLATION property={q} ' in o: return 'caught', [q]
        if rc: return 'caught', [f'{q}:{rc}']
    return 'silent', []

def each(kind, k, of, ids):
    ms = json.load(open(f'{OUT}/mutants.json'))
    read = lambda f: [json.loads(l) for l in open(f)] if os.path.exists(f) else []
    path = f'{OUT}/{kind}.{k}'
    done = {r['id'] for r in read(path)}
    todo = [(i, m) for i, m in enumerate(ms)]
    if kind == 'out':
        alive = {r['id'] for f in os.listdir(OUT) if f.startswith('tests.') for r in read(f'{OUT}/{f}') if r['res'] == 'survives'}
        todo = [(i, m) for i, m in todo if i in alive]
    props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
    henv = {x: v for x, v in ENV.items() if x != 'CARGO_TARGET_DIR'}
    henv['VERIF_SEED'] = '1'
    for n, (i, m) in enumerate(todo):
        if n % of != k or i in done or (ids and i not in ids): continue
        p, text = put(m)
        try:
            res, hit = (tests(), []) if kind == 'tests' else checks(m, props, henv)
        finally:
            open(p, 'w').write(text)
        with open(path, 'a') as f:
            f.write(json.dumps(dict(id=i, res=res, hit=hit, **m)) + '\n')

os.makedirs(OUT, exist_ok=True)
if sys.argv[1] == 'list':
    ms = mutants()
    json.dump(ms, open(f'{OUT}/mutants.json', 'w'), indent=0)
    from collections import Counter
    print(len(ms), Counter(m['file'] for m in ms))
else:
    each('tests' if sys.argv[1] == 'tests' else 'out', int(sys.argv[2]), int(sys.argv[3]), {int(x) for x in sys.argv[4:]})
