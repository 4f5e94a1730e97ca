#!/usr/bin/env python3
"""Mutation testing of the checks: plants small mechanical changes in a scratch
copy of /repo and reports which of them no check notices.

    mutate.py OUT SEED COUNT [WORKER] [FILE-REGEX]

Works in /tmp/mutate.WORKER only; /repo is read, never written. Survivors are
appended to OUT as JSON lines and have to be judged by hand (equivalent,
outside every property, or a gap in a check).
"""
import json, os, random, re, subprocess, sys, time

OUT, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
W = sys.argv[4] if len(sys.argv) > 4 else '0'
FILES = re.compile(sys.argv[5] if len(sys.argv) > 5 else r'src/(sim.*|asm.*|ast.*|parse.*|err|lib)\.rs|src/os\.asm')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = f'/tmp/mutate.{W}'
RUNS = int(os.environ.get('MUT_RUNS', '3000'))
HEAVY = {'C31': 0.4, 'C13': 0.5, 'C32': 2, 'C34': 2, 'C19': 2, 'C08': 2}
IDS = ['C08', 'C27', 'C28', 'C32', 'C34', 'C30', 'C29', 'C20', 'C17', 'C18', 'C22', 'C21', 'C11', 'C13', 'C14', 'C33', 'C10', 'C12', 'C16', 'C19', 'C09', 'C31', 'C15', 'C01', 'C02', 'C03', 'C04', 'C05', 'C23', 'C24', 'C25', 'C26', 'C36']
SRC = ['C01', 'C02', 'C03', 'C04', 'C05', 'C25', 'C36', 'C23', 'C24', 'C26', 'C20', 'C17', 'C18', 'C22', 'C21', 'C19', 'C29', 'C15']

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def setup():
    os.makedirs(S, exist_ok=True)
    sh(f'rsync -a --delete --exclude target --exclude .git /repo/ {S}/repo/ || (rm -rf {S}/repo && cp -a /repo {S}/repo)')
    sh(f'mkdir -p {S}/dst {S}/root/evidence {S}/root/replays; cp -a {V}/dst/src {V}/dst/Cargo.toml {V}/dst/Cargo.lock {V}/dst/build.rs {S}/dst/ 2>/dev/null; cp {V}/known-findings.txt {S}/root/')
    sh(f"sed -i 's#path = \"/repo\"#path = \"{S}/repo\"#' {S}/dst/Cargo.toml")

RUST = [
    (r' == ', [' != ']), (r' != ', [' == ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
    (r' < ', [' <= ', ' >= ']), (r' > ', [' >= ', ' <= ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \+= ', [' -= ']), (r'\bwrapping_add\b', ['wrapping_sub', 'saturating_add']),
    (r'\bwrapping_sub\b', ['wrapping_add', 'saturating_sub']), (r'\bsaturating_sub\b', ['wrapping_sub']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'!(?=[a-z(])', ['']), (r'\.\.=', ['..']),
    (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_ok\(\)', ['.is_err()']), (r'\.is_err\(\)', ['.is_ok()']),
    (r'\bany\(', ['all(']), (r'\ball\(', ['any(']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r' & ', [' | ']), (r' \| ', [' & ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r'\.get\(\)', []), (r'\bbreak\b', ['continue']),
    (r'\bfirst\(', ['last(']), (r'\blast\(', ['first(']), (r'\?;', [';']), (r'\bR([0-7])\b', ['R0', 'R7', 'R6']),
    (r'\bget_or_insert', []), (r'\binsert\(', ['remove(']),
]
def numbers(line):
    out = []
    for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f_]+|0b[01_]+|\d+)(?![\w.])', line):
        t = m.group(1)
        try:
            v = int(t.replace('_', ''), 0)
        except ValueError:
            continue
        for n in {v + 1, v - 1} - {-1}:
            s = f'0x{n:04X}' if t.startswith('0x') else (bin(n) if t.startswith('0b') else str(n))
            out.append(line[:m.start(1)] + s + line[m.end(1):])
    return out

def rust_mutants(path, text):
    lines = text.split('\n')
    stop = next((i for i, l in enumerate(lines) if '#[cfg(test)]' in l), len(lines))
    for i, l in enumerate(lines[:stop]):
        s = l.strip()
        if not s or s.startswith('//') or s.startswith('#[') or s.startswith('use ') or '"' in s and ('f.write' in s or 'write!' in s or 'expect(' in s or 'panic' in s):
            continue
        code = l.split('//')[0]
        for pat, reps in RUST:
            for m in re.finditer(pat, code):
                for r in reps:
                    yield i, l[:m.start()] + r + l[m.end():]
        for n in numbers(code):
            yield i, n
        if s.endswith(';') and not re.match(r'(let|pub|use|const|type|static|fn|return|break|continue|\}|impl|macro)', s) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
            if re.match(r'[\w.\[\]:*&]+(\(|\s*[-+|&^]?=[^=])', s):
                yield i, re.match(r'\s*', l).group() + '();'
        m = re.match(r'(\s*)return Err\(.*\);$', l)
        if m:
            yield i, m.group(1) + '();'
        m = re.match(r'(\s*)if (.*) \{$', l)
        if m and ' let ' not in l:
            yield i, f'{m.group(1)}if ({m.group(2)}) && false {{'
            yield i, f'{m.group(1)}if ({m.group(2)}) || true {{'

def asm_mutants(path, text):
    for i, l in enumerate(text.split('\n')):
        code = l.split(';')[0]
        s = code.strip()
        if not s or s.startswith('.') or s.endswith(':'):
            continue
        for m in re.finditer(r'\bR([0-7])\b', code):
            for r in range(8):
                if r != int(m.group(1)):
                    yield i, l[:m.start()] + f'R{r}' + l[m.end():]
        for m in re.finditer(r'\bBR(n?z?p?)\b', code):
            for r in ['n', 'z', 'p', 'nz', 'np', 'zp', 'nzp']:
                if r != m.group(1):
                    yield i, l[:m.start()] + 'BR' + r + l[m.end():]
        for m in re.finditer(r'#(-?\d+)', code):
            for d in (1, -1):
                yield i, l[:m.start()] + f'#{int(m.group(1)) + d}' + l[m.end():]
        yield i, re.sub(r'\S.*', 'AND R0, R0, R0' if False else 'NOP', code, count=1)
        for a, b in [('LDI', 'LD'), ('LD ', 'LEA '), ('ADD', 'AND'), ('AND', 'ADD'), ('STI', 'ST'), ('LDR', 'STR'), ('NOT', 'NOT')]:
            if a in code and a != b:
                yield i, l.replace(a, b, 1)

def all_mutants():
    out = []
    for d, _, fs in os.walk(f'{S}/repo/src'):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, f'{S}/repo')
            if not FILES.fullmatch(rel):
                continue
            t = open(p).read()
            g = asm_mutants if f.endswith('.asm') else rust_mutants
            for i, new in g(rel, t):
                if new != t.split('\n')[i]:
                    out.append((rel, i, new))
    out.sort()
    return out

def main():
    setup()
    ms = all_mutants()
    random.Random(SEED).shuffle(ms)
    print(f'{len(ms)} mutants', flush=True)
    env = dict(os.environ, CARGO_PROFILE_RELEASE_INCREMENTAL='true', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='64', CARGO_NET_OFFLINE='true')
    stats = {}
    lo = int(os.environ.get('MUT_FROM', '0'))
    for k, (rel, i, new) in enumerate(ms[lo:lo + COUNT]):
        p = f'{S}/repo/{rel}'
        text = open(p).read()
        lines = text.split('\n')
        old = lines[i]
        lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        try:
            t0 = time.time()
            b = subprocess.run('cargo build --release --offline -q', shell=True, cwd=f'{S}/dst', env=env, capture_output=True, text=True)
            if b.returncode:
                res = 'nobuild'
            else:
                res = 'SURVIVED'
                ids = IDS[:]
                if not rel.endswith('.asm') and not rel.startswith('src/sim'):
                    ids = SRC
                elif rel == 'src/sim/mem.rs':
                    ids = ['C15'] + [x for x in ids if x != 'C15']
                if rel.endswith('.asm'):
                    ids = ['C11', 'C12', 'C33'] + [x for x in ids if x not in ('C11', 'C12', 'C33')]
                for x in ids:
                    e = dict(os.environ, DST_ROOT=f'{S}/root', DST_RUNS=str(int(RUNS * HEAVY.get(x, 1))), DST_SHRINK_S='0', VERIF_SEED='1', DST_BUDGET_S='30', DST_WORKERS=os.environ.get('MUT_WORKERS', '4'), DST_RUN_TIMEOUT_MS='8000')
                    try:
                        r = subprocess.run([f'{S}/dst/target/release/dst', 'check', x], env=e, capture_output=True, text=True, timeout=120)
                    except subprocess.TimeoutExpired:
                        continue
                    if r.returncode == 1:
                        res = x
                        break
                    if r.returncode not in (0, 1):
                        res = f'{x}:rc{r.returncode}'
            stats[res] = stats.get(res, 0) + 1
            if res == 'SURVIVED' or 'rc' in res:
                with open(OUT, 'a') as f:
                    f.write(json.dumps({'k': lo + k, 'file': rel, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'res': res}) + '\n')
            print(f'{lo + k} {rel}:{i + 1} {res} {time.time() - t0:.0f}s', flush=True)
        finally:
            open(p, 'w').write(text)
    print(stats)

main()
