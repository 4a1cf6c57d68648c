#!/usr/bin/env python3
"""Plants small mechanical changes in scratch copies of /repo, keeps those that
compile and pass the stable tests, and says which checks see them.

    mutate.py OUT.jsonl [--files a.rs,b.rs] [--jobs 8] [--part I/N] [--frac 0.05]

Everything happens under /tmp/mut; /repo and /verif are only read."""
import json, os, re, resource, subprocess, sys, shutil, threading, queue, random

args = sys.argv[1:]
def opt(name, d):
    return args[args.index(name) + 1] if name in args else d
OUT = args[0]
JOBS = int(opt('--jobs', '8'))
FRAC = float(opt('--frac', '0.05'))
FILES = opt('--files', 'parser.rs,string.rs,value.rs,doc.rs,number.rs,anystr.rs,error.rs').split(',')
PART = opt('--part', '0/1').split('/')
SEED = opt('--seed', '1')
BASE = '/tmp/mut'
PROPS = ['C04', 'C11', 'C05', 'C01', 'C03', 'C10', 'C08', 'C09', 'C02', 'C12', 'C07', 'C13', 'C06']
RUNS = {}
for l in open('/verif/sim/src/props.rs'):
    m = re.search(r'id: "(C\d+)"', l)
    if m: cur = m.group(1)
    m = re.search(r'quick_runs: ([\d_]+)', l)
    if m: RUNS[cur] = int(m.group(1).replace('_', ''))

SUBST = [
    (r'==', ['!=']), (r'!=', ['==']),
    (r'(?<![<=\-])<=', ['<', '==']), (r'(?<![>=\-])>=', ['>', '==']),
    (r' < ', [' <= ', ' != ']), (r' > ', [' >= ', ' != ']),
    (r'&&', ['||']), (r'\|\|(?! )|(?<= )\|\|(?= )', ['&&']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\+=', ['-=']), (r'-=', ['+=']),
    (r' \* ', [' + ']), (r'<<', ['>>']), (r'>>', ['<<']), (r' \| ', [' & ']), (r' & ', [' | ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'\b0x[0-9a-fA-F_]+\b', ['N']), (r'(?<![\w.])\d+(?![\w.])', ['N']),
    (r'\.\.=', ['..']), (r'if !', ['if ']), (r'\bif (?!let)', ['if !']),
    (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
    (r'\bSome\(([^()]+)\)$', ['None']),
    (r"b'(.)'", ['B']), (r"(?<!b)'([^'\\])'", ['C']),
    (r'\.saturating_sub\(', ['.wrapping_sub(']),
    (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r'ErrorKind::(\w+)', ['E']),
    (r'\bOrdering::Less\b', ['Ordering::Greater', 'Ordering::Equal']), (r'\bOrdering::Greater\b', ['Ordering::Less', 'Ordering::Equal']), (r'\bOrdering::Equal\b', ['Ordering::Less']),
    (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
    (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']),
    (r'\.rev\(\)', ['']), (r'\bu32\b', ['u16']), (r'\busize\b', ['u8']),
]
KINDS = ['ExpectedColon', 'UnexpectedEof', 'ExpectedValue', 'InvalidEscape', 'TrailingComma', 'ExpectedEof']

def mutants(name):
    src = open(f'/repo/src/{name}').read().split('\n')
    intest = False
    for i, line in enumerate(src):
        s = line.strip()
        if s.startswith(('#[cfg(test)]', '#[test]')): intest = True
        if intest and line == '}': intest = False; continue
        if intest or s.startswith(('//', '#', 'use ', 'pub use', 'mod ')) or not s: continue
        code = re.sub(r' // .*', '', line)
        def put(new, what):
            if new != line: yield_.append((i, new, what))
        yield_ = []
        for pat, reps in SUBST:
            for m in re.finditer(pat, code):
                for r in reps:
                    if r == 'N':
                        t = m.group(0).replace('_', '')
                        v = int(t, 16) if t.startswith('0x') else int(t)
                        alts = [str(v + 1)] + ([str(v - 1)] if v > 0 else [])
                    elif r == 'B':
                        c = ord(m.group(1)); alts = [str(c + 1) + ' ', str(c - 1) + ' ']
                        alts = ["b'\\x%02x'" % (c + 1), "b'\\x%02x'" % (c - 1)]
                    elif r == 'C':
                        c = ord(m.group(1)); alts = ["'\\u{%x}'" % (c + 1), "'\\u{%x}'" % (c - 1)]
                    elif r == 'E':
                        alts = ['ErrorKind::' + k for k in random.Random(i).sample([k for k in KINDS if k != m.group(1)], 1)]
                    else:
                        alts = [r]
                    for a in alts:
                        put(code[:m.start()] + a + code[m.end():], f'{m.group(0)} -> {a}')
        # a statement left out
        if s.endswith(';') and not s.startswith(('let ', 'return', 'type ', 'const ', 'static ', 'fn ', 'pub ', '}', ')')) and s.count('(') == s.count(')'):
            put(code.replace(s, '{}'), 'left out: ' + s)
        # a single-line match arm left out
        if re.match(r"^[^=]*=> .*,$", s) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
            put(code.replace(s, ''), 'arm left out: ' + s)
        # one alternative of a pattern left out
        for m in re.finditer(r"(b?'(?:\\.|[^'])+'(?:\.\.=b?'(?:\\.|[^'])+')?) \| ", code):
            put(code[:m.start()] + code[m.end():], 'alternative left out: ' + m.group(1))
        seen = set()
        for y in yield_:
            if y[1] not in seen:
                seen.add(y[1]); yield (name,) + y

# --gated: the same places, but wrong only in a special situation
GATES = {
    'parser.rs': ['self.source.offset > 300', 'self.source.offset % 64 == 63', 'self.source.offset == self.source.bytes.len()',
                  'self.offset % 64 == 63', 'self.offset > 300', 'self.tokenizer.source.offset > 300', 'state.remaining_depth == 120',
                  'self.tokenizer.source.offset % 64 == 63', 'self.remaining_depth == 120'],
    'string.rs': ['self.info.expected_length() > 200', 'self.info.expected_length() % 16 == 15', 'self.chars.as_str().len() % 64 == 5',
                  'self.chars.as_str().len() > 300', 'self.chars.size_hint().0 % 16 == 5', 'value.len() % 16 == 15', 'value.len() > 300'],
    'value.rs': ['self.level == 5', 'state.level == 5', 'state.level == 2 && state.is_at_line_start', 'self.len() > 20', 'self.0.len() > 20', 'index == 20',
                 'obj.0.len() == 7', 'object.len() == 9', 'array.len() == 9'],
    'doc.rs': ['self.nodes.len() % 32 == 3', 'self.nodes.len() > 100', 'self.collection.as_ref().len() > 60',
               'self.collection.as_ref().len() % 16 == 15', 'len == 6', 'index % 16 == 15', '*len == 6'],
    'number.rs': ['self.source.len() > 18', 'self.source.len() % 8 == 7'],
    'anystr.rs': ['self.as_str().len() > 200', 'self.as_str().len() % 16 == 15'],
    'error.rs': ['self.offset > 300', 'self.offset % 16 == 15'],
}

def gated(name):
    src = open(f'/repo/src/{name}').read().split('\n')
    intest = False
    for i, line in enumerate(src):
        s = line.strip()
        if s.startswith(('#[cfg(test)]', '#[test]')): intest = True
        if intest and line == '}': intest = False; continue
        if intest or s.startswith(('//', '#', 'use ', 'pub use', 'mod ')) or not s: continue
        code = re.sub(r' // .*', '', line)
        for g in GATES.get(name, []):
            m = re.match(r'^(\s*(?:\} else )?if )(?!let)(.*)( \{)$', code)
            if m: yield name, i, f'{m[1]}({m[2]}) != ({g}){m[3]}', f'if, {g}'
            if s.endswith(';') and not s.startswith(('let ', 'type ', 'const ', 'static ', 'fn ', 'pub ', '}', ')')) and s.count('(') == s.count(')'):
                yield name, i, code.replace(s, f'if !({g}) {{ {s} }}'), f'left out, {g}'
            m = re.match(r'^([^=]*[^=\s])( => .*)$', code)
            if m and ' if ' not in m[1]: yield name, i, f'{m[1]} if !({g}){m[2]}', f'arm, {g}'
            m = re.match(r'^(\s*)(self|Some|Ok|Err|Ordering|a|b|other|left|right)\b(.*)$', code)
            if m and not s.endswith((';', ',', '{')) and s.count('(') == s.count(')'):
                yield name, i, f'{m[1]}if {g} {{ core::hint::black_box(Default::default()) }} else {{ {s} }}', f'default, {g}'
            m = re.search(r'(add_bytes\w*|expected_length|skip|take|with_capacity)\(([^()]+)\)', code)
            if m: yield name, i, code[:m.start(2)] + f'{m[2]} + usize::from({g})' + code[m.end(2):], f'one more, {g}'
            m = re.search(r'(offset|start) ([+]) (\d+)', code)
            if m: yield name, i, code[:m.start()] + f'{m[1]} + {m[3]} + usize::from({g})' + code[m.end():], f'one more, {g}'

STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

class Worker:
    def __init__(self, n):
        self.dir = f'{BASE}/w{n}'
        self.repo = self.dir + '/repo'
        os.makedirs(self.dir, exist_ok=True)
        subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', self.repo + '/'], check=True) if shutil.which('rsync') else (
            shutil.rmtree(self.repo, ignore_errors=True), shutil.copytree('/repo', self.repo, symlinks=True, ignore=shutil.ignore_patterns('target')))
        t = open(self.repo + '/Cargo.toml').read()
        open(self.repo + '/Cargo.toml', 'w').write(re.sub(r'members = \[[^]]*\]', 'members = []', t))
        self.sim = self.dir + '/sim'
        shutil.rmtree(self.sim, ignore_errors=True)
        shutil.copytree('/verif/sim', self.sim, ignore=shutil.ignore_patterns('target'))
        t = open(self.sim + '/Cargo.toml').read().replace('path = "/repo"', f'path = "{self.repo}"')
        open(self.sim + '/Cargo.toml', 'w').write(t)
        self.v = self.dir + '/v'
        os.makedirs(self.v + '/evidence', exist_ok=True)
        shutil.copy('/verif/known_findings.txt', self.v)
        self.env = dict(os.environ, RUSTC_BOOTSTRAP='1', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_BUILD_JOBS='1')

    def run(self, cmd, cwd, timeout, target):
        env = dict(self.env, CARGO_TARGET_DIR=self.dir + '/' + target)
        try:
            p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True,
                                 preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))) if target == 'tt' else None)
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o.decode(errors='replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate()
            return -99, 'timeout'

    def one(self, mu):
        name, i, new, what = mu
        path = f'{self.repo}/src/{name}'
        orig = open(f'/repo/src/{name}').read()
        lines = orig.split('\n'); old = lines[i]; lines[i] = new
        open(path, 'w').write('\n'.join(lines))
        res = dict(file=name, line=i + 1, old=old.strip(), new=new.strip(), what=what)
        try:
            env_t = 'tt'
            rc, o = self.run(['cargo', 'check', '--lib', '--offline', '--features', 'heapless'], self.repo, 120, env_t)
            if rc: res['status'] = 'no compile'; return res
            rc, o = self.run(['cargo', 'test', '--lib', '--offline', '--features', 'heapless', '--', '--test-threads', '2'], self.repo, 60, env_t)
            if rc: res['status'] = 'tests'; return res
            rc, o = self.run(['cargo', 'test', '--tests', '--examples', '--offline', '--features', 'heapless', '--no-fail-fast', '--', '--test-threads', '2'], self.repo, 90, env_t)
            if rc: res['status'] = 'tests'; return res
            rc, o = self.run(['cargo', 'test', '--doc', '--offline', '--features', 'heapless', '--', '--test-threads', '2'], self.repo, 90, env_t)
            if rc: res['status'] = 'tests'; return res
            res['status'] = 'survived'; res['caught'] = []
            rc, o = self.run(['./cargo.sh', 'build', 'release'], self.sim, 600, 'ts')
            sim = {'release': o.strip().split('\n')[-1]}
            if rc: res['status'] = 'sim build'; res['log'] = o[-1500:]; return res
            built = False
            for p in PROPS:
                prof = 'stepped' if p in ('C06', 'C13') else 'release'
                if prof == 'stepped' and not built:
                    rc, o = self.run(['./cargo.sh', 'build', 'stepped'], self.sim, 900, 'ts')
                    sim['stepped'] = o.strip().split('\n')[-1]
                    if rc: res['log'] = o[-1500:]; break
                    built = True
                rc, o = self.run([sim[prof], 'check', p, '--seed', SEED, '--tier', 'quick', '--workers', '1', '--verif', self.v,
                                  '--runs', str(max(400, int(RUNS[p] * FRAC)))], self.sim, 400, 'ts')
                if rc == 1 and 'VIOLATION' in o:
                    res['caught'].append(p)
                    if '--all' not in args: break
                elif rc:
                    res.setdefault('odd', []).append((p, rc, o[-300:]))
            return res
        finally:
            open(path, 'w').write(orig)

todo = [m for f in FILES for m in (gated if '--gated' in args else mutants)(f)]
a, n = int(PART[0]), int(PART[1])
todo = todo[a::n]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r['file'], r['line'], r['new']))
todo = [m for m in todo if (m[0], m[1] + 1, m[2].strip()) not in done]
print(len(todo), 'changes', flush=True)
if '--list' in args: sys.exit()
random.Random(5).shuffle(todo)
q = queue.Queue()
for m in todo: q.put(m)
lock = threading.Lock()
out = open(OUT, 'a')
def work(k):
    w = Worker(k)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        try: r = w.one(m)
        except Exception as e: r = dict(file=m[0], line=m[1] + 1, new=m[2].strip(), status='error', log=repr(e))
        with lock:
            out.write(json.dumps(r) + '\n'); out.flush()
            if r.get('caught') == []: print('NOT SEEN', r['file'], r['line'], r['old'], '=>', r['new'], r.get('odd', ''), flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(JOBS)]
[t.start() for t in ts]; [t.join() for t in ts]
