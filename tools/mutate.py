#!/usr/bin/env python3
"""Mutation runs: how many small changes that compile and pass the tests do the checks see?

  mutate.py OUT.jsonl [--workers 8] [--max N] [--seed S] [--files tokenizer,... --shards K --scale X --skip P23,...]

Works on copies of /repo under /tmp/mut.*, never on /repo itself. Not part of any check.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('--workers', type=int, default=8); ap.add_argument('--max', type=int, default=0); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--files', default='')
ap.add_argument('--again', default='', help='run the surviving mutants of this result file again')
ap.add_argument('--guarded', action='store_true', help='changes that take effect in a rare state only')
ap.add_argument('--all', action='store_true', help='run every check and say which of them report')
ap.add_argument('--shards', default='8'); ap.add_argument('--scale', default='0.5'); ap.add_argument('--skip', default='P23,P20,P24')
A = ap.parse_args()
ORDER = ['P17', 'P16', 'P15', 'P11', 'P12', 'P13', 'P14', 'P26', 'P18', 'P06', 'P02', 'P03', 'P04', 'P05', 'P07', 'P08', 'P09', 'P10', 'P22', 'P25', 'P27', 'P19', 'P21', 'P20', 'P23', 'P28', 'P29', 'P01', 'P24']


def code(path):
    t = open(path, encoding='utf8').read()
    i = t.find('#[cfg(test)]')
    return t[:i] if i >= 0 else t, t


TOKENS = re.findall(r'^\s+(Py\w+|Atom\w+|Newline|Indent|Dedent|EOF|TypeComment)\s*\(([^)]*)', open('/repo/src/parser/tokens.rs').read(), re.M)


def sites(f, t):
    out = []

    def sub(m, new, why):
        out.append((f, m.start(), m.end(), new, why))
    for m in re.finditer(r'self\.advance\(\);', t):
        sub(m, '', 'no advance'); sub(m, 'self.advance(); self.advance();', 'advance twice')
    for m in re.finditer(r'let _ = self\.source_buffer\.advance\(\);', t):
        sub(m, '', 'no advance'); sub(m, 'self.source_buffer.advance(); self.source_buffer.advance();', 'advance twice')
    for m in re.finditer(r'\b(\w+)\.reverse\(\);', t): sub(m, '', 'no reverse')
    for m in re.finditer(r'\b[\w.]+\.push\([^;]*\);', t): sub(m, '', 'no push')
    for m in re.finditer(r'\b[\w.]+\.pop\(\);', t): sub(m, '', 'no pop')
    for m in re.finditer(r'\btrue\b', t): sub(m, 'false', 'true->false')
    for m in re.finditer(r'\bfalse\b', t): sub(m, 'true', 'false->true')
    for a, b in (('==', '!='), ('!=', '=='), ('>=', '>'), ('<=', '<'), ('&&', '||'), ('||', '&&')):
        for m in re.finditer(r'(?<=\s)' + re.escape(a) + r'(?=\s)', t): sub(m, b, a + '->' + b)
    for m in re.finditer(r'(?<=\s)<(?=\s)', t): sub(m, '<=', '<->=')
    for m in re.finditer(r'(?<=\s)>(?=\s)', t): sub(m, '>=', '>->=')
    for m in re.finditer(r'(?<![\w.\'"])(\d+)(?=u32|i32|\b)(?![\w.]*\')', t):
        n = int(m.group(1))
        sub(m, str(n + 1), 'n+1')
        if n: sub(m, str(n - 1), 'n-1')
    for m in re.finditer(r'\|\s*(?:Ok\s*\(\s*)?Token::\w+\(\s*\.\.\s*\)\)?', t): sub(m, '', 'alternative removed')
    for m in re.finditer(r'Token::(\w+)\(\s*\.\.\s*\)', t):
        sub(m, 'Token::%s( .. )' % rng.choice([x[0] for x in TOKENS if x[0] != m.group(1)]), 'other token')
    for m in re.finditer(r"'[^'\\\n]'\s*\|", t): sub(m, '', 'char alternative removed')
    for m in re.finditer(r"'([^'\\\n])'", t): sub(m, "'%s'" % rng.choice('abe019_.+x =!<>'), 'other char')
    for m in re.finditer(r'\bself\.parse_(\w+)\(\)', t):
        same = [x for x in RULES if x != m.group(1)]
        sub(m, 'self.parse_%s()' % rng.choice(same), 'other rule')
    for m in re.finditer(r'\bASTNode::(\w+)\(', t):
        same = [x for x, n in NODES.items() if n == NODES.get(m.group(1)) and x != m.group(1)]
        if same: sub(m, 'ASTNode::%s(' % rng.choice(same), 'other node')
    for m in re.finditer(r'\bbreak\b', t): sub(m, 'continue', 'break->continue')
    for m in re.finditer(r'\bcontinue\b', t): sub(m, 'break', 'continue->break')
    for m in re.finditer(r'\bNone\b', t): pass
    for m in re.finditer(r'\bSome\(\s*(\w+)\s*\)', t): sub(m, 'None', 'Some->None')
    for m in re.finditer(r'\b(start|start_pos)\b(?=,)', t): sub(m, 'self.lexer.get_position()', 'start->end')
    for m in re.finditer(r'self\.lexer\.get_position\(\)(?=,)', t): sub(m, 'start_pos', 'end->start')
    for m in re.finditer(r'\breturn Err\([^;]*\);?', t): sub(m, '', 'no error')
    # a whole match arm that reports an error becomes unreachable by swapping neighbours of a call's arguments
    for m in re.finditer(r'\((\w+), (\w+)\)', t): sub(m, '(%s, %s)' % (m.group(2), m.group(1)), 'swapped')
    for m in re.finditer(r'\b(left|right|symbol\w*|node\w*|elements|separators|nodes), (left|right|symbol\w*|node\w*|elements|separators|nodes)\b', t): sub(m, '%s, %s' % (m.group(2), m.group(1)), 'swapped')
    for m in re.finditer(r'(?m)^\s+if [^{]+\{', t):
        s = m.group(0); i = s.index('if ')
        sub(m, s[:i] + 'if false && ' + s[i + 3:] if '||' not in s and 'let ' not in s else s, 'condition false')
        sub(m, s[:i] + 'if true || ' + s[i + 3:] if '&&' not in s and 'let ' not in s else s, 'condition true')
    return [x for x in out if t[x[1]:x[2]] != x[3]]


def guarded(f, t):
    """The same kinds of changes, each under a condition that is rarely true."""
    out = []
    tk = f == 'tokenizer.rs'
    names = [x[0] for x in TOKENS]

    def guard(m):
        c = []
        around = t[max(0, m.start() - 1500):m.start()]
        if tk:
            c += ['self.source_buffer.get_position() > %d' % rng.choice([70, 300, 1100, 5000]), 'self.parenthesis.len() > %d' % rng.choice([1, 2, 4]), 'self.indent_stack.len() > %d' % rng.choice([2, 3, 5])]
            c += ["self.source_buffer.get_char() == %s" % rng.choice(["'\\n'", "'\\r'", "'#'", "' '", "'\\t'", "'_'", "'\\\\'", "'('", "')'", "'\\''", "'\"'", "'0'", "'9'", "'e'", "'j'", "'.'", "','", "'='", "':'", "'\\0'"]) for _ in range(3)]
            c += ['!self.source_buffer.get_char().is_ascii()', 'self.is_line_open', '!self.is_line_open', "self.source_buffer.peek_three_chars().1 == %s" % rng.choice(["'\\n'", "'#'", "' '", "'_'", "'.'", "'\\\\'", "'0'", "'='", "'\\0'"])]
            if 'trivia_collector' in around: c += ['trivia_collector.len() %s' % rng.choice(['> 0', '> 1', '> 3', '> 8', '== 2'])] * 2
            if re.search(r'\bbuffer\b', around): c += ['buffer.len() %s' % rng.choice(['> 3', '> 8', '> 30', '== 2', '== 5'])] * 2
        else:
            c += ['matches!(self.symbol.as_deref(), Ok(Token::%s( .. )))' % rng.choice(names) for _ in range(6)] + ['self.symbol.is_err()']
            c += ['self.lexer.get_position() > %d' % rng.choice([70, 300, 1100, 5000])]
            if 'start_pos' in around: c += ['self.lexer.get_position() - start_pos > %d' % rng.choice([25, 90, 400]), 'start_pos == 0']
            if re.search(r'\b(start)\b', around): c += ['self.lexer.get_position() - start > %d' % rng.choice([25, 90, 400])]
            vs = sorted(set(re.findall(r'let mut (\w+)\s*:\s*(?:Box<)?Vec', around)))
            c += ['%s.len() %s' % (v, rng.choice(['== 2', '== 3', '== 5', '> 4', '> 7', '> 20'])) for v in vs] * 2
            c += ['matches!(self.except_status, crate::parser::parser::ET::%s)' % rng.choice(['Except', 'ExceptMul'])]
        return rng.choice(c)

    def sub(m, new, why): out.append((f, m.start(), m.end(), new, why))
    for m in re.finditer(r'let _ = (?:&)?self\.(?:source_buffer\.)?advance\(\);|\b\w+\.reverse\(\);|\b[\w.]+\.push\([^;]*\);|\b[\w.]+\.pop\(\);|\breturn Err\([^;]*\);|(?m:^\s+self\.\w+ [-+]?= [^;]*;)', t):
        s = m.group(0).strip()
        g = guard(m)
        sub(m, 'if !(%s) { %s }' % (g, s), 'guarded: left out')
        if 'advance' in s or 'push' in s: 
            g = guard(m); sub(m, '%s if %s { %s }' % (s, g, s), 'guarded: twice') if 'push' not in s else None
    for m in re.finditer(r'\btrue\b', t): sub(m, '!(%s)' % guard(m), 'guarded true')
    for m in re.finditer(r'\bfalse\b', t): sub(m, '(%s)' % guard(m), 'guarded false')
    for m in re.finditer(r'(Token::\w+\(\s*\.\.\s*\)\)?)(\s*=>)', t): sub(m, m.group(1) + ' if !(%s)' % guard(m) + m.group(2), 'guarded arm')
    for m in re.finditer(r"('[^'\n]+'\s*(?:, _ , _ \))?)(\s*=>)", t): sub(m, m.group(1) + ' if !(%s)' % guard(m) + m.group(2), 'guarded arm')
    for m in re.finditer(r'self\.parse_(\w+)\(\)', t): sub(m, '(if %s { self.parse_%s() } else { self.parse_%s() })' % (guard(m), rng.choice([x for x in RULES if x.split('_')[0] == m.group(1).split('_')[0]]), m.group(1)), 'guarded rule')
    for m in re.finditer(r'\bstart_pos\b(?=,)', t): sub(m, '(if %s { self.lexer.get_position() } else { start_pos })' % guard(m), 'guarded start')
    for m in re.finditer(r'self\.lexer\.get_position\(\)(?=,)', t): sub(m, '(if %s { start_pos } else { self.lexer.get_position() })' % guard(m), 'guarded end')
    for m in re.finditer(r'\bSome\(\s*(\w+)\s*\)(?=[,;)])', t): sub(m, '(if %s { None } else { %s })' % (guard(m), m.group(0)), 'guarded none')
    for m in re.finditer(r'(?<=[\s(])(start|end|self\.source_buffer\.get_position\(\)|self\.token_start_position)(?=,)', t) if tk else (): sub(m, '(if %s { %s + 1 } else { %s })' % (guard(m), m.group(1), m.group(1)), 'guarded position')
    return out


rng = random.Random(A.seed)
HARNESS = '/tmp/mut.harness'  # as it is now, whatever is edited meanwhile
shutil.rmtree('/tmp/mut.harness', ignore_errors=True)
shutil.copytree(VERIF + '/harness', '/tmp/mut.harness')
src = '/repo/src/parser'
nodes = open(src + '/nodes.rs').read()
NODES = {m.group(1): m.group(2).count('Box') for m in re.finditer(r'^\s+(\w+)\((.*)\),?$', nodes, re.M)}
files = {}
RULES = sorted({m.group(1) for f in os.listdir(src) for m in re.finditer(r'fn parse_(\w+)\(&mut self\) -> Result<Box<ASTNode>', code(os.path.join(src, f))[0])})
work = []
for f in sorted(os.listdir(src)):
    if f in ('nodes.rs', 'tokens.rs', 'trivias.rs') or (A.files and f[:-3] not in A.files.split(',')): continue
    c, t = code(os.path.join(src, f))
    files[f] = t
    work += (guarded if A.guarded else sites)(f, c)
if A.again:
    work = [tuple(json.loads(l)['mutant']) for l in open(A.again) if json.loads(l)['result'] == 'survived']
rng.shuffle(work)
if A.max: work = work[:A.max]
print(len(work), 'mutants', flush=True)
q = queue.Queue()
for w in work: q.put(w)
lock = threading.Lock()
out = open(A.out, 'a')
stats = {}


def sh(cmd, cwd, env=None, timeout=60):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors='replace', preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (8 << 30, 8 << 30)))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return None, ''


def worker(k):
    d = f'/tmp/mut.{k}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('src', 'Cargo.toml', 'Cargo.lock'):
        (shutil.copytree if os.path.isdir('/repo/' + x) else shutil.copy)('/repo/' + x, f'{d}/{x}')
    os.makedirs(d + '/gen')
    subprocess.run([sys.executable, VERIF + '/tools/gen_adapter.py', '/repo', d + '/gen/adapter.rs'], check=True)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_BUILD_JOBS='1')
    venv = dict(env, RUSTFLAGS='--cfg pcr_verif -Awarnings', PCR_VERIF_DIR=HARNESS, PCR_VERIF_GEN=d + '/gen', CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='0')
    env['RUSTFLAGS'] = '-Awarnings'; env['CARGO_PROFILE_TEST_DEBUG'] = '0'
    while True:
        try: f, a, b, new, why = q.get_nowait()
        except queue.Empty: break
        t = files[f]
        m = t[:a] + new + t[b:]
        p = f'{d}/src/parser/{f}'
        open(p, 'w', encoding='utf8').write(m)
        line = t.count('\n', 0, a) + 1
        t0 = time.time()

        def judge():
            rc, o = sh(['cargo', 'test', '--offline', '--target-dir', d + '/t1', '-q', '--no-run'], d, env)
            if rc != 0: return 'no build', ''
            exe = max((os.path.join(d, 't1/debug/deps', x) for x in os.listdir(d + '/t1/debug/deps') if x.startswith('python_core_rust-') and not x.endswith('.d')), key=os.path.getmtime)
            rc, o = sh([exe, '--test-threads', '2'], d, env, 20)
            if rc != 0: return 'tests fail', ''
            rc, o = sh(['cargo', 'build', '--offline', '--target-dir', d + '/t2', '-q'], d, venv, 120)
            if rc != 0: return 'harness does not build', o[-300:]
            seen = []
            for pid in sorted(ORDER, key=lambda x: f in ('tokenizer.rs', 'source_buffer.rs') and x not in ('P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P27')):
                if pid in A.skip.split(','): continue
                rc, o = sh([d + '/t2/debug/python_core_rust', '--verif', 'check', pid, '--shard', '3', '--shards', A.shards, '--scale', A.scale, '--secs', '40', '--hang', '8'], d, None, 200)
                if A.all:
                    if rc is None or rc != 0 or json.loads(o)['bad']: seen.append(pid)
                    continue
                if rc is None: return 'timeout', pid
                if rc != 0: return 'caught', pid + f' exit {rc}'
                try: j = json.loads(o)
                except ValueError: return 'caught', pid + ' output'
                if j['bad']: return 'caught', pid + ' ' + j['bad'][0]['msg'][:200] + ' TEXT ' + ascii((j['bad'][0]['small'] or j['bad'][0]['text'] or '')[:100])
                if 'crlf' not in str(j['known']) and j['known']: return 'caught', pid + ' known'
            return ('caught', ' '.join(sorted(seen))) if seen else ('survived', '')
        try: r, detail = judge()
        except Exception as e: r, detail = 'error', repr(e)
        open(p, 'w', encoding='utf8').write(t)
        with lock:
            stats[r] = stats.get(r, 0) + 1
            out.write(json.dumps({'result': r, 'detail': detail, 'why': why, 'at': f'{f}:{line}', 'old': t[a:b], 'new': new, 'line': t.split('\n')[line - 1].strip(), 'mutant': [f, a, b, new, why], 's': round(time.time() - t0, 1)}) + '\n'); out.flush()
            if sum(stats.values()) % 50 == 0: print(stats, flush=True)
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(A.workers)]
for t in ts: t.start()
for t in ts: t.join()
print(stats)
