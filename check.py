#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py P07                 one check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --setup             builds everything
  check.py --replay FILE       judges a recorded violation again

exit 0: held on everything explored; 1: VIOLATION; 2: no answer
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PCR_REPO', '/repo')
BUILD = os.environ.get('PCR_BUILD', os.path.join(VERIF, '.build'))
EVIDENCE = os.environ.get('PCR_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPLAY = os.path.join(VERIF, 'replay')
TIER = os.environ.get('VERIF_TIER', 'quick')
TIER = TIER if TIER in ('quick', 'thorough') else 'quick'
SEED = int(os.environ.get('VERIF_SEED') or 1)
SHARDS = 8
HANG = 77
T0 = time.time()
QUICK_WALL = 600           # a quick check gets 900 s


def say(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


# ---- building ----------------------------------------------------------------------------------

def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0' + open(p, 'rb').read() + b'\0')
    h.update(open(os.path.join(REPO, 'Cargo.toml'), 'rb').read())
    return h.hexdigest()[:16]


KINDS = {
    # overflow checks and debug assertions stay on: they are sanitizers of their own
    'dev': (['cargo'], '--cfg pcr_verif -Awarnings', {'CARGO_PROFILE_DEV_OPT_LEVEL': '1'}, []),
    'asan': (['cargo', '+nightly'], '--cfg pcr_verif -Awarnings -Zsanitizer=address', {'CARGO_PROFILE_DEV_OPT_LEVEL': '1'}, ['--target', 'x86_64-unknown-linux-gnu']),
    'tsan': (['cargo', '+nightly'], '--cfg pcr_verif -Awarnings -Zsanitizer=thread', {'CARGO_PROFILE_DEV_OPT_LEVEL': '1'}, ['--target', 'x86_64-unknown-linux-gnu', '-Zbuild-std=std,panic_unwind']),
}


def cargo_env(flags, extra):
    e = dict(os.environ)
    e.update(extra)
    e.update(PCR_VERIF_DIR=os.path.join(VERIF, 'harness'), PCR_VERIF_GEN=os.path.join(BUILD, 'gen'), PCR_VERIF_HASH=tree_hash(), RUSTFLAGS=flags, CARGO_TERM_COLOR='never', CARGO_NET_OFFLINE='true')
    return e


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def adapter():
    gen = os.path.join(BUILD, 'gen')
    os.makedirs(gen, exist_ok=True)
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'tools/gen_adapter.py'), REPO, os.path.join(gen, 'adapter.rs.new')], capture_output=True, text=True)
    if p.returncode:
        raise NoAnswer('adapter: ' + p.stderr[-2000:])
    new, old = os.path.join(gen, 'adapter.rs.new'), os.path.join(gen, 'adapter.rs')
    if os.path.exists(old) and open(old).read() == open(new).read():
        os.remove(new)
    else:
        os.replace(new, old)


def build(kind):
    cargo, flags, extra, args = KINDS[kind]
    with locked('build'):
        adapter()
        target = os.path.join(BUILD, kind)
        cmd = cargo + ['build', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', target, '--locked', '--offline'] + args
        p = subprocess.run(cmd, env=cargo_env(flags, extra), capture_output=True, text=True, cwd=REPO)
        if p.returncode:
            raise NoAnswer(f'build ({kind}) failed:\n' + p.stderr[-4000:])
        sub = 'x86_64-unknown-linux-gnu/debug' if '--target' in args else 'debug'
        exe = os.path.join(target, sub, 'python_core_rust')
        own = tempfile.mkdtemp(prefix='bin', dir=BUILD)
        shutil.copy2(exe, os.path.join(own, 'pcr'))
        return os.path.join(own, 'pcr')


# ---- running -----------------------------------------------------------------------------------

def limits(gb):
    def f():
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, gb=8, timeout=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(gb), env=env, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out.decode('utf8', 'replace'), err.decode('utf8', 'replace')


def died(rc):
    if rc is None:
        return 'took too long'
    if rc == HANG:
        return 'did not end (one case used more than %s s of processor time)' % hang_limit()
    if rc < 0:
        return 'killed the process with ' + signal.Signals(-rc).name
    return 'ended the process with code %d' % rc


def hang_limit():
    return 25 if TIER == 'quick' else 60


# how many more cases the sampled streams of a property have
SCALE = {'P02': 20, 'P03': 20, 'P04': 20, 'P05': 20, 'P06': 10, 'P07': 15, 'P08': 20, 'P09': 15, 'P10': 15, 'P11': 5, 'P12': 6, 'P13': 8, 'P14': 7,
         'P15': 1.5, 'P16': 1.5, 'P17': 3, 'P18': 3, 'P19': 8, 'P20': 3, 'P21': 8, 'P22': 12, 'P25': 10, 'P26': 6, 'P27': 20, 'P29': 3}


def check_cmd(exe, pid, tier, seed, shard, shards, more):
    return [exe, '--verif', 'check', pid, '--tier', tier, '--seed', str(seed), '--shard', str(shard), '--shards', str(shards), '--hang', str(hang_limit()), '--scale', str(SCALE.get(pid, 1) if tier == 'quick' else 1)] + more


class Found:
    def __init__(self, stream, i, text, small, msg):
        self.stream, self.i, self.text, self.small, self.msg = stream, i, text, small, msg


class Result:
    def __init__(self):
        self.evals = self.weighty = self.distinct = 0
        self.counts, self.toks, self.nodes, self.streams, self.samples, self.known = {}, {}, {}, {}, {}, {}
        self.bad, self.errors, self.notes = [], [], []
        self.bases = []


def add(into, frm):
    for k, v in frm.items():
        into[k] = into.get(k, 0) + v


def confirm(exe, pid, tier, seed, case, why, tmp):
    """a process died or hung in this case: run it alone and see"""
    stream, i = case.rsplit(':', 1)
    dump = os.path.join(tmp, 'dump')
    rc, out, err = run(check_cmd(exe, pid, tier, seed, 0, 1, ['--only', case, '--dump', dump]), timeout=300)
    text = open(dump, encoding='utf8', errors='replace').read() if os.path.exists(dump) else None
    if rc == 0:
        try:
            j = json.loads(out)
            if j['bad']:
                b = j['bad'][0]
                return Found(b['stream'], b['i'], b['text'], b['small'], b['msg'])
        except ValueError:
            pass
        return None
    if rc is None or (rc < 0 and rc not in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL)):
        return None
    last = '\n'.join(err.strip().split('\n')[-3:])
    return Found(stream, int(i), text, None, 'the case ' + died(rc) + ('; ' + last if last else ''))


def run_check(exe, pid, tier, seed):
    res = Result()
    tmp = tempfile.mkdtemp(prefix='run', dir=BUILD)
    wall = QUICK_WALL if tier == 'quick' else 3 * 3600
    try:
        def one(k):
            o = os.path.join(tmp, f'out{k}')
            return run(check_cmd(exe, pid, tier, seed, k, SHARDS, ['--journal', os.path.join(tmp, f'journal{k}'), '--out', o, '--secs', str(300 if tier == 'quick' else 7200)]), timeout=wall)
        with ThreadPoolExecutor(SHARDS) as ex:
            done = list(ex.map(one, range(SHARDS)))
        hashes = set()
        for k, (rc, out, err) in enumerate(done):
            o = os.path.join(tmp, f'out{k}')
            if rc != 0 or not os.path.exists(o):
                jp = os.path.join(tmp, f'journal{k}')
                case = open(jp, errors='replace').read().strip() if os.path.exists(jp) else ''
                if rc is not None and case and rc != 2 and rc != 3:
                    f = confirm(exe, pid, tier, seed, case, rc, tmp)
                    if f:
                        res.bad.append(f)
                        continue
                res.errors.append(f'shard {k} {died(rc) if rc else "wrote nothing"} at {case!r}: {err[-600:]}')
                continue
            j = json.load(open(o, encoding='utf8'))
            res.evals += j['evals']
            res.weighty += j['weighty']
            add(res.counts, j['counts']); add(res.toks, j['toks']); add(res.nodes, j['nodes'])
            for name, n, e, whole in j['streams']:
                s = res.streams.setdefault(name, [n, 0, True])
                s[1] += e
                s[2] = s[2] and whole
            for name, v in j['samples'].items():
                res.samples.setdefault(name, []).extend(v)
            for kf, (n, t) in j['known'].items():
                o2 = res.known.get(kf)
                res.known[kf] = (n + (o2[0] if o2 else 0), t if not o2 or len(t) < len(o2[1]) else o2[1])
            res.bad += [Found(b['stream'], b['i'], b['text'], b['small'], b['msg']) for b in j['bad']]
            res.errors += j['errors']
            raw = open(o + '.hashes', 'rb').read()
            hashes.update(raw[i:i + 8] for i in range(0, len(raw), 8))
            raw = open(o + '.base', 'rb').read()
            res.bases.append([raw[i:i + 8] for i in range(0, len(raw), 8)])
        res.distinct = len(hashes)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---- what some properties add -----------------------------------------------------------------

def probe_deep(exe, res):
    """an expression nested 200 000 deep, on the stack the program really has"""
    rc, out, err = run([exe, '--verif', 'probe-deep'], gb=6, timeout=120)
    res.evals += 1
    if rc != 0:
        res.known['deep-nesting-overflows-the-stack'] = (1, '200000 nested parentheses: the process ' + died(rc))
    add(res.counts, {'deep nesting probes': 1})


def compare_bases(exe, res):
    """the same text must give the same result in every process, whatever it parsed before"""
    bases = [b for b in res.bases if b]
    for k, b in enumerate(bases[1:], 1):
        for i, (x, y) in enumerate(zip(bases[0], b)):
            if x != y:
                res.bad.append(Found('processes', i, None, None, f'text {i} of the pool has another result in process {k}, which met the texts in another order, than in process 0'))
                return
    add(res.counts, {'results compared between processes': sum(len(b) for b in bases[1:])})


def instructions(exe, res):
    """counts executed instructions with callgrind: a text 8 times as long may not need much more than 8 times as many"""
    if not shutil.which('valgrind'):
        res.notes.append('valgrind is missing: instructions were not counted')
        return
    deep = TIER == 'thorough'
    tmp = tempfile.mkdtemp(prefix='cg', dir=BUILD)

    def one(k):
        d = os.path.join(tmp, f's{k}')
        os.makedirs(d)
        cmd = ['valgrind', '--tool=callgrind', '--main-stacksize=8000000', '--max-stackframe=2000000000', f'--callgrind-out-file={d}/o', exe, '--verif', 'instruct', '--shard', str(k), '--shards', str(SHARDS), '--tier', TIER]
        rc, out, err = run(cmd, gb=0, timeout=700 if not deep else 3600)
        if rc != 0:
            return None
        rows = [l.split('\t') for l in out.strip().split('\n') if l.count('\t') == 3]
        totals = []
        for i in range(1, len(rows) + 1):
            p = f'{d}/o.{i}'
            tot = 0
            for l in open(p, errors='replace') if os.path.exists(p) else []:
                if l.startswith('summary:') or l.startswith('totals:'):
                    tot = int(l.split()[1])
            totals.append(tot)
        return list(zip(rows, totals))
    try:
        with ThreadPoolExecutor(SHARDS) as ex:
            parts = list(ex.map(one, range(SHARDS)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if any(p is None for p in parts):
        res.notes.append('callgrind did not finish: instructions were not all counted')
    worst = (0, '')
    for p in parts:
        p = p or []
        for a, b in zip(p[::2], p[1::2]):
            (n1, bad, _, l1), x = a
            (n2, _, _, l2), y = b
            if n1 != n2 or x <= 0 or y <= 0:
                continue
            k = int(l2) / int(l1)
            ratio = y / x / k
            res.evals += 1
            add(res.counts, {'instruction ratios measured': 1})
            worst = max(worst, (ratio, n1))
            if ratio > INSTRUCTION_LIMIT:
                res.bad.append(Found('instructions', 0, f'{n1} (bad={bad}): {l1} and {l2} characters', None, f'{n1}: a text {k:.1f} times as long needs {y / x:.1f} times the instructions ({x} and {y})'))
    res.extra_worst = worst
    res.notes.append('largest growth of instructions relative to the growth of the text: %.2f (%s)' % worst)


INSTRUCTION_LIMIT = 1.5


def asan(res):
    exe = build('asan')
    n = 6000 if TIER == 'quick' else 200_000
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0', RUST_BACKTRACE='0')

    def one(k):
        return run([exe, '--verif', 'sanitize', '--n', str(n), '--seed', str(SEED), '--shard', str(k), '--shards', str(SHARDS), '--hang', '120'], gb=0, timeout=600 if TIER == 'quick' else 3600, env=env)
    with ThreadPoolExecutor(SHARDS) as ex:
        for k, (rc, out, err) in enumerate(ex.map(one, range(SHARDS))):
            m = re.search(r'SANITIZED (\d+)', out)
            if rc == 99 or 'ERROR: AddressSanitizer' in err or 'ERROR: LeakSanitizer' in err:
                at = err.find('ERROR: ')
                res.bad.append(Found('address sanitizer', k, None, None, err[at:at + 2500]))
            elif rc == 0 and m:
                add(res.counts, {'texts parsed under the address and leak sanitizers': int(m.group(1))})
                res.evals += int(m.group(1))
            else:
                res.errors.append(f'address sanitizer run {k} {died(rc)}: {err[-600:]}')


def miri(res):
    n, secs = (26, 420) if TIER == 'quick' else (1500, 5400)
    with locked('miri'):
        adapter()
        e = cargo_env('--cfg pcr_verif -Awarnings', {'MIRIFLAGS': '-Zmiri-disable-isolation -Zmiri-ignore-leaks', 'MIRI_SYSROOT': os.path.join(BUILD, 'miri-sysroot')})
        base = ['cargo', '+nightly', 'miri', 'run', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', os.path.join(BUILD, 'miri'), '--locked', '--offline', '--']
        s = subprocess.run(['cargo', '+nightly', 'miri', 'setup'], env=dict(e, RUSTFLAGS=''), capture_output=True, text=True, cwd=REPO)
        if s.returncode:
            res.notes.append('miri has no sysroot here: ' + s.stderr[-300:])
            return
        first = run(base + ['--verif', 'sanitize', '--n', '1', '--size', '12'], gb=0, timeout=secs, env=e)

    def one(k):
        return run(base + ['--verif', 'sanitize', '--n', str(n), '--seed', str(SEED), '--shard', str(k), '--shards', str(SHARDS), '--size', '14', '--hang', '100000'], gb=0, timeout=secs, env=e)
    with ThreadPoolExecutor(SHARDS) as ex:
        for k, (rc, out, err) in enumerate([first] + list(ex.map(one, range(SHARDS)))):
            m = re.search(r'SANITIZED (\d+)', out)
            if 'error: Undefined Behavior' in err or 'error: memory leaked' in err:
                at = err.find('error: ')
                res.bad.append(Found('miri', k, None, None, err[at:at + 2500]))
            elif rc == 0 and m:
                add(res.counts, {'texts parsed under Miri': int(m.group(1))})
                res.evals += int(m.group(1))
            elif rc is None:
                res.notes.append(f'miri run {k} did not finish in its time')
            else:
                res.errors.append(f'miri run {k} {died(rc)}: {err[-900:]}')


EXTRA = {
    'P01': [lambda exe, r: probe_deep(exe, r)],
    'P20': [compare_bases],
    'P23': [instructions],
    'P24': [lambda exe, r: asan(r), lambda exe, r: miri(r)],
}


# ---- reporting ---------------------------------------------------------------------------------

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}


def properties():
    return {j['id']: j for j in map(json.loads, open(os.path.join(VERIF, 'properties.jsonl')))}


RULE = ('Each stream makes its cases from (seed, stream, index): all words over an alphabet, all sizes of a scaled construct, generated programs, damaged programs or noise; '
        'a case counts as non-trivial when the monitor judged at least three tokens, errors or operations of it, and as distinct by a hash of the token kinds, trivia kinds and outcome the monitor saw (or of the schedule, for interleavings).')


def evidence(pid, res, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    samples = [{'stream': k, 'case': t} for k, v in sorted(res.samples.items()) for t in v[:1]][:16]
    if not samples:
        samples = [{'stream': k, 'cases': v[1]} for k, v in list(res.streams.items())[:5]]
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration', 'wall_s': round(time.time() - T0, 2), 'violations': violations,
        'coverage': {
            'evaluations': res.evals, 'distinct_nontrivial': res.distinct, 'rule': RULE, 'samples': samples,
            'streams': {k: {'cases': v[0], 'judged': v[1], 'ran_to_the_end': v[2]} for k, v in res.streams.items()},
            'observed': dict(sorted(res.counts.items())), 'token_kinds_seen': len(res.toks), 'tokens_seen': res.toks, 'node_kinds_seen': len(res.nodes), 'nodes_seen': res.nodes,
            'known_findings_met': {k: v[0] for k, v in res.known.items()}, 'notes': res.notes,
        },
        'assumptions': ['the reference lexer and grammar in /verif/harness state what the property requires (see /verif/GRAMMAR.md)', 'texts outside the supported grammar get no verdict'],
    }
    p = os.path.join(EVIDENCE, pid + '.json')
    json.dump(ev, open(p + '.new', 'w'), indent=1, ensure_ascii=False)
    os.replace(p + '.new', p)


def report(pid, res):
    listed = {k['id']: k for k in known_findings()['known'] if pid in k['properties']}
    for kf, (n, t) in list(res.known.items()):
        if kf not in listed:
            res.bad.append(Found('known finding that is not listed', 0, t, None, kf))
    if not res.bad:
        if res.errors:
            evidence(pid, res, 0)
            raise NoAnswer('; '.join(res.errors[:4]))
        if res.evals == 0 or (res.distinct == 0 and res.weighty == 0):
            raise NoAnswer('nothing was observed')
    evidence(pid, res, len(res.bad))
    for kf, (n, t) in sorted(res.known.items()):
        if kf in listed:
            say(f'KNOWN-FINDING: property={pid} {kf}: {listed[kf]["what"]} ({n} cases, e.g. {t[:80]!r})')
    if res.bad:
        os.makedirs(REPLAY, exist_ok=True)
        b = min(res.bad, key=lambda b: (b.text is None, len(b.small or b.text or '')))
        p = os.path.join(REPLAY, f'{pid}-{hashlib.sha256(repr((b.stream, b.i, b.msg)).encode()).hexdigest()[:10]}.json')
        json.dump({'property': pid, 'tier': TIER, 'seed': SEED, 'stream': b.stream, 'i': b.i, 'text': b.text, 'small': b.small, 'msg': b.msg}, open(p, 'w'), indent=1, ensure_ascii=False)
        say(f'stream {b.stream!r} case {b.i}: {b.msg}')
        if b.small is not None or b.text is not None:
            say('text: ' + ascii((b.small if b.small is not None else b.text)[:600]))
        say(f'VIOLATION property={pid} replay={p}')
        return 1
    say(f'{pid} held: {res.evals} evaluations, {res.distinct} distinct non-trivial, {time.time() - T0:.1f} s')
    return 0


def check(pid):
    exe = build('dev')
    try:
        res = run_check(exe, pid, TIER, SEED)
        if not res.bad:
            for f in EXTRA.get(pid, []):
                f(exe, res)
    finally:
        shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    return report(pid, res)


def replay(path):
    j = json.load(open(path))
    exe = build('dev')
    try:
        rc, out, err = run(check_cmd(exe, j['property'], j['tier'], j['seed'], 0, 1, ['--only', f"{j['stream']}:{j['i']}"]), timeout=600)
    finally:
        shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    if rc != 0:
        say(died(rc)); say(err[-800:])
        return 1
    r = json.loads(out)
    for b in r['bad']:
        say(b['msg']); say('text: ' + ascii(b['small'] or b['text'] or ''))
    if not r['bad']:
        say('nothing wrong with this case now' if r['evals'] else 'the case is not one of a stream: run the whole check')
    return 1 if r['bad'] else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--setup']:
            build('dev')
            build('asan')
            for d in os.listdir(BUILD):
                if d.startswith(('bin', 'run', 'cg')):
                    shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            return 0
        if a[:1] == ['--replay']:
            return replay(a[1])
        if len(a) != 1 or a[0] not in properties():
            print(__doc__)
            return 2
        return check(a[0])
    except NoAnswer as e:
        say('NO ANSWER: ' + str(e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
