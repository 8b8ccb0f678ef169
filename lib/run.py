"""Runs the check of one property.

    python3 lib/run.py C01                    the check (VERIF_SEED, VERIF_TIER)
    python3 lib/run.py C01 --replay FILE      only the case of a replay file
    python3 lib/run.py --setup                builds everything the checks use

Builds the extension from /repo, runs the cases of checks/c01.py in worker
processes, watches them (crash, sanitizer report, hang), and decides.
"""
import ast
import collections
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402

CASE_LIMIT = 150.0  # seconds without any progress before a case is a hang
CRASH = {
    signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS,
    signal.SIGILL, signal.SIGTRAP
}


def die(msg):
    print(f'ERROR: {msg}', flush=True)
    sys.exit(3)


def settings(pid):
    """Module-level constants of the check, read without importing it."""
    path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    out = {
        'FLAVOURS': ['mon'],
        'PARTS': None,
        'NATIVE': [],
        'WORKERS': 8,
        'RULE': '',
        'ASSUMES': [],
    }
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(
                node.targets[0], ast.Name) and node.targets[0].id in out:
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


class Worker:

    def __init__(self, pid, flavour, dst, tmp, cases, tier, seed, name):
        self.pid, self.flavour, self.dst = pid, flavour, dst
        self.cases, self.tier, self.seed = cases, tier, seed
        self.dir = os.path.join(tmp, name)
        os.makedirs(self.dir)
        self.journal = os.path.join(self.dir, 'journal')
        self.out = os.path.join(self.dir, 'out.json')
        self.found = os.path.join(self.dir, 'found')
        self.limit = CASE_LIMIT
        self.start()

    def start(self):
        with open(os.path.join(self.dir, 'task.json'), 'w') as f:
            json.dump(
                {
                    'property': self.pid,
                    'flavour': self.flavour,
                    'cases': self.cases,
                    'tier': self.tier,
                    'seed': self.seed,
                    'journal': self.journal,
                    'out': self.out,
                    'found': self.found
                }, f)
        open(self.journal, 'w').close()
        if os.path.exists(self.out):
            os.unlink(self.out)
        env = build.environment(self.flavour, self.dst)
        if self.flavour == 'asan':
            env['ASAN_OPTIONS'] += f':log_path={self.dir}/san'
            env['UBSAN_OPTIONS'] += f':log_path={self.dir}/san'
        if self.flavour == 'tsan':
            env['TSAN_OPTIONS'] += f':log_path={self.dir}/san'
        self.log = open(os.path.join(self.dir, 'log'), 'w')
        self.proc = subprocess.Popen([
            'python3-vt', '-X', 'faulthandler',
            os.path.join(HERE, 'worker.py'),
            os.path.join(self.dir, 'task.json')
        ],
                                     env=env,
                                     cwd=self.dir,
                                     stdin=subprocess.DEVNULL,
                                     stdout=self.log,
                                     stderr=subprocess.STDOUT,
                                     start_new_session=True)
        self.seen = (0, time.time())

    def current(self):
        with open(self.journal) as f:
            lines = f.read().splitlines()
        return lines[-1].split('\t') if lines else None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def poll(self):
        """None while running, else 'done' | 'crash' | 'hang' | 'error'."""
        rc = self.proc.poll()
        if rc is None:
            size = os.path.getsize(self.journal)
            if size != self.seen[0]:
                self.seen = (size, time.time())
            elif time.time() - self.seen[1] > self.limit:
                self.kill()
                return 'hang'
            return None
        self.log.close()
        if rc == 0 and os.path.exists(self.out):
            return 'done'
        if rc < 0 and -rc in CRASH:
            return 'crash'
        return 'error'

    def report(self):
        """Sanitizer output or tail of the log."""
        text = ''
        for name in sorted(os.listdir(self.dir)):
            if name.startswith('san.') or name == 'san':
                with open(os.path.join(self.dir, name), errors='replace') as f:
                    text += f.read(20000)
        if not text:
            with open(os.path.join(self.dir, 'log'), errors='replace') as f:
                text = f.read()
        return condense(text)

    def verdicts(self):
        """The violations seen by a process that did not reach its end."""
        out = []
        if os.path.exists(self.found):
            with open(self.found) as f:
                for line in f:
                    try:
                        out.append(json.loads(line))
                    except ValueError:  # the process died meanwhile
                        pass
        return out

    def result(self):
        with open(self.out) as f:
            return json.load(f)


MARK = re.compile(
    r'runtime error: |ERROR: AddressSanitizer|WARNING: ThreadSanitizer|Assertion |Fatal Python error'
)


def condense(text):
    """A report from its first line, without the long template names."""
    m = MARK.search(text)
    if m is None:
        return text[-4000:]
    start = text.rfind('\n', 0, m.start()) + 1
    out = []
    for line in text[start:start + 400000].splitlines()[:300]:
        f = re.match(r'(\s*#\d+ 0x[0-9a-f]+ in )(.*?)( \(?/\S+.*)$', line)
        if f and len(f.group(2)) > 110:
            line = f.group(1) + f.group(2)[:110] + '...' + f.group(3)
        out.append(line[:400])
    return '\n'.join(out)


def site(text):
    """First line of a sanitizer report and the pyinterp function it is in."""
    head = re.search(
        r'(runtime error: [^\n]{0,120}|ERROR: AddressSanitizer: [\w-]+|Assertion [^\n]{0,160})',
        text)
    func = re.search(
        r'#\d+ 0x[0-9a-f]+ in ([^\n]*?)\s+' + re.escape(build.REPO) +
        r'/([^\s:]+)', text)
    fatal = re.search(r'Fatal Python error: [^\n]*', text)
    head = head.group(1) if head else fatal.group(0) if fatal else 'crash'
    head = re.sub(r'0x[0-9a-f]+|-?\d[\d.e+]*', '#', head)
    return head, func.group(2) if func else ''


def races(worker):
    """ThreadSanitizer reports in which pyinterp code takes part."""
    out = {}
    for name in sorted(os.listdir(worker.dir)):
        if not name.startswith('san'):
            continue
        with open(os.path.join(worker.dir, name), errors='replace') as f:
            blocks = f.read().split('==================')
        for b in blocks:
            m = re.search(r'WARNING: ThreadSanitizer: ([^\n(]*)', b)
            if not m:
                continue
            frames = re.findall(
                r'#\d+ (.*?) (?:(' + re.escape(build.REPO) + r'/\S+?):\d+|\(?(\S*core[\w.-]*\.so)\b|<null>)', b)
            mine = [
                os.path.relpath(f[1], build.REPO) if f[1] else 'core.so'
                for f in frames
                if f[1].startswith(build.REPO + '/src/pyinterp/core')
                or f[2].endswith('.so')
            ]
            if not mine:
                continue
            key = 'race:' + m.group(1).strip() + ':' + '+'.join(
                sorted(set(x for x in mine[:8] if x != 'core.so')) or
                ['core.so'])
            out.setdefault(key, [0, b.strip()[:6000]])
            out[key][0] += 1
    return out


def plan(pid, tier, dst, flavour):
    p = subprocess.run(
        ['python3-vt', os.path.join(HERE, 'worker.py'), '--plan', pid, tier],
        env=build.environment(flavour, dst),
        capture_output=True,
        text=True,
        timeout=300)
    if p.returncode:
        die(f'cannot load checks/{pid.lower()}.py: '
            f'{(p.stdout + p.stderr)[-3000:]}')
    return json.loads(p.stdout.splitlines()[-1])


def run_flavour(pid, cfg, flavour, tier, seed, tmp, only=None):
    dst = build.build(flavour, cfg['PARTS'], native=cfg['NATIVE'])
    sections = plan(pid, tier, dst, flavour)
    chosen = os.environ.get('VERIF_ONLY')
    if chosen:
        sections = [s for s in sections if s['name'] in chosen.split(',')]
    if only:
        cases = [tuple(only)]
    else:
        cases = [(s['name'], i) for s in sections
                 if flavour in s['flavours'] for i in range(s['n'])]
    n = min(cfg['WORKERS'], max(1, len(cases)))
    workers = [
        Worker(pid, flavour, dst, tmp, cases[w::n], tier, seed,
               f'{flavour}-{w}') for w in range(n)
    ]
    results, violations = [], []
    restarts = 0
    t0 = time.time()
    cap = 820 if tier == 'quick' else 24 * 3600
    while workers:
        time.sleep(0.05)
        if time.time() - t0 > cap:
            for w in workers:
                w.kill()
                violations += w.verdicts()
            if violations or any(r['violations'] for r in results):
                print(f'{pid}: the time limit of the run was reached')
                break
            die('the time limit of the run was reached: inconclusive')
        for w in list(workers):
            state = w.poll()
            if state is None:
                continue
            workers.remove(w)
            if flavour == 'tsan':
                for key, (count, text) in races(w).items():
                    cur = w.current() or ('', '0', '')
                    violations.append({
                        'key': key,
                        'section': cur[0],
                        'index': int(cur[1]),
                        'what': f'{count} ThreadSanitizer report(s)',
                        'report': text,
                        'note': 'the race was seen in a worker that ran '
                        f'cases {w.cases[:3]}...'
                    })
            if state == 'done':
                results.append(w.result())
                continue
            cur = w.current()
            text = w.report()
            seen = w.verdicts()
            violations += seen
            if state == 'error' and cur is not None and (
                    seen or any(v['key'].startswith('race') for v in violations)
                    or re.search(r'(Thread|Address)Sanitizer', text)):
                state = 'crash'
            if state == 'error' or cur is None:
                for x in workers:
                    x.kill()
                die(f'worker failed (exit {w.proc.returncode}) at {cur}: '
                    f'{w.report()[-3000:]}')
            sec, idx = cur[0], int(cur[1])
            # the case alone, once more
            again = Worker(pid, flavour, dst, tmp, [(sec, idx)], tier, seed,
                           f'{os.path.basename(w.dir)}-again{restarts}')
            while (st := again.poll()) is None:
                time.sleep(0.05)
            if st == 'error' and state == 'crash':
                st = 'crash'
            restarts += 1
            if state == 'hang':
                if st == 'hang':
                    violations.append({
                        'key': 'hang:' + sec,
                        'section': sec,
                        'index': idx,
                        'what': f'no answer within {CASE_LIMIT} s, twice',
                        'report': text[-3000:]
                    })
                elif st == 'crash':
                    state, text = 'crash', again.report()
            if state == 'crash':
                if st == 'crash':
                    text = again.report()
            if state == 'crash' and re.search(r'AddressSanitizer: (out of memory|out-of-memory|allocation-size-too-big|calloc-overflow|requested allocation)', text):
                # MemoryError without the sanitizer
                print(f'{pid}: {sec} {idx} not executed: refused allocation')
                restarts -= 1
            elif state == 'crash':
                head, where = site(text)
                violations.append({
                    'key': f'crash:{head}:{where}',
                    'section': sec,
                    'index': idx,
                    'what': f'the process died ({head}) {where}; '
                    f'{"reproduced" if st == "crash" else "not reproduced"} alone',
                    'report': text[:6000]
                })
            done = w.cases.index([sec, idx]) if [sec, idx] in w.cases else \
                w.cases.index((sec, idx))
            before, rest = w.cases[:done], w.cases[done + 1:]
            same = sum(v['section'] == sec and
                       v['key'].startswith(('crash', 'hang'))
                       for v in violations)
            if same >= 3:  # enough witnesses of this section
                rest = [c for c in rest if c[0] != sec]
            if restarts > 12:
                rest = []
            del before  # already executed, its coverage was lost with it
            if rest:
                workers.append(
                    Worker(pid, flavour, dst, tmp, rest, tier, seed,
                           f'{os.path.basename(w.dir)}-r{restarts}'))
    return results, violations


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        t0 = time.time()
        wanted = []
        for name in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
            if re.fullmatch(r'c\d\d\.py', name):
                cfg = settings(name[:-3])
                for fl in cfg['FLAVOURS']:
                    if (fl, cfg['PARTS'], cfg['NATIVE']) not in wanted:
                        wanted.append((fl, cfg['PARTS'], cfg['NATIVE']))
        build.build('mon', native=sorted({n for _, _, x in wanted for n in x}))
        for fl, parts, native in wanted:
            build.build(fl, parts, native=native)
        build.prune()
        print(f'setup: {time.time() - t0:.0f} s')
        return 0
    pid = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            rep = json.load(f)
        seed, tier = rep['seed'], rep['tier']
        only = (rep['section'], rep['index'])
    if '--case' in sys.argv:
        at = sys.argv.index('--case')
        only = (sys.argv[at + 1], int(sys.argv[at + 2]))
    cfg = settings(pid)
    t0 = time.time()
    scratch = os.path.join(VERIF, 'build', 'run')
    os.makedirs(scratch, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=pid + '-', dir=scratch)
    try:
        results, violations = [], []
        flavours = cfg['FLAVOURS']
        if only and 'rep' in dir() and rep.get('flavour'):
            flavours = [rep['flavour']]
        for flavour in flavours:
            try:
                r, v = run_flavour(pid, cfg, flavour, tier, seed, tmp, only)
            except build.BuildError as e:
                die(f'build failed: {str(e)[-3000:]}')
            for x in v:
                x['flavour'] = flavour
            for x in r:
                for y in x['violations']:
                    y['flavour'] = flavour
            results += r
            violations += v
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cases = judged = 0
    hashes, counters, samples = set(), collections.Counter(), []
    n_bad = len(violations)
    for r in results:
        cases += r['cases']
        judged += r['judgements']
        hashes.update(r['distinct'])
        counters.update(r['counters'])
        samples += r['samples']
        violations += r['violations']
        n_bad += r['n_violations']
    known_path = os.path.join(VERIF, 'known_findings.json')
    known = []
    if os.path.exists(known_path):
        with open(known_path) as f:
            known = [
                k for k in json.load(f)['findings'] if k['property'] == pid
            ]
    reported = set()
    fresh = []
    for v in violations:
        hit = [k for k in known if k['key'] == v['key']]
        if hit:
            if v['key'] not in reported:
                reported.add(v['key'])
                print(f'KNOWN-FINDING: property={pid} {hit[0]["what"]}')
        else:
            fresh.append(v)
    samples.sort(key=lambda s: s.get('section', ''))
    picked, per = [], collections.Counter()
    for s in samples:
        if per[s.get('section')] < 2 and len(picked) < 40:
            per[s.get('section')] += 1
            picked.append(s)
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': len(hashes),
            'rule': cfg['RULE'],
            'samples': picked,
            'judgements': judged,
            'observed': dict(sorted(counters.items())),
            'flavours': cfg['FLAVOURS'],
        },
        'assumptions': cfg['ASSUMES'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + '.tmp', path)
    if fresh:
        keys = collections.OrderedDict()
        for v in fresh:
            keys.setdefault(v['key'], []).append(v)
        rdir = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for key, vs in list(keys.items())[:12]:
            v = vs[0]
            h = hashlib.sha1(f'{pid}{key}{seed}{tier}'.encode()).hexdigest()
            path = os.path.join(rdir, f'{pid}-{h[:10]}.json')
            with open(path, 'w') as f:
                json.dump({
                    'property': pid,
                    'seed': seed,
                    'tier': tier,
                    'command':
                    f'cd /verif && python3 lib/run.py {pid} --replay {path}',
                    **v
                },
                          f,
                          indent=1)
            print(f'{pid}: {key} x{len(vs)}: {str(v.get("what"))[:400]}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if not only and (cases == 0 or judged == 0 or not hashes):
        die('nothing was observed')
    missing = [
        m for r in results for m in r.get('missing', [])
    ] if not only else []
    del missing
    print(f'{pid}: held on {cases} cases, {judged} judgements '
          f'({evidence["wall_s"]} s)')
    return 0


if __name__ == '__main__':
    sys.exit(main())
