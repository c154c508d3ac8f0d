"""Drives the real code with sessions and lets TLC judge the recorded traces."""
import json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlcrun                                           # noqa: E402

REPO = os.environ.get('VP_REPO', '/repo')
TRACECFG = 'SPECIFICATION TraceSpec\n%sPOSTCONDITION Consumed\n'
CONSTS = {'TraceShow': 'CONSTANT AttrNames = {1}\n',
          'TraceDot': 'CONSTANT AttrNames = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}\n',
          'TraceGraph': 'CONSTANT AttrNames = {1, 2, 3, 4, 5, 6}\n'}


class DriverError(Exception):
    pass


def drive(sessions, path, scratch, hang=None, timeout=600, hashseed=None):
    """runs the sessions on /repo's working tree -> path of the recorded events"""
    src = path + '.sess'
    with open(src, 'w') as f:
        for s in sessions:
            f.write(json.dumps(s) + '\n')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'nopyc'),
               VP_SRC=os.path.join(REPO, 'src'))
    if hang:
        env['VP_HANG'] = str(hang)
    work = path + '.cwd'
    os.makedirs(work, exist_ok=True)
    sh = ('. /opt/vp/env.sh; export PYTHONPATH=%s/src; export PYTHONHASHSEED=%s; cd %s; exec /opt/venv/bin/python %s %s %s'
          % (REPO, hashseed or env.get('VP_HASHSEED', '0'), work, os.path.join(HERE, 'driver.py'), src, path))
    p = subprocess.run(['bash', '-c', sh], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(work, ignore_errors=True)
    if p.returncode:
        raise DriverError('driver ended with %d: %s' % (p.returncode, p.stdout.decode('utf-8', 'replace')[-1500:]))
    return path


def judge(module, prop, path, scratch, timeout=800):
    """-> (list of (event number, clauses), events consumed, error text or None)"""
    with open(path) as f:
        total = sum(1 for _ in f)
    if not total:
        return [], 0, None
    r = tlcrun.Run(module, TRACECFG % CONSTS.get(module, ''), scratch, env={'VP_PROP': prop, 'VP_TRACE': path},
                   name='trace').wait(timeout)
    fails = []
    for m in re.finditer(r'^"FAIL (\d+) (.*)"$', r.out, re.M):
        fails.append((int(m.group(1)), json.loads(m.group(2).replace('\\"', '"').replace('\\\\', '\\'))))
    if r.finished:
        return fails, total, None
    if r.timed_out:
        raise tlcrun.TLCError('TLC took too long on a trace')
    if 'Attempted to' in r.out or 'evaluating' in r.out or 'not in the domain' in r.out or 'CHOOSE' in r.out \
            or 'StackOverflowError' in r.out:
        m = re.findall(r'/\\ l = (\d+)', r.out)
        return fails, int(m[-1]) if m else 0, r.error_text()
    raise tlcrun.TLCError(r.error_text() or r.out[-2000:])


def events(path):
    """the recorded events of each session, without session numbers and waiting times"""
    out = {}
    with open(path) as f:
        for line in f:
            ev = json.loads(line)
            sid = ev.pop('s')
            ev.pop('w', None)           # the text of an exception names the nodes
            out.setdefault(sid, []).append(ev)
    return out


def twice(sessions, path, scratch):
    """runs the sessions in two processes: in the other order, and with other hashes of strings
    -> path of the recorded events in pairs"""
    drive(sessions, path + '.1', scratch)
    drive(sessions[::-1], path + '.2', scratch, hashseed='20261')
    one, two = events(path + '.1'), events(path + '.2')
    if min(len(one), len(two)) < len(sessions):
        ENDED.append(path)      # calls that do not end: this is not the place to find all of them
    with open(path, 'w') as f:
        for s in sessions:
            if not (s['sid'] in one and s['sid'] in two):
                continue            # the driver stops after some calls that do not end
            x, y = one[s['sid']], two[s['sid']]
            for i in range(max(len(x), len(y))):
                a, b = (z[i] if i < len(z) else None for z in (x, y))
                if 'timeout' in [z.get('r') for z in (a, b) if z]:
                    break       # how far a call came is a matter of time
                op = (a or b)['op']
                f.write(json.dumps({'s': s['sid'], 'op': op, 'n': int(bool(a and b)),
                                    'a': json.dumps(a, sort_keys=True), 'b': json.dumps(b, sort_keys=True)}) + '\n')
    for k in '12':
        os.remove('%s.%s' % (path, k))
        os.remove('%s.%s.sess' % (path, k))
    return path


class Outcome:
    def __init__(self):
        self.sessions = self.events = self.judged = 0
        self.byop = {}
        self.problems = []       # (session, event, clauses)
        self.samples = []
        self.timeouts = 0


BEGIN = time.time()
ENDED = []
BUDGET = [250, 600]     # seconds of a quick run after which no more parts are begun: a violation is found, or not


def late(found):
    return len(ENDED) >= 8 or time.time() - BEGIN > BUDGET[0 if found else 1]


def chunk(sessions, n):
    out = [[] for _ in range(n)]
    for i, s in enumerate(sessions):
        out[i % n].append(s)
    return [c for c in out if c]


def validate(module, prop, sessions, scratch, jobs=8, isjudged=lambda ev: True, tag='t'):
    """drive and judge all sessions, in parallel"""
    sessions = list(sessions)
    o = Outcome()
    lock = threading.Lock()
    per = max(1, min(40 if module == 'TraceTwice' else 250, -(-len(sessions) // jobs)))
    parts = chunk(sessions, max(1, -(-len(sessions) // per)))

    def work(k):
        if late(o.problems):
            return
        part = parts[k]
        path = os.path.join(scratch, '%s-%d.ndjson' % (tag, k))
        (twice if module == 'TraceTwice' else drive)(part, path, scratch)
        bysid = {s['sid']: s for s in part}
        fails, used, err = judge(module, prop, path, scratch)
        bad = dict((n, c) for n, c in fails)
        if err:
            bad[used] = bad.get(used, []) + [[prop, 'not interpretable: ' + err.split('\n')[0][:200]]]
            bad.setdefault(-1, err)
        with lock, open(path) as f:
            seen = set()
            for n, line in enumerate(f, 1):
                if n in bad or n <= (used if err else 10**9):
                    ev = json.loads(line)
                    o.events += 1
                    seen.add(ev['s'])
                    if ev.get('r') == 'timeout':
                        o.timeouts += 1
                    if isjudged(ev):
                        o.judged += 1
                        o.byop[ev['op']] = o.byop.get(ev['op'], 0) + 1
                    if n in bad:
                        o.problems.append((bysid[ev['s']], ev, bad[n]))
            o.sessions += len(seen)
            if len(o.samples) < 3:
                o.samples.append(part[0])
        os.remove(path)
        if module != 'TraceTwice':
            os.remove(path + '.sess')
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, range(len(parts))))
    return o
