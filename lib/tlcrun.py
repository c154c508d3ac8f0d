"""Runs TLC on a module of /verif/spec with a configuration written on the fly."""
import os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    """TLC itself failed (machinery, not a verdict)."""


class Run:
    """A TLC process that may be going on."""

    def __init__(self, module, cfg, scratch, workers=1, heap='2g', args=(), env=None, name=None,
                 depth_first=False):
        self.module, self.args = module, list(args)
        self.dir = tempfile.mkdtemp(prefix=(name or module) + '-', dir=scratch)
        self.cfg = os.path.join(self.dir, module + '.cfg')
        with open(self.cfg, 'w') as f:
            f.write(cfg)
        self.outname = os.path.join(self.dir, 'out')
        gc = ['-XX:+UseSerialGC'] if workers == 1 else ['-XX:+UseParallelGC']
        jit = ['-XX:TieredStopAtLevel=1'] if workers == 1 and depth_first is False and heap == '2g' else []
        cmd = (['java', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + self.dir] + gc + jit
               + ['-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
                  '-config', self.cfg, '-metadir', os.path.join(self.dir, 'meta'),
                  '-workers', str(workers), '-deadlock', '-noGenerateSpecTE']
               + list(args) + [os.path.join(SPEC, module + '.tla')])
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        self.t0 = time.time()
        self.f = open(self.outname, 'wb')
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=subprocess.STDOUT, cwd=self.dir, env=e)

    def wait(self, timeout):
        try:
            self.p.wait(timeout)
            self.timed_out = False
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            self.timed_out = True
        self.f.close()
        self.wall = time.time() - self.t0
        with open(self.outname, encoding='utf-8', errors='replace') as f:
            self.out = f.read()
        self.rc = self.p.returncode
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', self.out)
        self.generated, self.distinct = ((int(x.replace(',', '')) for x in m[-1]) if m else (0, 0))
        self.finished = 'Model checking completed. No error has been found.' in self.out
        if '-simulate' in self.args and self.rc == 0 and 'Error:' not in self.out:
            m = re.findall(r'The number of states generated: (\d[\d,]*)', self.out)
            if m:       # a simulation: every state generated is counted
                self.generated = self.distinct = int(m[-1].replace(',', ''))
                self.finished = True
        self.violated = re.findall(r'(?:Invariant|Action property|Property|Temporal propert\w+) (\S+) (?:is|was|of|line)', self.out)
        shutil.rmtree(os.path.join(self.dir, 'meta'), ignore_errors=True)
        return self

    def error_text(self):
        lines = self.out.splitlines()
        i = next((k for k, l in enumerate(lines) if l.startswith('Error:')), 0)
        return '\n'.join(lines[i:i + 40])[:4000]


def cfg(spec=None, constants=None, invariants=(), properties=(), extra='', init=None, nxt=None):
    out = []
    if spec:
        out.append('SPECIFICATION ' + spec)
    if init:
        out.append('INIT ' + init)
    if nxt:
        out.append('NEXT ' + nxt)
    if constants:
        out.append('CONSTANTS')
        for k, v in constants.items():
            out.append('  %s %s' % (k, v if v.startswith('<-') else '= ' + v))
    for i in invariants:
        out.append('INVARIANT ' + i)
    for p in properties:
        out.append('PROPERTY ' + p)
    if extra:
        out.append(extra)
    return '\n'.join(out) + '\n'
