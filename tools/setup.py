"""setup_cmd: nothing is built; looks whether the tools are there and the specifications parse."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, '..', 'lib'))
import tlcrun
for j in tlcrun.JARS.split(':'):
    assert os.path.exists(j), j
bad = 0
r = subprocess.run(['java', '-DTLA-Library=' + tlcrun.SPEC, '-cp', tlcrun.JARS, 'tla2sany.SANY'] + sorted(glob.glob(tlcrun.SPEC + '/*.tla')),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/tmp')
out = r.stdout.decode()
if r.returncode or 'Fatal errors' in out or '*** Errors' in out:
    print(out[-4000:])
    bad = 1
os.makedirs(os.path.join(here, '..', 'evidence'), exist_ok=True)
print('setup', 'failed' if bad else 'ok')
sys.exit(bad)
