"""Shared plumbing: builds, generator runs, evidence, verdicts."""
import atexit
import concurrent.futures as cf
import fnmatch
import json
import os
import re
import shutil
import subprocess
import sys
import time
import hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
GENPY = '/opt/vrtgen-venv/bin/python'
NPROC = os.cpu_count() or 4
CXX = os.environ.get('VT_CXX', 'g++')
FLAGS = ['-std=c++20', '-I' + REPO + '/include', '-I' + ROOT + '/harness', '-w']


class Broken(Exception):
    """The check itself could not be carried out (no verdict)."""


def pmap(fn, items, workers=NPROC):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or (sys.argv[1] if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough') else 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.dir = os.path.join(ROOT, 'build', f'{pid}-{self.tier}')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.replays = os.path.join(ROOT, 'replays', pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays, exist_ok=True)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': 0, 'exhaustive': True}
        self.parts = {}
        self.assumptions = []
        self.viol = {}          # key -> (desc, replay text)
        self.hits = {}
        self.known = load_known(pid)
        atexit.register(self._cleanup)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def _cleanup(self):
        if not os.environ.get('VT_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        q = os.path.join(self.dir, *p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        return q

    def add(self, part=None, states=0, transitions=0, traces=0, samples=0, **extra):
        self.cov['states'] += states
        self.cov['transitions'] += transitions
        self.cov['traces_validated_against_impl'] += traces
        self.cov['samples'] += samples
        if part:
            d = self.parts.setdefault(part, {'states': 0, 'transitions': 0, 'traces': 0})
            d['states'] += states
            d['transitions'] += transitions
            d['traces'] += traces
            for k, v in extra.items():
                d[k] = v

    def violation(self, key, desc, replay=''):
        """key identifies the failing input / history / call site"""
        if key not in self.viol:
            self.viol[key] = (desc, replay)

    def finish(self):
        new, known = [], []
        for key, (desc, rep) in self.viol.items():
            k = next((k for k in self.known if fnmatch.fnmatchcase(key, k)), None)
            (known if k else new).append((key, desc, rep, k))
        seen = {}
        for key, desc, rep, k in known:
            seen.setdefault(k, []).append(key)
        for k, keys in seen.items():
            print(f'KNOWN-FINDING: property={self.pid} {self.known[k]} [{len(keys)} failing case(s), e.g. {keys[0]}]')
        n = 0
        for key, desc, rep, _ in new:
            n += 1
            p = os.path.join(self.replays, f'{n:04d}.txt')
            if n <= 200:
                with open(p, 'w') as f:
                    f.write(f'property: {self.pid}\nkey: {key}\n\n{desc}\n\n{rep}\n')
            if n <= 25:
                print(f'VIOLATION property={self.pid} replay={p}')
                print(f'  {key}: {desc.splitlines()[0] if desc else ""}'[:600])
        if n > 25:
            print(f'  ... and {n - 25} more')
        cov = dict(self.cov)
        cov['parts'] = self.parts
        if seen:
            cov['known_findings_reproduced'] = {k: len(v) for k, v in seen.items()}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': n}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print(f'{self.pid} {self.tier}: {cov["states"]} states, {cov["transitions"]} transitions, '
              f'{n} violations, {len(known)} known, {ev["wall_s"]} s')
        sys.stdout.flush()
        sys.exit(1 if n else 0)

    # ------------------------------------------------------------------ building
    def cxx(self, src, out, *flags, opt='-O1'):
        """compile+link one C++ program; returns (ok, log)"""
        srcs = [src] if isinstance(src, str) else list(src)
        r = run([CXX, opt, *FLAGS, *flags, '-o', out, *srcs, *[f for f in flags if f.startswith('-l')]], timeout=800)
        return r.returncode == 0, r.stderr.decode(errors='replace')

    def generate(self, yaml_text, name, ns='t', args=(), out=None, check=True):
        """Run the generator under test; returns (rc, log, outdir)"""
        d = self.path(name, '')
        y = os.path.join(d, name + '.yaml')
        with open(y, 'w') as f:
            f.write(yaml_text)
        od = out or os.path.join(d, 'out')
        rc, log = vrtgen(d, ['cpp', *args, '--dir', od, '--namespace', ns, name + '.yaml'])
        if check and rc != 0:
            self.violation(f'generate:{name}', 'the generator rejects a legal description:\n' + log[-2000:], yaml_text)
        return rc, log, od

    def collect(self, proc, part, replay_cmd=''):
        """Parse harness output.  Lines:
             STAT <states> <transitions> <traces>
             VIOL <key>\t<description>
        """
        out = proc.stdout.decode(errors='replace')
        got = False
        nv = 0
        for line in out.splitlines():
            if line.startswith('STAT '):
                s, t, c = (int(x) for x in line.split()[1:4])
                self.add(part, s, t, c)
                got = True
            elif line.startswith('VIOL '):
                key, _, desc = line[5:].partition('\t')
                self.violation(key, desc.replace('\\n', '\n'), replay_cmd)
                nv += 1
            elif line.startswith('INFO '):
                self.parts.setdefault(part, {'states': 0, 'transitions': 0, 'traces': 0})
                k, _, v = line[5:].partition('=')
                try:
                    v = int(v)
                except ValueError:
                    pass
                self.parts[part][k] = v
        if not got and not nv:
            raise Broken(f'{part}: harness gave no result (rc {proc.returncode})\n' + out[-1500:] + proc.stderr.decode(errors="replace")[-3000:])
        return nv


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<glob> <text>' / 'fixed: property=<id> <commit> <text>'"""
    d = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+)\s+(.*)', line)
            if m and m.group(1) == pid:
                d[m.group(2)] = m.group(3).strip()
    return d


def vrtgen(cwd, args, timeout=120, pycode=None):
    env = dict(os.environ)
    env['PYTHONPATH'] = REPO + '/src'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    r = run([GENPY, '-W', 'ignore', '-m', 'vrtgen.main', *args], cwd=cwd, env=env, timeout=timeout)
    return r.returncode, (r.stdout + r.stderr).decode(errors='replace')


def main(pid, fn):
    """Run a check; internal breakage is reported as exit 2 (no verdict)."""
    c = Check(pid)
    try:
        fn(c)
    except Broken as e:
        print('BROKEN', pid, e)
        if c.viol:
            c.finish()
        sys.exit(2)
    c.finish()
