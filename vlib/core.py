"""Framework shared by the checks: building generated programs from /repo's working tree, running them, evidence, reports."""
import atexit
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
TECH = 'generated patterns x generated subjects against an independent reference model'

KIND = {'match': 'V_MATCH', 'search': 'V_SEARCH', 'starts_with': 'V_STARTS', 'search_all': 'V_SEARCH_ALL', 'tokenize': 'V_TOKENIZE', 'split': 'V_SPLIT'}
FL_CI, FL_ML = 1, 2


class Infra(Exception):
    """the framework couldn't do its work (no verdict)"""


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -1000, e.stdout or b'', e.stderr or b''


class Config:
    """how generated programs are compiled"""

    def __init__(self, cxx='g++', std='c++20', opt='-O1', defs=(), inc=None, header='ctre.hpp', extra=(), link=()):
        self.cxx, self.std, self.opt, self.defs, self.inc, self.header, self.extra, self.link = cxx, std, opt, tuple(defs), inc or os.path.join(REPO, 'include'), header, tuple(extra), tuple(link)

    def flags(self):
        f = ['-std=' + self.std, self.opt, '-w', '-I' + LIB, '-I' + self.inc]
        f += ['-D' + d for d in self.defs]
        f += list(self.extra)
        if self.cxx.startswith('clang'):
            f += ['-fbracket-depth=2048', '-ftemplate-depth=4096', '-fconstexpr-steps=500000000']
        else:
            f += ['-ftemplate-depth=4096', '-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=10000000']
        return f

    def key(self):
        return hashlib.sha1(repr((self.cxx, self.flags(), self.header)).encode()).hexdigest()[:10]

    def as_dict(self):
        return dict(cxx=self.cxx, std=self.std, opt=self.opt, defs=self.defs, inc=self.inc, header=self.header, extra=self.extra, link=self.link)

    def __str__(self):
        return ' '.join([self.cxx, '-std=' + self.std, self.opt] + ['-D' + d for d in self.defs] + list(self.extra) + ([] if self.inc.endswith('/include') else [os.path.basename(self.inc)]))


DEFAULT = Config()


def cxx_str(s):
    """list of code points as an initialiser"""
    return '{' + ''.join('%d,' % c for c in s) + '0}'


def cps(s):
    return [ord(c) for c in s]


def show_cps(s):
    return ''.join(chr(c) if 32 <= c < 127 else ('\\n' if c == 10 else ('\\x%02x' % c if c < 256 else '\\u{%x}' % c)) for c in s)


class HeaderBroken(Exception):
    """a header of the library does not compile on its own"""

    def __init__(self, cfg, text):
        super().__init__(text)
        self.cfg, self.text = cfg, text


class ModuleBroken(Exception):
    """the C++ module of the library doesn't compile"""


class Check:
    def __init__(self, pid, level='exploration'):
        self.id = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
            self.tier = sys.argv[1]
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = int(hashlib.sha1(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.level = level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        atexit.register(self.cleanup)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(3))
        self.evals = 0
        self.nontrivial = 0
        self.rule = ''
        self.samples = []
        self.classes = {}
        self.coverage = {}
        self.assumptions = []
        self.violations = []     # dicts
        self.notes = []
        self.pool = ThreadPoolExecutor(JOBS)
        self._pch = {}
        self.props = ()
        self.n = 0

    def elapsed(self):
        return time.time() - self.t0

    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough() else quick

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.tmp, name)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.id, time.time() - self.t0), *a, flush=True)

    def count(self, cls, n=1):
        self.classes[cls] = self.classes.get(cls, 0) + n

    # ------------------------------------------------------------ building
    def pch(self, cfg, text=None):
        """precompiled header of a configuration (the library and the harness)"""
        k = cfg.key()
        if cfg.header == 'import':
            if k not in self._pch:
                from . import module
                m = module.build(self, cfg)
                if isinstance(m, str):
                    raise ModuleBroken(m)
                self._pch[k] = (m[0], None)
                cfg.link = tuple(m[1])
            return self._pch[k]
        if k not in self._pch:
            d = self.path('pch_' + k)
            os.makedirs(d, exist_ok=True)
            h = os.path.join(d, 'pre.hpp')
            with open(h, 'w') as f:
                f.write(text or '#include <string>\n#include <string_view>\n#include <%s>\n#include "harness.hpp"\n' % cfg.header)
            out = h + ('.pch' if cfg.cxx.startswith('clang') else '.gch')
            r, o, e = sh([cfg.cxx] + cfg.flags() + ['-x', 'c++-header', h, '-o', out], timeout=300)
            if r != 0:
                alone = self.path('alone_%s.cpp' % k)
                with open(alone, 'w') as f:
                    f.write('#include <%s>\nint main() { }\n' % cfg.header)
                for attempt in (1, 2):
                    q, _, a = sh([cfg.cxx] + cfg.flags() + ['-fsyntax-only', alone], timeout=300)
                    a = a.decode(errors='replace')
                    if q != 1 or 'error:' not in a or any(x in a for x in ('Killed', 'memory exhausted', 'internal compiler error', 'No space left')):
                        break
                else:
                    raise HeaderBroken(cfg, a)
                raise Infra('the library headers do not compile (%s): %s' % (cfg, e.decode(errors='replace')[:800]))
            self._pch[k] = (h, out)
        return self._pch[k]

    def compile(self, src, obj, cfg, timeout=400):
        h, out = self._pch[cfg.key()]
        inc = h if out is None else ['-include-pch', out] if cfg.cxx.startswith('clang') else ['-include', h]
        for attempt in (1, 2):
            r, o, e = sh([cfg.cxx] + cfg.flags() + inc + ['-c', src, '-o', obj], timeout=timeout)
            text = e.decode(errors='replace')
            if r == 0:
                return True, ''
            if r == 1 and 'error:' in text and 'Killed' not in text and 'virtual memory exhausted' not in text and 'internal compiler error' not in text:
                return False, text
        return None, 'compiler: status %d %s' % (r, text[:400])

    def driver(self, src='driver_main.cpp', flags=()):
        obj = self.path(src.replace('.cpp', '.o'))
        if not os.path.exists(obj):
            r, o, e = sh(['g++', '-std=c++17', '-O2', '-I' + LIB] + list(flags) + ['-c', os.path.join(LIB, src), '-o', obj], timeout=300)
            if r != 0:
                raise Infra('driver: ' + e.decode(errors='replace')[:800])
        return obj

    # ------------------------------------------------------------ evidence and verdict
    def violation(self, kind, what, data):
        self.violations.append(dict(kind=kind, what=what, **data))

    def write_replay(self, v, n):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.id, n))
        with open(p, 'w') as f:
            json.dump(dict(property=self.id, seed=self.seed, tier=self.tier, **v), f, indent=1, ensure_ascii=True)
        return os.path.relpath(p, VERIF)

    def known(self):
        p = os.path.join(VERIF, 'known_findings.jsonl')
        out = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith('fixed:'):
                    d = json.loads(line)
                    if d.get('property') == self.id:
                        out.append(d)
        return out

    def finish(self, fast=False):
        cov = dict(evaluations=int(self.evals), distinct_nontrivial=int(self.nontrivial), rule=self.rule, samples=self.samples[:12])
        if self.classes:
            cov['classes'] = dict(sorted(self.classes.items()))
        cov.update(self.coverage)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.notes:
            ev['notes'] = self.notes[:50]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for i, v in enumerate(self.violations[:5]):
            rp = self.write_replay(v, i + 1)
            print('  %s: %s' % (v['kind'], v['what'][:600]), flush=True)
            print('VIOLATION property=%s replay=%s' % (self.id, rp), flush=True)
        self.log('evaluations=%d nontrivial=%d violations=%d' % (self.evals, self.nontrivial, len(self.violations)))
        self.pool.shutdown(wait=False, cancel_futures=True)
        self.cleanup()
        if fast:
            sys.stdout.flush()
            os._exit(1 if self.violations else 0)
        sys.exit(1 if self.violations else 0)


def main(fn, pid):
    """runs a check; anything unexpected is an error of the check (exit 2), never a verdict"""
    c = Check(pid)

    def late(*_):
        if c.violations:        # what was found counts, its reduction can't go on
            c.notes.append('stopped while failures were reduced')
            c.finish(fast=True)

    if not c.thorough():
        signal.signal(signal.SIGALRM, late)
        signal.alarm(820)
    try:
        fn(c)
    except SystemExit:
        raise
    except HeaderBroken as x:
        errs = [l for l in x.text.splitlines() if 'error' in l]
        c.violation('header', '%s does not compile (%s): %s' % (x.cfg.header, x.cfg, '; '.join(errs[:2])[:500]),
                    dict(source='#include <%s>\nint main() { }\n' % x.cfg.header, config=x.cfg.as_dict()))
    except BaseException:
        import traceback
        traceback.print_exc()
        c.cleanup()
        os._exit(2)
    c.finish()
