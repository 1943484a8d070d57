"""Runs a replay file: exit 1 (and a VIOLATION line) if it still fails, 0 if it passes."""
import importlib
import json
import os
import sys
from . import core
from .core import Config, Check, sh
from .engine import Engine, Case


def config(d):
    return Config(d['cxx'], d['std'], d['opt'], tuple(d['defs']), d['inc'], d['header'], tuple(d['extra']), () if d['header'] == 'import' else tuple(d['link']))


def main(path):
    d = json.load(open(path))
    sys.argv = [sys.argv[0]]
    c = Check(d['property'])
    c.log = lambda *a: None
    fails = False
    if d.get('source'):
        cfg = config(d['config'])
        src, exe = c.path('r.cpp'), c.path('r')
        open(src, 'w').write(d['source'])
        r, o, e = sh([cfg.cxx] + cfg.flags() + [src, '-o', exe] + list(cfg.link), timeout=600)
        if r:
            print(e.decode(errors='replace')[:2000])
            fails = True
        else:
            r, o, e = sh([exe] + [str(a) for a in d.get('args', [])], timeout=600)
            print(o.decode(errors='replace')[:2000], e.decode(errors='replace')[:2000])
            fails = r != 0
    elif d.get('check_replay'):
        mod = importlib.import_module('checks.' + d['property'].lower())
        fails = mod.replay(c, d)
    else:
        args = list(d.get('run_args', ()))
        if d.get('props'):
            with open(c.path('ucd.tsv'), 'w') as f:
                for n, v in d['props'].items():
                    f.write('%s\t%s\n' % (n, ','.join(map(str, v))))
            args = [c.path('ucd.tsv') if a == '@ucd' else a for a in args]
            c.props = list(d['props'])
        e = Engine(c, config(d['config']), prelude=d.get('prelude') or '', driver=d.get('driver', 'driver_main.cpp'), run_args=args)
        case = Case(d['pattern_code_points'], [tuple(o) for o in d['ops']], d['unit'], None, d.get('extra', 0), d.get('decl'))
        for case2, row in e.recheck([case], d.get('subject')):
            fails = True
            row = dict(row)
            if 'err' in row:
                row['err'] = row['err'][:1500]
            print(json.dumps(row))
    c.cleanup()
    if fails:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
    else:
        print('passes: %s' % path)
    return 1 if fails else 0
