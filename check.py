#!/usr/bin/env python3
"""python3 check.py <property> [--thorough] [-v]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import importlib                                            # noqa: E402
import traceback                                            # noqa: E402
import threading                                            # noqa: E402

PROPS = {
    'C01': 'losa', 'C02': 'losa', 'C03': 'losa', 'C04': 'losa',
    'C05': 'losa', 'C06': 'losa', 'C07': 'losa',
    'C08': 'flowp', 'C09': 'flowp', 'C10': 'flowp', 'C26': 'flowp',
    'C13': 'radial', 'C14': 'radial', 'C15': 'radial', 'C16': 'radial',
    'C17': 'calib', 'C18': 'calib', 'C19': 'calib', 'C20': 'calib',
    'C21': 'calib', 'C22': 'calib',
    'C12': 'select', 'C23': 'select',
    'C11': 'pattern', 'C24': 'pattern', 'C25': 'pattern', 'C27': 'pattern',
    'C28': 'measure', 'C29': 'report',
    'C30': 'plots',
}


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    rc = 0
    for pid in ids or sorted(PROPS):
        m = importlib.import_module('dsa.props.' + PROPS[pid])
        from dsa.entry import Broken
        from dsa import frame
        frame.LAST = None
        try:
            r = getattr(m, pid)(tier)
        except Broken as e:
            print('ERROR property=%s %s' % (pid, e))
            r = 3
        except Exception as e:
            if frame.LAST is None:
                raise
            # the code has a shape the rules do not cope with: what was
            # decided before counts, the rest is undecided
            traceback.print_exc()
            frame.LAST.und('internal', 'check', 'analysis stopped: %s: %s' % (
                type(e).__name__, e))
            r = frame.LAST.finish('Analysis stopped before its end.', [])
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    sys.exit(main())
