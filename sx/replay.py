"""Run harnesses on the real code with concrete inputs.

    replay.py --serve            JSON requests on stdin, answers on stdout
    replay.py FILE               replay a recorded violation, exit 1 if it is
                                 (still) there
"""
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, VERIF]
sys.dont_write_bytecode = True
# A local time with another date than UTC, whatever the time is.
os.environ['TZ'] = 'SXT%s13:30' % ('+' if time.gmtime().tm_hour < 12 else '-')
time.tzset()
warnings.simplefilter('ignore')


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_concrete(prop, case, params, inputs, tier, limit=60):
    """Returns (log, error): log is a list of (label, ok, info)."""
    import importlib
    from sx import conapi
    mod = importlib.import_module('props.' + prop.lower())
    fn = [c['fn'] for c in mod.CASES if c['name'] == case][0]
    dirs = []

    def tmpfn():
        dirs.append(tempfile.mkdtemp(prefix='sxr_'))
        return dirs[-1]
    E = conapi.Concrete(inputs, tmpfn, tier)
    err = None
    old = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        os.chdir(E.tmp)
        fn(E, **params)
    except conapi.SkipRest:
        pass
    except conapi.Rejected as e:
        err = 'rejected: %s' % e
    except Hang:
        err = 'hang'
        E.log.append(('terminates', False, 'no result after %d s' % limit))
    except Exception as e:
        E.log.append(('unexpected:' + type(e).__name__, False,
                      traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)
        os.chdir(old)
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    return E.log, err


def serve():
    from sx.plain import PlainFinder
    finder = PlainFinder(REPO, 'dsch')
    finder.install()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    for line in sys.stdin:
        req = json.loads(line)
        finder.purge()
        log, err = run_concrete(req['prop'], req['case'], req['params'],
                                req['inputs'], req['tier'])
        out.write(json.dumps({'log': log, 'err': err}) + '\n')
        out.flush()


def main(path):
    with open(path) as f:
        r = json.load(f)
    log, err = run_concrete(r['property'], r['case'], r['params'],
                            r['inputs'], r['tier'])
    bad = [x for x in log if not x[1]]
    for label, _, info in bad:
        print('FAILS %s: %s' % (label, info))
    if err:
        print('note:', err)
    print('violated' if bad else 'not violated')
    return 1 if bad else 0


if __name__ == '__main__':
    if sys.argv[1] == '--serve':
        serve()
    else:
        sys.exit(main(sys.argv[1]))
