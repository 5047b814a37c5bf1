"""python -m mc.worker JOBFILE: explore one job (see lib and ../check.py)."""
import faulthandler
import importlib
import json
import os
import sys

from mc import lib


def main(jobfile):
    faulthandler.enable()
    with open(jobfile) as f:
        spec = json.load(f)
    job = spec['job']
    rec = lib.Rec(job, lib.Beacon(spec['beacon']), 'replay' in spec)
    rec.case({'phase': 'import', 'mode': job['mode']})
    error = None
    try:
        # The venv's .pth files bind the namespace package to /repo/src.
        src = os.path.realpath(spec['src'])
        repo = os.path.realpath(spec['repo'])
        sys.path[:] = [src] + [p for p in sys.path if p and os.path.realpath(
            p) not in (src, os.path.join(repo, 'src'))]
        import zope
        zope.__path__ = [os.path.join(src, 'zope')] + [
            p for p in zope.__path__ if not os.path.realpath(p).startswith(
                (src + os.sep, repo + os.sep))]
        import zope.security
        if job.get('env') != 'none':
            where = os.path.realpath(zope.security.__path__[0])
            if not where.startswith(src + os.sep):
                raise SystemExit('imported the wrong tree: %s' % where)
            import zope.security.proxy
            pure = zope.security.proxy.Proxy is zope.security.proxy.ProxyPy
            if pure != ('pure' in job['mode']):
                raise RuntimeError('wrong implementation for mode %s'
                                   % job['mode'])
        mod = importlib.import_module('mc.props.' + spec['property'].lower())
        if 'replay' in spec:
            rec.case(spec['replay'])
            mod.replay(spec['replay'], rec, job)
        else:
            mod.explore(job, rec)
    except lib.Stop:
        pass
    except Exception as e:
        # The explorations run without exceptions on correct code; one that
        # gets here comes from code under test that failed where it never
        # should.
        error = lib.describe_exception(e)
    result = rec.result()
    result['error'] = error
    result['current'] = rec.current
    tmp = spec['out'] + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(result, f)
    os.rename(tmp, spec['out'])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1])
