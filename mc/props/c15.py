"""C15: module directives protect exactly the declared names.

Every configuration of up to the bound of allow and require directives, from a
pool that covers every combination of their attributes, for two modules, in
one module element or several, nested, in one file or in an including and an
included file (also included inside the module element), and one
configuration after another, is executed with the real directives.  Whether
it is refused, and otherwise what can be read, set and deleted on each proxied
module under every policy, is compared with an independent model.
"""
import itertools
import sys
import types

from mc import checkers
from mc import lib
from mc import zcml

ASSUMPTIONS = [
    'conflict resolution between files is that of zope.configuration',
    'the names that are always available, and __name__ on modules without '
    'declarations, are readable on every module (see C04 and C11)',
]
NAMES = ['a', 'b', 'c', 'd', 'm', 'z', '__doc__', '__dict__', '__name__',
         'sub', 'interface']
ALWAYS = {'__name__'}
PERMS = {'P': 'mc.P', 'Q': 'mc.Q', 'public': 'zope.Public', 'U': 'mc.U',
         'like': 'zope.public'}
IFACES = {'IEmpty': [], 'IA': ['a', 'b'], 'IB': ['a', 'b', 'c'],
          'IC': ['d', 'm'], 'ID': ['a', 'b', 'c', 'd', 'm']}
POLICIES = [(), ('mc.P',), ('mc.Q',), ('zope.public', 'mc.P')]
# a package, another module, a module in the package, and another one that goes
# by the name of the package
MODULES = ['m1', 'm2', 'm1.sub', 'twin']


class Thing:
    pass


class World:
    def __init__(self):
        from zope.interface import Attribute
        from zope.interface import Interface
        from zope.security import checker as zc
        from zope.security import metaconfigure
        from zope.security import proxy as zp
        from zope.security._definitions import thread_local
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        self.zc, self.zp, self.tl = zc, zp, thread_local
        self.mc = metaconfigure
        self.F, self.U = ForbiddenAttribute, Unauthorized
        self.zcml = zcml.Zcml()
        fix = self.fix = self.zcml.fix

        class IEmpty(Interface):
            pass

        class IA(Interface):
            a = Attribute('a')

            def b():
                "b"

        class IB(IA):
            c = Attribute('c')

        class IC(Interface):
            d = Attribute('d')

            def m():
                "m"

        class ID(IB, IC):
            a = Attribute('again')
        for i in (IEmpty, IA, IB, IC, ID):
            setattr(fix, i.__name__, i)

        class Interaction:
            allowed = ()

            def checkPermission(self, permission, obj):
                return permission in self.allowed
        self.interaction = Interaction()

    def fresh(self):
        self.zcml.clean()
        self.modules = {}
        for k in MODULES + ['other']:
            m = types.ModuleType(
                'mcfix.' + ('m1' if k == 'twin' else k), 'doc')
            for n in NAMES:
                if not n.startswith('__'):
                    setattr(m, n, 'value of ' + n)
            m.b = Thing()
            if '.' in k:
                outer, _, name = k.partition('.')
                setattr(self.modules[outer], name, m)
            else:
                m.sub = types.ModuleType('mcfix.%s.sub' % k)
                m.sub.a = 1
                setattr(self.fix, k, m)
            if k != 'twin':
                sys.modules['mcfix.' + k] = m
            self.modules[k] = m


def text_of(d):
    a = {}
    for k, v in d.items():
        if k == 'permission':
            a[k] = PERMS[v]
        elif k == 'interface':
            a[k] = ' '.join('mcfix.' + x for x in v)
        elif k == 'attributes':
            a[k] = ' '.join(v)
    return '<%s%s/>' % (d['do'], zcml.attrs(a))


def names_of(d):
    out = list(d.get('attributes', ()))
    for i in d.get('interface', ()):
        out += IFACES[i]
    return list(dict.fromkeys(out))


def model(config, first=None):
    prot = {k: dict((first or {}).get(k, {})) for k in MODULES}
    acts, named = [], set()
    for path, k, d in config['body']:
        if d['do'] == 'require':
            if 'permission' not in d:
                return 'refused', None
            named.add(d['permission'])
            p = d['permission']
        else:
            p = 'public'
        for n in names_of(d):
            acts.append((k, n, p, tuple(path)))
    by = {}
    for i, (k, n, p, path) in enumerate(acts):
        by.setdefault((k, n), []).append((path, i))
    for (k, n), uses in by.items():
        uses.sort()
        base = uses[0][0]
        for path, i in uses[1:]:
            if path == base or path[:len(base)] != base:
                return 'conflict', None
        prot[k][n] = acts[uses[0][1]][2]
    if named - set(config['defined']) - {'public'} - set(
            config.get('have', ())):
        return 'undefined', None
    return 'ok', prot


def texts(config):
    """The main file and the included files, laid out as config says."""
    layout = config.get('layout', 'each')
    files = {}
    parts = []
    n = 0
    for path, run in itertools.groupby(config['body'],
                                       key=lambda x: tuple(x[0])):
        run = list(run)
        inner = []
        for k, group in itertools.groupby(run, key=lambda x: x[1]):
            ds = [text_of(d) for _, _, d in group]
            if layout == 'each':
                inner += ['<module module="mcfix.%s">%s</module>' % (k, d)
                          for d in ds]
            else:
                inner.append('<module module="mcfix.%s">%s</module>' % (
                    k, ''.join(ds)))
        if layout == 'nested' and len(inner) > 1:
            # all in an element for another module
            inner = ['<module module="mcfix.other">%s</module>'
                     % ''.join(inner)]
        if path:
            n += 1
            name = '/mc/inc%d.zcml' % n
            if config.get('inside'):
                # the included file holds bare directives for one module
                k = run[0][1]
                if all(x[1] == k for x in run):
                    inner = [text_of(d) for _, _, d in run]
                    parts.append('<module module="mcfix.%s"><include '
                                 'file="%s"/></module>' % (k, name))
                else:
                    parts.append('<include file="%s"/>' % name)
            else:
                parts.append('<include file="%s"/>' % name)
            files[name] = zcml.HEAD + ''.join(inner) + '</configure>'
        else:
            parts += inner
    perms = ''.join('<permission id="%s" title="t"/>' % PERMS[p]
                    for p in config['defined'])
    main = ''.join(parts)
    main = main + perms if config.get('after') else perms + main
    return zcml.HEAD + main + '</configure>', files


def run(w, config, rec):
    w.fresh()
    first = None
    if 'first' in config:
        verdict, first = model(config['first'])
        got, e = w.zcml.run(*texts(config['first']))
        if got != verdict:
            rec.violation('%r is %s (%s), not %s' % (
                config['first'], got, e, verdict), fingerprint='first')
            return 'bad'
    verdict, prot = model(config, first)
    text, files = texts(config)
    rec.step(len(config['body']))
    got, e = w.zcml.run(text, files)
    if got != verdict:
        rec.violation('%s\n%r\nis %s (%s), not %s' % (
            text, files, got, e, verdict),
            fingerprint='%s, not %s' % (got, verdict))
        return 'bad'
    if got == 'undefined':
        return got
    msg = compare(w, prot or first or {})
    if msg:
        rec.violation('%s\n%r: %s' % (text, files, msg),
                      fingerprint=msg[:40])
        return 'bad'
    return got


def direct(w, calls, rec):
    """protectModule called by hand."""
    w.fresh()
    prot = {k: {} for k in MODULES}
    for k, n, p in calls:
        value = w.zc.CheckerPublic if p == 'marker' else PERMS[p]
        w.mc.protectModule(w.modules[k], n, value)
        prot[k][n] = 'public' if p == 'marker' else p
        rec.step()
    msg = compare(w, prot)
    if msg:
        rec.violation('%r: %s' % (calls, msg), fingerprint=msg[:40])
        return 'bad'
    return 'ok'


def compare(w, prot):
    for k, m in w.modules.items():
        decl = prot.get(k, {})
        c = w.zc.moduleChecker(m)
        if c is None:
            if decl:
                return 'no checker for %s' % k
        else:
            for n in NAMES + sorted(set(decl).difference(NAMES)):
                p = decl.get(n)
                want = None if p is None else (
                    w.zc.CheckerPublic if p == 'public' else PERMS[p])
                got = c.permission_id(n)
                if not (got is want or (type(want) is str and got == want)):
                    return 'reading %s of %s requires %r, not %r' % (
                        n, k, got, want)
                if c.setattr_permission_id(n) is not None:
                    return 'writing %s of %s is declared' % (n, k)
            if set(c.get_permissions) != set(decl):
                return 'declares %r for %s' % (set(c.get_permissions), k)
            if c.set_permissions:
                return 'writing of %s is declared' % k
        for mod, d, subject in ((m, decl, k), (m.sub, {}, k + '.sub')):
            if mod is w.modules['m1.sub'] and k == 'm1' or type(mod) is str:
                continue
            msg = effective(w, mod, d, subject)
            if msg:
                return msg
    return None


def effective(w, m, decl, k):
    p = w.zc.ProxyFactory(m)
    if type(p) is not w.zp.Proxy:
        return '%s is not proxied' % k
    before = dict(m.__dict__)
    for allowed in POLICIES:
        w.interaction.allowed = allowed
        w.tl.interaction = w.interaction
        try:
            for n in NAMES:
                d = decl.get(n)
                if d == 'public' or (d is None and n in ALWAYS):
                    want = 'ok'
                elif d is None:
                    want = 'forbidden'
                else:
                    want = 'ok' if PERMS[d] in allowed else 'no'
                for entry in ('get', 'set', 'del'):
                    expect = want if entry == 'get' else 'forbidden'
                    v = None
                    try:
                        if entry == 'get':
                            v = getattr(p, n)
                        elif entry == 'set':
                            setattr(p, n, 1)
                        else:
                            delattr(p, n)
                        got = 'ok'
                    except w.U:
                        got = 'no'
                    except w.F:
                        got = 'forbidden'
                    if got != expect:
                        return '%s %s of %s under %r: %s, not %s' % (
                            entry, n, k, allowed, got, expect)
                    if v is not None and type(v) is not str and type(
                            v) is not w.zp.Proxy:
                        return '%s of %s is not protected' % (n, k)
        finally:
            del w.tl.interaction
    if dict(m.__dict__) != before:
        return '%s was changed' % k
    return None


def pool(size):
    out = []
    attrs = [None, ['a'], ['a', 'b'], ['c', 'c'], ['d'], ['__doc__']]
    ifaces = [None, ['IA'], ['IB'], ['IEmpty'], ['IA', 'IC'], ['IA', 'IB'],
              ['ID']]
    if size < 2:
        attrs, ifaces = attrs[:3], [None, ['IA'], ['IC']]
    for a in attrs:
        for i in ifaces:
            for p in ('allow', None, 'P', 'Q', 'public', 'U', 'like'):
                if size < 2 and p in (None, 'like', 'U', 'Q'):
                    continue
                d = dict(do='allow' if p == 'allow' else 'require')
                if a is not None:
                    d['attributes'] = a
                if i is not None:
                    d['interface'] = i
                if p not in ('allow', None):
                    d['permission'] = p
                out.append(d)
    return out


def req(p, *names, **kw):
    return dict(do='require', permission=p, attributes=list(names), **kw)


def few():
    return [dict(do='allow', attributes=['a']), req('P', 'a'),
            req('Q', 'b', 'c'), dict(do='allow', interface=['IC']),
            dict(do='require', permission='P', interface=['IB']),
            req('public', 'b'), req('U', 'd'), dict(do='allow'),
            dict(do='require', attributes=['a'])]


def configs(part, tier):
    big = tier == 'thorough'
    if part == 'single':
        for d in pool(2):
            for after in (False, True):
                for defined in (['P', 'Q', 'like'], ['U'], ['P', 'Q', 'U']):
                    yield dict(body=[((), 'm1', d)], defined=defined,
                               after=after)
    elif part == 'pairs':
        for d, e in itertools.product(pool(2) if big else pool(1) + few(),
                                      repeat=2):
            for k, j in (('m1', 'm1'), ('m1', 'm2'), ('m1', 'm1.sub'),
                         ('m1.sub', 'm1'), ('m1', 'twin')):
                body = [((), k, d), ((), j, e)]
                for layout in ('each', 'joined', 'nested'):
                    if layout != 'joined' and j != k and j != 'm2':
                        continue
                    yield dict(body=body, defined=['P', 'Q'], layout=layout)
    elif part == 'files':
        for ds in itertools.product(few(), repeat=2):
            for ks in (('m1', 'm1'), ('m1', 'm2'), ('m2', 'm1')):
                for places in itertools.product((0, 1, 2), repeat=2):
                    body = [((), k, d) if not n else (('i%d' % n,), k, d)
                            for n, k, d in zip(places, ks, ds)]
                    if places[0] and places[0] == places[1]:
                        body = [(('i',), k, d) for _, k, d in body]
                    for inside in (False, True):
                        yield dict(body=body, defined=['P', 'Q', 'U'],
                                   inside=inside, layout='joined')
    elif part == 'triples':
        for ds in itertools.product(few(), repeat=3):
            for ks in [*itertools.product(('m1', 'm2'), repeat=3),
                       ('m1', 'm1.sub', 'm1'), ('m1.sub', 'm1', 'twin')]:
                for layout in ('joined', 'nested'):
                    yield dict(body=[((), k, d) for k, d in zip(ks, ds)],
                               defined=['P', 'Q', 'U'], layout=layout)
    elif part == 'crowd':
        # many names in one directive or in as many, one of them different,
        # repeated, or with a permission that is not defined
        for n in (2, 3, 5, 8, 9, 16, 17, 33, 65, 130):
            ns = ['x%d' % i for i in range(n)]
            for k in sorted({0, 1, n // 2, n - 1} & set(range(n))):
                for p in ('P', 'Q', 'public', 'U'):
                    for again in (ns[k], 'other'):
                        yield dict(body=[((), 'm1', req('P', *ns)),
                                         ((), 'm1', req(p, again, 'a'))],
                                   defined=['P', 'Q'])
                    body = [((), 'm1' if i % 3 else 'm2', req(p if i == k else 'P', x))
                            for i, x in enumerate(ns)]
                    yield dict(body=body, defined=['P', 'Q'])
                    for at in (0, n // 2, n):
                        yield dict(body=body[:at] + [
                            (('i',), 'm1', req(p, ns[k]))] + body[at:],
                            defined=['P', 'Q'])
    elif part == 'two':
        ok = [d for d in few() if d.get('permission') != 'U' and (
            d['do'] == 'allow' or 'permission' in d)]
        for d, e in itertools.product(ok, few()):
            for k in MODULES:
                for defined in (['P', 'Q'], []):
                    yield dict(first=dict(body=[((), 'm1', d)],
                                          defined=['P', 'Q']),
                               body=[((), k, e)], defined=defined,
                               have=['P', 'Q'])


def direct_calls(tier):
    ops = [(k, n, p) for k in ('m1', 'm1.sub') for n in ('a', 'b')
           for p in ('P', 'Q', 'public', 'marker', 'like')]
    for n in range(4 if tier == 'thorough' else 3):
        yield from itertools.product(ops, repeat=n)


PARTS = ['single', 'pairs', 'files', 'triples', 'two', 'crowd']


def bounds(tier):
    out = {p: sum(1 for _ in configs(p, tier)) for p in PARTS}
    out['direct'] = sum(1 for _ in direct_calls(tier))
    return out


def jobs(tier):
    big = tier == 'thorough'
    out = []
    for mode in ('c', 'pure'):
        for p, n in (('single', 1), ('pairs', 4), ('files', 1),
                     ('triples', 4), ('two', 1), ('crowd', 1), ('direct', 1)):
            if p == 'triples' and mode == 'pure' and not big:
                continue
            out += lib.shards(n * (4 if big else 1), mode=mode, part=p)
    return out


def explore(job, rec):
    w = World()
    try:
        if job['part'] == 'direct':
            for calls in lib.shard(direct_calls(job['tier']), job):
                rec.case(['direct', calls])
                rec.trace('direct: %s' % direct(w, calls, rec), rec.current)
                rec.state(calls)
            return
        for config in lib.shard(configs(job['part'], job['tier']), job):
            rec.case(config)
            r = run(w, config, rec)
            rec.state(config)
            rec.trace('%s: %s' % (job['part'], r),
                      dict(config=config, text=texts(config)))
    finally:
        w.zcml.clean()
        checkers.cleanup()


def replay(case, rec, job):
    w = World()
    if isinstance(case, list):
        direct(w, case[1], rec)
    else:
        run(w, case, rec)
