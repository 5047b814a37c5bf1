"""C14: class directives in ZCML produce exactly the declared protections.

Every configuration of up to the bound of class subdirectives, from pools
that cover every attribute and combination of them, over two related classes,
in one file or spread over an including and an included file, one class
element or several, with permissions defined before, after, elsewhere or
nowhere, is executed with the real directives.  Whether it is refused, and
otherwise what is required to read and write each name of each class (asked
for, and by accesses through proxies under every policy), is compared with an
independent model of the directives.
"""
import itertools

from mc import checkers
from mc import lib
from mc import zcml

ASSUMPTIONS = [
    'conflict resolution between files is that of zope.configuration: what '
    'an including file declares overrides the files it includes',
    'copying from another class takes what that class has when the copying '
    'directive is executed, in document order (see C13)',
]
NAMES = ['a', 'b', 'c', 'm', 'r', 's', 't', 'z', '__call__', '__class__',
         'inv', 'A', 'IA', 'interface']
PERMS = {'P': 'mc.P', 'Q': 'mc.Q', 'public': 'zope.Public', 'U': 'mc.U',
         'like': 'zope.public'}
# own names of each interface, and its bases
IFACES = {
    'IEmpty': ([], []), 'IA': (['a', 'b'], []), 'IB': (['c'], ['IA']),
    'IC': (['__call__', 'm'], []), 'ID': (['b'], ['IC']),
    # schemas: r is read-only, m is a method, t a plain attribute
    'IS': (['s', 'r', 'm', 't'], []), 'IT': (['z', 's'], ['IS']),
    'IR': (['s'], ['IS']),
    # all fields inherited, or again writable; and not just text fields
    'IU': ([], ['IT']), 'IV': (['c', 's'], ['IR', 'IA']),
}
# the writable fields of each, all inherited ones included
FIELDS = {'IEmpty': [], 'IA': [], 'IB': [], 'IC': [], 'ID': [],
          'IS': ['s'], 'IT': ['s', 'z'], 'IR': [], 'IU': ['s', 'z'],
          'IV': ['c', 's']}
POLICIES = [(), ('mc.P',), ('mc.Q',), ('zope.public',), ('mc.P', 'mc.Q')]


def names_of(i):
    own, bases = IFACES[i]
    out = set(own)
    for b in bases:
        out |= set(names_of(b))
    return sorted(out)


class World:
    def __init__(self):
        from zope import schema
        from zope.interface import Attribute
        from zope.interface import Interface
        from zope.interface import invariant
        from zope.security import checker as zc
        from zope.security import proxy as zp
        from zope.security._definitions import thread_local
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import IPermission
        from zope.security.interfaces import Unauthorized
        from zope.security.permission import Permission
        self.zc, self.zp, self.tl = zc, zp, thread_local
        self.F, self.U = ForbiddenAttribute, Unauthorized
        self.IPermission, self.Permission = IPermission, Permission
        self.zcml = zcml.Zcml()
        fix = self.fix = self.zcml.fix

        class IEmpty(Interface):
            pass

        class IA(Interface):
            a = Attribute('a')

            def b():
                "b"

        class IB(IA):
            c = Attribute('c')

        class IC(Interface):
            def __call__():
                "call"

            def m():
                "m"

        class ID(IC):
            b = Attribute('b')

            @invariant
            def inv(ob):
                pass

        class IS(Interface):
            s = schema.TextLine(title='s')
            r = schema.Int(title='r', readonly=True)
            t = Attribute('t')

            def m():
                "m"

        class IT(IS):
            z = schema.Bool(title='z', required=False)
            s = schema.Text(title='s')

        class IR(IS):
            s = schema.TextLine(title='s', readonly=True)

        class IU(IT):
            pass

        class IV(IR, IA):
            c = schema.List(title='c', value_type=schema.Choice(values=(1,)))
            s = schema.Object(IA, title='s', readonly=False)
        for i in (IEmpty, IA, IB, IC, ID, IS, IT, IR, IU, IV):
            setattr(fix, i.__name__, i)

        class Interaction:
            allowed = ()

            def checkPermission(self, permission, obj):
                return permission in self.allowed
        self.interaction = Interaction()

    def fresh(self):
        self.zcml.clean()
        self.classes = {}
        for k, base in (('X', object), ('Y', 'X')):
            base = self.classes.get(base, object)
            ns = dict.fromkeys(['a', 'b', 'c', 'm', 'r', 's', 't', 'z',
                                'inv', 'A', 'IA', 'interface'], 1)
            ns['__call__'] = lambda self: 1
            ns['__module__'] = 'mcfix'
            cls = type(k, (base,), ns)
            self.classes[k] = cls
            setattr(self.fix, k, cls)

    def value(self, p):
        return self.zc.CheckerPublic if p == 'public' else PERMS[p]


# A declaration is a dict: 'do' (require, allow, implements, factory) and the
# attributes of the directive; values are lists of short names.

def text_of(d):
    a = {}
    for k, v in d.items():
        if k == 'do':
            continue
        if k == 'permission':
            a[k] = PERMS[v]
        elif k in ('interface', 'set_schema', 'like_class'):
            a[k] = ' '.join('mcfix.' + x for x in (
                [v] if isinstance(v, str) else v))
        elif isinstance(v, str):
            a[k] = v
        else:
            a[k] = ' '.join(v)
    return '<%s%s/>' % (d['do'], zcml.attrs(a))


def actions(k, d, path):
    """The actions of a declaration for class k, or an error."""
    do = d['do']
    if do in ('implements', 'factory'):
        return [('none', None, None, None)] if do == 'implements' else [
            ('factory', (d.get('id') or 'mcfix.' + k,), None, path)]
    out = []
    like = d.get('like_class')
    if like and do == 'require':
        out.append(('like', None, (k, like), path))
    needs = [n for n in ('interface', 'attributes', 'set_attributes',
                         'set_schema') if d.get(n)]
    if not needs:
        if like:
            return out
        return 'refused'
    p = 'public' if do == 'allow' else d.get('permission')
    if not p:
        return 'refused'
    for i in d.get('interface', ()):
        for n in names_of(i):
            out.append(('name', (k, n), (k, n, p), path))
    for n in d.get('attributes', ()):
        out.append(('name', (k, n), (k, n, p), path))
    for n in d.get('set_attributes', ()):
        out.append(('set', (k, n), (k, n, p), path))
    for i in d.get('set_schema', ()):
        for n in FIELDS[i]:
            out.append(('set', (k, n), (k, n, p), path))
    return out


def model(config, first=None):
    """(verdict, protections) of a configuration: a list of
    (path, class, declaration), the path being () or ('inc',)."""
    acts, named = [], set()
    for path, k, d in config['body']:
        a = actions(k, d, tuple(path))
        if a == 'refused':
            return 'refused', None
        acts += a
        if 'permission' in d:
            named.add(d['permission'])
    by = {}
    for i, (what, key, args, path) in enumerate(acts):
        if key is not None:
            by.setdefault((what, key), []).append((path, i))
    drop = set()
    for uses in by.values():
        uses.sort()
        base = uses[0][0]
        for path, i in uses[1:]:
            if path == base or path[:len(base)] != base:
                return 'conflict', None
            drop.add(i)
    if named - set(config['defined']) - {'public'} - set(
            config.get('have', ())):
        return 'undefined', None
    prot = first or {'X': ({}, {}), 'Y': ({}, {})}
    for i, (what, key, args, path) in enumerate(acts):
        if i in drop or args is None:
            continue
        if what == 'like':
            k, source = args
            g, s = prot[source]
            prot[k][0].update(dict(g))
            prot[k][1].update(dict(s))
        else:
            k, n, p = args
            prot[k][0 if what == 'name' else 1][n] = p
    return 'ok', prot


def texts(config):
    """The main file and the included files."""
    def body(items):
        out, last = [], None
        for path, k, d in items:
            if config.get('join') and last == k:
                out[-1] = out[-1][:-len('</class>')]
                out.append(text_of(d) + '</class>')
            else:
                out.append('<class class="mcfix.%s">%s</class>' % (
                    k, text_of(d)))
            last = k
        return ''.join(out)

    def perms():
        return ''.join('<permission id="%s" title="t"/>' % PERMS[p]
                       for p in config['defined'])
    where = config.get('where', 'before')
    inc = [x for x in config['body'] if x[0]]
    n = 0
    parts = []
    # runs of the same file, in document order
    files = {}
    for path, run in itertools.groupby(config['body'],
                                       key=lambda x: tuple(x[0])):
        run = list(run)
        if path:
            n += 1
            name = '/mc/inc%d.zcml' % n
            files[name] = zcml.HEAD + body(run) + '</configure>'
            parts.append('<include file="%s"/>' % name)
        else:
            parts.append(body(run))
    assert len(files) <= 1 or inc
    main = ''.join(parts)
    if where == 'before':
        main = perms() + main
    elif where == 'after':
        main += perms()
    elif where == 'included':
        files['/mc/perms.zcml'] = zcml.HEAD + perms() + '</configure>'
        main += '<include file="/mc/perms.zcml"/>'
    if config.get('group'):
        main = '<configure>%s</configure>' % main
    return zcml.HEAD + main + '</configure>', files


def register(w, config):
    if config.get('where') == 'registered':
        import zope.component
        for p in config['defined']:
            zope.component.provideUtility(
                w.Permission(PERMS[p], 't'), w.IPermission, PERMS[p])


def run(w, config, rec, deep=False):
    w.fresh()
    register(w, config)
    first = None
    if 'first' in config:
        verdict, first = model(config['first'])
        got, e = w.zcml.run(*texts(config['first']))
        if got != verdict or verdict != 'ok':
            rec.violation('%r is %s (%s), not %s' % (
                config['first'], got, e, verdict),
                fingerprint='first %s, not %s' % (got, verdict))
            return 'bad'
    verdict, prot = model(config, first)
    text, files = texts(config)
    rec.step(len(config['body']))
    got, e = w.zcml.run(text, files)
    if got != verdict:
        rec.violation('%s\n%r\nis %s (%s), not %s' % (
            text, files, got, e, verdict),
            fingerprint='%s, not %s' % (got, verdict))
        return 'bad'
    if got == 'undefined':
        return got
    prot = prot or first or {'X': ({}, {}), 'Y': ({}, {})}
    msg = compare(w, prot) or (effective(w, prot) if deep else None)
    if msg:
        rec.violation('%s\n%r: %s' % (text, files, msg),
                      fingerprint=msg[:40])
        return 'bad'
    if got == 'ok':
        msg = others(w, config)
        if msg:
            rec.violation('%s\n%r: %s' % (text, files, msg),
                          fingerprint=msg[:40])
    return got


def others(w, config):
    """What implements and factory declare."""
    import zope.component
    from zope.component.interfaces import IFactory
    seen = set()
    # what the including file says comes first
    for path, k, d in sorted(config['body'], key=lambda x: tuple(x[0])):
        cls = w.classes[k]
        if d['do'] == 'implements':
            for i in d['interface']:
                if not getattr(w.fix, i).implementedBy(cls):
                    return '%s does not implement %s' % (k, i)
        elif d['do'] == 'factory':
            id = d.get('id') or 'mcfix.' + k
            if id in seen:
                continue
            seen.add(id)
            f = zope.component.queryUtility(IFactory, id)
            if f is None:
                return 'no factory for %s' % k
            f = w.zp.removeSecurityProxy(f)
            if f._callable is not cls:
                return 'wrong factory for %s' % k
    return None


def compare(w, prot):
    for k, cls in w.classes.items():
        c = w.zc.selectChecker(cls())
        for n in NAMES + sorted(
                {*prot[k][0], *prot[k][1]}.difference(NAMES)):
            for i, p in ((0, c.permission_id(n)),
                         (1, c.setattr_permission_id(n))):
                m = prot[k][i].get(n)
                want = None if m is None else w.value(m)
                if not (p is want or (type(want) is str and type(p) is str
                                      and p == want)):
                    return '%s %s of %s requires %r, not %r' % (
                        ('reading', 'writing')[i], n, k, p, want)
        known = w.zc.getCheckerForInstancesOf(cls)
        if known is None:
            if prot[k] != ({}, {}):
                return '%s is not registered' % k
            continue
        for i, d in ((0, c.get_permissions), (1, c.set_permissions)):
            if set(d) != set(prot[k][i]):
                return 'declares %r for %s' % (sorted(d), k)
    return None


def effective(w, prot):
    for k, cls in w.classes.items():
        obj = cls()
        p = w.zc.ProxyFactory(obj)
        if type(p) is not w.zp.Proxy:
            return 'an instance of %s is not proxied' % k
        for allowed in POLICIES:
            w.interaction.allowed = allowed
            w.tl.interaction = w.interaction
            try:
                for n in ['a', 'b', 'c', 'm', 'r', 's', 'z', '__call__']:
                    for i, entry in ((0, 'get'), (1, 'set')):
                        m = prot[k][i].get(n)
                        if m == 'public':
                            want = 'ok'
                        elif m is None:
                            want = 'forbidden'
                        else:
                            want = 'ok' if PERMS[m] in allowed else 'no'
                        try:
                            if entry == 'set':
                                setattr(p, n, 1)
                            elif n == '__call__':
                                p()
                            else:
                                getattr(p, n)
                            got = 'ok'
                        except w.U:
                            got = 'no'
                        except w.F:
                            got = 'forbidden'
                        if got != want:
                            return '%s %s of %s under %r: %s, not %s' % (
                                entry, n, k, allowed, got, want)
            finally:
                del w.tl.interaction
    return None


def req(**kw):
    return dict(do='require', **kw)


def allow(**kw):
    return dict(do='allow', **kw)


def single_pool():
    """Every combination of the attributes of a directive."""
    out = []
    vals = dict(
        permission=[None, 'P', 'public', 'U', 'like'],
        attributes=[None, ['a'], ['a', 'b'], ['a', 'a']],
        interface=[None, ['IA'], ['IB'], ['IEmpty'], ['IA', 'IC'],
                   ['IA', 'IB'], ['ID'], ['IV']],
        set_attributes=[None, ['a'], ['a', 's'], ['s', 's']],
        set_schema=[None, ['IS'], ['IT'], ['IR'], ['IA'], ['IS', 'IT'],
                    ['IU'], ['IV']],
        like_class=[None, 'X', 'Y'])
    keys = sorted(vals)
    for combo in itertools.product(*[vals[k] for k in keys]):
        out.append(dict({k: v for k, v in zip(keys, combo)
                         if v is not None}, do='require'))
    for a in vals['attributes']:
        for i in vals['interface']:
            d = dict(do='allow')
            if a is not None:
                d['attributes'] = a
            if i is not None:
                d['interface'] = i
            out.append(d)
    return out


def pool(size):
    out = [
        req(permission='P', attributes=['a']),
        req(permission='Q', attributes=['b', 'a']),
        req(permission='public', attributes=['s']),
        req(permission='P', interface=['IB']),
        req(permission='Q', set_attributes=['a']),
        req(permission='P', set_schema=['IT']),
        req(like_class='X'), req(like_class='Y'),
        allow(attributes=['a', 'm']), allow(interface=['IC']),
        req(permission='Q', like_class='Y', attributes=['b'],
            set_attributes=['s']),
        req(permission='U', attributes=['z']),
        # refused
        req(permission='P'),
    ]
    if size > 1:
        out += [
            req(permission='Q', interface=['IA'], attributes=['c'],
                set_attributes=['c'], set_schema=['IS']),
            req(permission='public', set_schema=['IS']),
            req(permission='public', set_attributes=['z', 'a']),
            req(permission='P', set_schema=['IR', 'IA']),
            req(permission='Q', set_schema=['IV', 'IR']),
            req(permission='Q', interface=['IS', 'ID']),
            req(permission='P', like_class='X'),
            req(permission='P', like_class='X', set_schema=['IS']),
            req(permission='like', attributes=['a']),
            allow(attributes=['c'], interface=['IEmpty']),
            req(attributes=['a']), req(set_schema=['IS']),
            req(like_class='Y', interface=['IC']), allow(), req(),
            dict(do='implements', interface=['IA', 'IS']),
            dict(do='factory'), dict(do='factory', id='mc.factory'),
        ]
    return out


def configs(part, tier):
    big = tier == 'thorough'
    if part == 'single':
        # one directive with everything, after another class has something
        prior = [((), 'Y', req(permission='Q', attributes=['b', 'z'],
                               set_attributes=['s', 'b']))]
        for d in single_pool():
            for before in ([], prior):
                yield dict(body=before + [((), 'X', d)],
                           defined=['P', 'Q', 'like'])
            if d.get('permission') == 'U':
                yield dict(body=[((), 'X', d)], defined=['U'])
    elif part == 'pairs':
        for k, j in (('X', 'X'), ('X', 'Y'), ('Y', 'X')):
            for d, e in itertools.product(pool(2), repeat=2):
                body = [((), k, d), ((), j, e)]
                for where in ('before', 'after', 'included', 'registered'):
                    yield dict(body=body, defined=['P', 'Q', 'like'],
                               where=where, join=where != 'after')
                yield dict(body=body, defined=['P'], where='before')
                for paths in (((), ('inc',)), (('inc',), ()),
                              (('inc',), ('inc',))):
                    yield dict(body=[(paths[0], k, d), (paths[1], j, e)],
                               defined=['P', 'Q', 'like', 'U'],
                               group=paths == ((), ('inc',)))
    elif part == 'triples':
        ks = list(itertools.product('XY', repeat=3))
        p = pool(2) if big else [pool(1)[i] for i in (
            0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 12)]
        for ds in itertools.product(p, repeat=3):
            for k in ks[:4]:
                body = [((), x, d) for x, d in zip(k, ds)]
                yield dict(body=body, defined=['P', 'Q', 'U', 'like'],
                           join=True)
    elif part == 'files':
        # three declarations in every placement in files
        p = [pool(1)[i] for i in (0, 1, 7, 10, 4)]
        if big:
            p = pool(1)
        for ds in itertools.product(p, repeat=3):
            for places in itertools.product((0, 1), repeat=3):
                n, last, body = 0, 0, []
                for x, d, here in zip('XYX', ds, places):
                    if here and not last:
                        n += 1
                    last = here
                    body.append((('inc%d' % n,) if here else (), x, d))
                yield dict(body=body, defined=['P', 'Q', 'U'])
    elif part == 'crowd':
        # many names in one directive or in as many, one of them different,
        # repeated, or with a permission that is not defined
        for n in (2, 3, 5, 8, 9, 16, 17, 33, 65, 130):
            ns = ['x%d' % i for i in range(n)]
            for k in sorted({0, 1, n // 2, n - 1} & set(range(n))):
                for p in ('P', 'Q', 'public', 'U'):
                    for again in (ns[k], 'other'):
                        yield dict(body=[((), 'X', req(permission='P', attributes=ns, set_attributes=ns[::2])),
                                         ((), 'X', req(permission=p, attributes=[again, 'a']))],
                                   defined=['P', 'Q'])
                    body = [((), 'X' if i % 3 else 'Y', req(permission=p if i == k else 'P', attributes=[x]))
                            for i, x in enumerate(ns)]
                    yield dict(body=body, defined=['P', 'Q'])
                    for at in (0, n // 2, n):
                        yield dict(body=body[:at] + [
                            (('inc',), 'X', req(permission=p, attributes=[ns[k]]))] + body[at:],
                            defined=['P', 'Q'])
    elif part == 'two':
        # one configuration after another
        ok = [d for d in pool(2) if d.get('permission') not in (
            'U', 'like') and model(dict(body=[((), 'X', d)], defined=[
                'P', 'Q']))[0] == 'ok' and d['do'] in ('require', 'allow')]
        for k, j in ('XX', 'XY', 'YX'):
            for d, e in itertools.product(ok, pool(2)):
                for defined in (['P', 'Q'], []):
                    yield dict(
                        first=dict(body=[((), k, d)], defined=['P', 'Q']),
                        body=[((), j, e)], defined=defined, have=['P', 'Q'])
    elif part == 'quads':
        p = [pool(1)[i] for i in (0, 1, 4, 6, 7, 8)]
        for ds in itertools.product(p, repeat=4):
            for k in ('XYXY', 'YXXY', 'XXYX', 'YYXX'):
                yield dict(body=[((), x, d) for x, d in zip(k, ds)],
                           defined=['P', 'Q', 'U'])


PARTS = ['single', 'pairs', 'triples', 'files', 'two', 'crowd']


def bounds(tier):
    parts = PARTS + (['quads'] if tier == 'thorough' else [])
    return {p: sum(1 for _ in configs(p, tier)) for p in parts}


def jobs(tier):
    out = []
    big = tier == 'thorough'
    for mode in ('c', 'pure') if big else ('c',):
        for p, n in (('single', 4), ('pairs', 4), ('triples', 4),
                     ('files', 2), ('two', 2), ('crowd', 1)):
            out += lib.shards(n * 4 if big else n, mode=mode, part=p)
    if big:
        out += lib.shards(8, mode='c', part='quads')
    else:
        out += lib.shards(2, mode='pure', part='files')
        out += lib.shards(4, mode='pure', part='single')
    # a base class may come to implement something after a derived class
    return [dict(j, environ={'ZOPE_INTERFACE_STRICT_IRO': '0'}) for j in out]


def explore(job, rec):
    w = World()
    try:
        for n, config in enumerate(lib.shard(
                configs(job['part'], job['tier']), job)):
            rec.case(config)
            r = run(w, config, rec, deep=n % 8 == 0 or
                    job['part'] == 'single' or job['tier'] == 'thorough')
            rec.state(config)
            rec.trace('%s: %s' % (job['part'], r),
                      dict(config=config, text=texts(config)))
    finally:
        w.zcml.clean()
        checkers.cleanup()


def replay(case, rec, job):
    w = World()
    print(texts(case))
    run(w, case, rec, deep=True)
