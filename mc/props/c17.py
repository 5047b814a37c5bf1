"""C17: trusted adapters get bare objects and hand back protected ones.

Every call of every kind of adapter factory with up to three arguments, each
of every kind (bare, protected, harmless, located, claiming to be a proxy),
around factories that return every kind of adapter (with and without
location, parent, own checker, protection, one of the arguments, an
exception), and every sequence of two calls of one factory from a smaller
pool, is made on the real code in both implementations; the arguments
received, the adapter's parent, its location proxy, its protection and what
else was touched are compared with a model.
"""
import itertools

from mc import checkers
from mc import lib

ASSUMPTIONS = [
    'a factory that returns None for "no adapter" is not given to a locating '
    'factory (it would be located)',
    'security proxies are not put around or inside other proxies by hand',
]
ARGS = ['bare', 'proxied', 'rock', 'proxied list', 'located',
        'proxied located', 'claims', 'none', 'falsy', 'class',
        'proxied class']
PROTECTED = {a for a in ARGS if a.startswith('proxied')}
FACTORIES = ['LocatingTrusted', 'Trusted', 'LocatingUntrusted']
# (kind of adapter): see World.adapter
ADAPTERS = ['plain', 'slots', 'checked', 'own checker', 'noproxy', 'rock',
            'list', 'loc', 'loc parent', 'loc falsy', 'loc empty',
            'loc direct', 'loc sub', 'loc checked', 'loc class parent',
            'proxied', 'proxied loc', 'proxied loc parent', 'locproxy',
            'locproxy parent', 'arg0', 'arg1', 'context', 'raise', 'type',
            'loc property', 'loc noproxy', 'false', 'parent only',
            'parent none', 'parent of class', 'loc odd']


class Boom(Exception):
    pass


class World:
    def __init__(self):
        from zope.interface import directlyProvides
        from zope.interface import implementer
        from zope.location import ILocation
        from zope.location import LocationProxy
        from zope.location.interfaces import IContained
        from zope.security import adapter as za
        from zope.security import checker as zc
        from zope.security import proxy as zp
        self.za, self.zc, self.zp = za, zc, zp
        self.LocationProxy = LocationProxy
        self.factories = dict(
            LocatingTrusted=za.LocatingTrustedAdapterFactory,
            Trusted=za.TrustedAdapterFactory,
            LocatingUntrusted=za.LocatingUntrustedAdapterFactory)

        class Context:
            pass

        class Claims:
            __class__ = zp.Proxy

        class Falsy:
            def __len__(self):
                return 0

        class Plain:
            pass

        class Slots:
            __slots__ = ('x',)

        class Checked:
            pass

        class Own:
            __Security_checker__ = zc.NamesChecker(['x'])

        class NoProxy:
            pass

        @implementer(ILocation)
        class Loc:
            __parent__ = __name__ = None

        @implementer(ILocation)
        class LocClassParent:
            __name__ = None
            __parent__ = 'of the class'

        @implementer(IContained)
        class LocSub:
            __parent__ = __name__ = None

        @implementer(ILocation)
        class LocChecked:
            __parent__ = __name__ = None

        @implementer(ILocation)
        class LocNoProxy:
            __parent__ = __name__ = None

        @implementer(ILocation)
        class LocProperty:
            __name__ = None
            reads = 0

            @property
            def __parent__(self):
                self.reads += 1
                return self.__dict__.get('stored')

            @__parent__.setter
            def __parent__(self, value):
                self.stored = value

        class Parental:
            __parent__ = __name__ = 'of the class'
        self.Parental = Parental

        class False_:
            def __bool__(self):
                return False

        class Odd:
            def __eq__(self, other):
                return True

            def __ne__(self, other):
                return False
            __hash__ = None
        self.odd = Odd()
        self.__dict__.update(
            Context=Context, Claims=Claims, Falsy=Falsy, Plain=Plain,
            Slots=Slots, Checked=Checked, Own=Own, NoProxy=NoProxy, Loc=Loc,
            LocSub=LocSub, LocChecked=LocChecked, LocProperty=LocProperty,
            LocClassParent=LocClassParent, False_=False_,
            LocNoProxy=LocNoProxy)
        self.directlyProvides = directlyProvides
        self.ILocation = ILocation
        self.checker = zc.NamesChecker(['x', '__parent__'])
        zc.defineChecker(Checked, self.checker)
        zc.defineChecker(LocChecked, self.checker)
        zc.defineChecker(NoProxy, zc.NoProxy)
        zc.defineChecker(LocNoProxy, zc.NoProxy)
        # so that the untrusted can give it a parent
        self.settable = zc.Checker({'x': zc.CheckerPublic,
                                    '__provides__': zc.CheckerPublic},
                                   {'__parent__': zc.CheckerPublic})
        self.undefine = [Checked, LocChecked, NoProxy, LocNoProxy]
        self.parent = Context()

    def done(self):
        for c in self.undefine:
            self.zc.undefineChecker(c)

    def argument(self, kind):
        P = self.zc.ProxyFactory
        if kind == 'bare':
            return self.Context()
        if kind == 'proxied':
            return P(self.Context())
        if kind == 'rock':
            return 'rock'
        if kind == 'none':
            return None
        if kind == 'proxied list':
            return P([1])
        if kind == 'located':
            x = self.Loc()
            x.__parent__ = None
            return x
        if kind == 'proxied located':
            return self.zp.Proxy(self.Loc(), self.settable)
        if kind == 'claims':
            return self.Claims()
        if kind == 'falsy':
            return self.Falsy()
        if kind == 'class':
            return type('K', (), {})
        if kind == 'proxied class':
            return P(type('K', (), {}))

    def adapter(self, kind, args):
        """A new adapter, as the factory makes it from *args*."""
        P = self.zp.Proxy
        if kind in ('arg0', 'arg1'):
            n = int(kind[3])
            return args[n] if n < len(args) else args[0]
        if kind == 'context':
            a = self.Plain()
            a.context = args
            return a
        if kind == 'raise':
            raise Boom(kind)
        if kind == 'plain':
            return self.Plain()
        if kind == 'slots':
            return self.Slots()
        if kind == 'checked':
            return self.Checked()
        if kind == 'own checker':
            return self.Own()
        if kind == 'noproxy':
            return self.NoProxy()
        if kind == 'rock':
            return 42
        if kind == 'false':
            return self.False_()
        if kind.startswith('parent'):
            # not a location, all the same
            a = self.Parental() if kind.endswith('class') else self.Plain()
            if not kind.endswith('class'):
                a.__parent__ = self.parent if kind.endswith('only') else None
                a.__name__ = 'n'
            return a
        if kind == 'list':
            return []
        if kind == 'type':
            return self.Plain
        if kind == 'loc':
            return self.Loc()
        if kind == 'loc parent':
            a = self.Loc()
            a.__parent__ = self.parent
            return a
        if kind == 'loc odd':
            a = self.Loc()
            a.__parent__ = self.odd
            return a
        if kind == 'loc falsy':
            a = self.Loc()
            a.__parent__ = 0
            return a
        if kind == 'loc empty':
            a = self.Loc()
            a.__parent__ = self.Falsy()
            return a
        if kind == 'loc direct':
            a = self.Plain()
            self.directlyProvides(a, self.ILocation)
            a.__parent__ = a.__name__ = None
            return a
        if kind == 'loc sub':
            return self.LocSub()
        if kind == 'loc checked':
            return self.LocChecked()
        if kind == 'loc noproxy':
            return self.LocNoProxy()
        if kind == 'loc class parent':
            return self.LocClassParent()
        if kind == 'loc property':
            return self.LocProperty()
        if kind == 'proxied':
            return P(self.Plain(), self.checker)
        c = self.settable
        if kind == 'proxied loc':
            return P(self.Loc(), c)
        if kind == 'proxied loc parent':
            a = self.Loc()
            a.__parent__ = self.parent
            return P(a, c)
        if kind == 'locproxy':
            return self.LocationProxy(self.Plain())
        if kind == 'locproxy parent':
            return self.LocationProxy(self.Plain(), self.parent, 'n')
        raise AssertionError(kind)


LOCATION = {k for k in ADAPTERS if 'loc' in k}


def bare(w, x):
    """removeSecurityProxy, independently."""
    if type(x) is w.zp.Proxy:
        if w.zp.Proxy is getattr(w.zp, 'ProxyPy', None):
            return object.__getattribute__(x, '_wrapped')
        return w.zp.getObject(x)
    return x


def fields(x):
    try:
        return dict(object.__getattribute__(x, '__dict__'))
    except AttributeError:
        return {}


def one(w, kind, factory, call, rec, received, names, adapter_kind):
    """One call of the factory; None or what is wrong."""
    args = [w.argument(a) for a in names]
    bares = [bare(w, a) for a in args]
    before = [fields(b) for b in bares]
    del received[:]
    hot = any(a in PROTECTED for a in names)
    trusted = kind in ('LocatingTrusted', 'Trusted')
    rec.step()
    try:
        result = factory(*args)
    except Boom:
        if adapter_kind != 'raise':
            raise
        result = None
    else:
        if adapter_kind == 'raise':
            return 'the exception is lost'
    if len(received) != 1:
        return 'the factory was called %d times' % len(received)
    got, made = received[0]
    want = bares if trusted and hot else args
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        return 'the factory received %r' % ([type(x) for x in got],)
    if [fields(b) for b in bares] != before and adapter_kind not in (
            'arg0', 'arg1'):
        return 'an argument was changed'
    if adapter_kind == 'raise':
        return None
    # what becomes of the adapter
    adapter, was = made
    context = want[0]
    inner = bare(w, adapter)
    located = w.ILocation.providedBy(adapter)
    if adapter_kind in LOCATION and not located:
        return None     # hidden by the adapter's own protection
    expect = adapter
    wrap = not located and (kind == 'LocatingUntrusted' or (
        kind == 'LocatingTrusted' and hot))
    if located:
        parent = was if was is not None else context
    r = result
    if trusted and hot:
        protected = type(r) is w.zp.Proxy
        # harmless values and those registered so are not protected
        needs = w.zc.selectChecker(bare(w, adapter)) is not None or \
            getattr(bare(w, adapter), '__Security_checker__', None) \
            is not None or type(adapter) is w.zp.Proxy
        if wrap:
            # what is not proxied by itself is not, inside a location proxy
            needs = w.zc.ProxyFactory(w.LocationProxy(adapter))
            needs = type(needs) is w.zp.Proxy
            if adapter_kind in ('plain', 'slots', 'checked', 'own checker',
                                'context', 'list', 'type', 'false',
                                'parent only', 'parent none',
                                'parent of class') \
                    and not needs:
                return 'location proxies are not protected'
        if protected != needs:
            return 'the adapter is %sprotected' % (
                '' if protected else 'not ')
        r = bare(w, r)
        if not wrap:
            r_expect = inner
        else:
            r_expect = expect
        if protected and adapter_kind in ('checked', 'loc checked'):
            c = w.zp.getChecker(result)
            if wrap:
                c.check_getattr(r, 'x')
            elif c is not w.checker:
                return 'the adapter has another checker'
        if protected and adapter_kind == 'own checker' and not wrap and \
                w.zp.getChecker(result) is not w.Own.__Security_checker__:
            return 'the adapter has another checker'
        if protected and type(adapter) is w.zp.Proxy and not wrap and \
                result is not adapter:
            return 'a protected adapter was proxied again'
    else:
        r_expect = expect
    if wrap:
        if type(r) is not w.LocationProxy:
            return 'the adapter is not location-proxied but a %s' % type(r)
        from zope.proxy import getProxiedObject
        if getProxiedObject(r) is not r_expect:
            return 'the location proxy is around another object'
        if r.__parent__ is not context:
            return 'the parent is %r' % (r.__parent__,)
        if r.__name__ is not None and adapter_kind not in (
                'type', 'arg0', 'arg1'):
            return 'the name is %r' % (r.__name__,)
        if adapter_kind not in ('arg0', 'arg1') and getattr(
                inner, '__parent__', None) is not was:
            return 'the adapter itself was given a parent'
        return None
    if r is not r_expect:
        return 'the adapter is a %s' % type(r)
    if located:
        if inner.__parent__ is not parent:
            return 'the parent is %r, not %r' % (inner.__parent__, parent)
        return None
    if adapter_kind not in ('arg0', 'arg1'):
        if getattr(inner, '__parent__', None) is not was:
            return 'the adapter was given a parent'
    return None


def run(w, kind, adapter_kind, calls, rec):
    received = []

    def make(*args):
        entry = [list(args), None]
        received.append(entry)
        a = w.adapter(adapter_kind, args)
        b = bare(w, a)
        try:
            was = b.__parent__
        except AttributeError:
            was = None
        entry[1] = (a, was)
        return a
    make.__name__ = 'the factory'
    make.__module__ = 'some.module'
    factory = w.factories[kind](make)
    if (factory.__name__, factory.__module__, factory.factory) != (
            'the factory', 'some.module', make):
        rec.violation('the factory is not described', fingerprint='names')
    for names in calls:
        msg = one(w, kind, factory, names, rec, received, names,
                  adapter_kind)
        if msg:
            rec.violation('%s(%s)(*%r): %s' % (kind, adapter_kind, names,
                                               msg),
                          fingerprint='%s %s: %s' % (kind, adapter_kind,
                                                     msg[:40]))
            return 'bad'
    return 'ok'


def cases(tier):
    big = tier == 'thorough'
    for kind in FACTORIES:
        for a in ADAPTERS:
            for n in range(1, 4):
                for names in itertools.product(ARGS, repeat=n):
                    yield kind, a, [names]
            for n in (*range(4, 12), 17, 33):
                for k in sorted({0, 1, n // 2, n - 2, n - 1}):
                    for one in ('proxied', 'proxied located', 'rock'):
                        names = ['bare'] * n
                        names[k] = one
                        yield kind, a, [tuple(names)]
            if big:
                for names in itertools.product(
                        ['bare', 'proxied', 'rock', 'proxied located',
                         'none'], repeat=4):
                    yield kind, a, [names]
            for pair in itertools.product(
                    [('bare',), ('proxied',), ('rock', 'proxied'),
                     ('located', 'bare'), ('proxied located',),
                     ('bare', 'bare', 'proxied list')],
                    repeat=3 if big else 2):
                yield kind, a, pair


def skip(kind, adapter, calls):
    # None cannot be located
    return adapter in ('arg0', 'arg1') and any('none' in c for c in calls)


def assert_location(w, rec):
    """assertLocation called by hand."""
    for kind in ADAPTERS:
        if kind in ('raise', 'arg0', 'arg1', 'context'):
            continue
        for parent in ARGS:
            rec.case(['assert', kind, parent])
            assert_one(w, kind, parent, rec)
            rec.trace('assertLocation', rec.current)


def assert_one(w, kind, parent, rec):
    p = w.argument(parent)
    a = w.adapter(kind, ())
    inner = bare(w, a)
    located = w.ILocation.providedBy(a)
    was = getattr(inner, '__parent__', None) if located else None
    r = w.za.assertLocation(a, p)
    msg = None
    if located:
        if r is not a:
            msg = 'another object'
        elif inner.__parent__ is not (p if was is None else was):
            msg = 'parent %r' % (inner.__parent__,)
    elif type(r) is not w.LocationProxy or r.__parent__ is not p:
        msg = 'not located'
    if msg:
        rec.violation('assertLocation(%s, %s): %s' % (kind, parent, msg),
                      fingerprint='assertLocation ' + msg)


def bounds(tier):
    return dict(calls=sum(1 for _ in cases(tier)), arguments=33,
                argument_kinds=len(ARGS), adapter_kinds=len(ADAPTERS))


def jobs(tier):
    out = []
    for mode in ('c', 'pure'):
        out += lib.shards(8 if tier == 'thorough' else 4, mode=mode,
                          part='calls')
    out += [dict(mode=m, part='assert') for m in ('c', 'pure')]
    return out


def explore(job, rec):
    w = World()
    try:
        if job['part'] == 'assert':
            assert_location(w, rec)
            return
        for kind, a, calls in lib.shard(cases(job['tier']), job):
            if skip(kind, a, calls):
                continue
            rec.case(['call', kind, a, calls])
            r = run(w, kind, a, calls, rec)
            rec.state((kind, a, calls))
            rec.trace('%s %s: %s' % (kind, len(calls), r), rec.current)
    finally:
        w.done()
        checkers.cleanup()


def replay(case, rec, job):
    w = World()
    if case[0] == 'assert':
        assert_one(w, case[1], case[2], rec)
    else:
        run(w, case[1], case[2], [tuple(c) for c in case[3]], rec)
