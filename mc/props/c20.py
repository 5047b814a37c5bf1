"""C20: the public marker is one object everywhere.

Every chain of up to the bound of the routes a value can take (proxying in
every way, storing in and reading back from protected and unprotected
structures, copying, pickling with either pickler in every protocol) is run on
the real code with the marker: the marker itself must come out.  Every route
by which the public permission can be configured, singly and in pairs with a
second declaration, must store the marker, and access must then be granted
without any question.  Every look-alike is put wherever a permission can be
put: the policy must be asked about that very value.
"""
import copy
import itertools
import pickle
import re

from mc import checkers
from mc import lib
from mc import zcml

ASSUMPTIONS = [
    'a permission handed to a configuration call that equals the public '
    'permission name is that name',
]


class Holder:
    x = None

    def __init__(self, value=None):
        self.value = value
        self.items = [value]

    def method(self, v=None):
        return self.value if v is None else v

    def __call__(self):
        return self.value

    def __getitem__(self, key):
        return self.value

    def __setitem__(self, key, value):
        self.value = value

    def __iter__(self):
        return iter(self.items)

    def __add__(self, other):
        return other

    __radd__ = __add__


class World:
    def __init__(self):
        from zope.security import checker as zc
        from zope.security import management
        from zope.security import metaconfigure
        from zope.security import permission
        from zope.security import protectclass
        from zope.security import proxy as zp
        from zope.security import simplepolicies
        from zope.security._definitions import system_user
        from zope.security._definitions import thread_local
        from zope.security.interfaces import Unauthorized
        self.zc, self.zp, self.tl, self.sp = (
            zc, zp, thread_local, simplepolicies)
        self.mgmt, self.pc, self.mconf = management, protectclass, \
            metaconfigure
        self.pm, self.U, self.system_user = permission, Unauthorized, \
            system_user
        self.marker = zc.CheckerPublic
        self.asked = asked = []

        class Interaction:
            def checkPermission(self, permission, obj):
                asked.append(permission)
                return self.answer
        self.Interaction = Interaction
        self.z = zcml.Zcml()


# Routes of the marker

def routes(w):
    zc, zp = w.zc, w.zp
    names = ['x', 'value', 'items', 'method', '__call__', '__getitem__',
             '__setitem__', '__iter__', '__next__', '__add__', '__radd__',
             '__len__', 'get', 'pop', 'copy', 'append', 'keys', 'values']
    allow = zc.NamesChecker(names)
    write = zc.Checker({n: zc.CheckerPublic for n in names},
                       {n: zc.CheckerPublic for n in names})
    combined = zc.CombinedChecker(allow, zc.NamesChecker(names, 'P'))

    def deep(v):
        return zp.Proxy(Holder(v), allow)

    def pickler(protocol, py, nest):
        def f(v):
            v = {'direct': v, 'list': [v], 'attr': Holder(v),
                 'key': {'k': (v, v)}}[nest]
            v = (pickle._dumps if py else pickle.dumps)(v, protocol)
            v = (pickle._loads if py else pickle.loads)(v)
            return {'direct': lambda: v, 'list': lambda: v[0],
                    'attr': lambda: v.value,
                    'key': lambda: v['k'][1]}[nest]()
        return f

    def setter(v):
        p = zp.Proxy(Holder(), write)
        p.value = v
        return p.value

    def itemsetter(v):
        p = zp.Proxy(Holder(), write)
        p['k'] = v
        return p['k']

    def dictroute(v):
        p = zc.ProxyFactory({'k': v})
        return p['k']

    def perms(v):
        c = zc.Checker({'x': v}, {'x': v})
        return c.get_permissions['x'] if (
            c.set_permissions['x'] is v) else None

    def cperm(v):
        c = zc.Checker({'x': v}, {'x': v})
        return c.permission_id('x') if (
            c.setattr_permission_id('x') is v) else None

    def like(v):
        class A:
            pass

        class B:
            pass
        zc.defineChecker(A, zc.Checker({'x': v}, {'x': v}))
        try:
            w.pc.protectLikeUnto(B, A)
            c = zc.getCheckerForInstancesOf(B)
            if c.set_permissions['x'] is not v:
                return None
            return c.get_permissions['x']
        finally:
            for k in (A, B):
                if zc.getCheckerForInstancesOf(k) is not None:
                    zc.undefineChecker(k)

    out = {
        'ProxyFactory': zc.ProxyFactory,
        'Checker.proxy': allow.proxy,
        'CombinedChecker.proxy': combined.proxy,
        'read': lambda v: deep(v).value,
        'method': lambda v: deep(v).method(),
        'passed': lambda v: deep(None).method(v),
        'call': lambda v: deep(v)(),
        'item': lambda v: deep(v)['k'],
        'iteration': lambda v: list(deep(v))[0],
        'operand': lambda v: deep(None) + v,
        'nested': lambda v: zc.ProxyFactory([[v]])[0][0],
        'tuple': lambda v: zc.ProxyFactory((v,))[0],
        'dict': dictroute,
        'values': lambda v: list(zc.ProxyFactory({'k': v}).values())[0],
        'set attribute': setter, 'set item': itemsetter,
        'permissions': perms, 'permission_id': cperm, 'like': like,
        'copy': copy.copy, 'deepcopy': copy.deepcopy,
        'deepcopy nested': lambda v: copy.deepcopy({'k': [v]})['k'][0],
        'NamesChecker': lambda v: zc.NamesChecker(
            ['x'], v).get_permissions['x'],
        'kw': lambda v: zc.NamesChecker(x=v).get_permissions['x'],
    }
    for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
        for py in (False, True):
            for nest in ('direct', 'list', 'attr', 'key'):
                out['pickle %d %s %s' % (
                    protocol, 'py' if py else 'c', nest)] = pickler(
                        protocol, py, nest)
    return out


def chain(w, table, names, rec):
    v = w.marker
    for n in names:
        rec.step()
        try:
            v = table[n](v)
        except Exception as e:
            rec.violation('route %s: %r' % (' > '.join(names), e),
                          fingerprint='route %s: error' % n)
            return 'error'
        if v is not w.marker:
            rec.violation('route %s makes another object of the marker' % (
                ' > '.join(names)), fingerprint='route %s' % n)
            return 'other'
    return 'same'


# Configuration

def configurations(w):
    """name -> (configure the class or module, 'get' or 'set')."""
    from zope.interface import Interface
    from zope.schema import Text
    zc, pc, mc = w.zc, w.pc, w.mconf

    class IX(Interface):
        x = Text()

    class Str(str):
        pass
    name = 'zope.Public'

    def doc(inner, perm=name):
        def f(k):
            w.z.fix.K, w.z.fix.IX = k, IX
            text = zcml.HEAD + '<permission id="mc.P" title="P"/>' + (
                inner % dict(p=perm)) + '</configure>'
            # the class or module named is in the module mcfix
            r = w.z.run(text)
            assert r[0] == 'ok', r
        return f
    k = '<class class="mcfix.K">%s</class>'
    out = {
        'protectName': (lambda k: pc.protectName(k, 'x', name), 'get'),
        'protectName str': (lambda k: pc.protectName(k, 'x', Str(name)),
                            'get'),
        'protectName fresh': (lambda k: pc.protectName(
            k, 'x', ''.join(['zope', '.Public'])), 'get'),
        'protectName marker': (lambda k: pc.protectName(k, 'x', w.marker),
                               'get'),
        'protectSetAttribute': (lambda k: pc.protectSetAttribute(
            k, 'x', name), 'set'),
        'protectSetAttribute fresh': (lambda k: pc.protectSetAttribute(
            k, 'x', ''.join(['zope', '.Public'])), 'set'),
        'protectSetAttribute marker': (lambda k: pc.protectSetAttribute(
            k, 'x', w.marker), 'set'),
        'require': (doc(k % '<require permission="%(p)s" attributes="x"/>'),
                    'get'),
        'require interface': (doc(
            k % '<require permission="%(p)s" interface="mcfix.IX"/>'), 'get'),
        'allow': (doc(k % '<allow attributes="x"/>'), 'get'),
        'allow interface': (doc(k % '<allow interface="mcfix.IX"/>'), 'get'),
        'set_attributes': (doc(
            k % '<require permission="%(p)s" set_attributes="x"/>'), 'set'),
        'set_schema': (doc(
            k % '<require permission="%(p)s" set_schema="mcfix.IX"/>'),
            'set'),
        'redefined': (doc(
            '<configure><meta:redefinePermission from="mc.P" to="zope.Public"/>'
            + k % '<require permission="mc.P" attributes="x"/>'
            + '</configure>'), 'get'),
        'NamesChecker': (lambda k: zc.defineChecker(
            k, zc.NamesChecker(['x'])), 'get'),
        'InterfaceChecker': (lambda k: zc.defineChecker(
            k, zc.InterfaceChecker(IX)), 'get'),
        'MultiChecker': (lambda k: zc.defineChecker(
            k, zc.MultiChecker([(IX, w.marker)])), 'get'),
    }
    import types
    modules = {
        'protectModule': (lambda m: mc.protectModule(m, 'x', name), 'get'),
        'protectModule fresh': (lambda m: mc.protectModule(
            m, 'x', ''.join(['zope', '.Public'])), 'get'),
        'module require': (lambda m: moddoc(m, '<require permission='
                                            '"zope.Public" attributes="x"/>'),
                           'get'),
        'module require interface': (
            lambda m: moddoc(m, '<require permission="zope.Public" '
                             'interface="mcfix.IX"/>'), 'get'),
        'module allow': (lambda m: moddoc(m, '<allow attributes="x"/>'),
                         'get'),
        'module allow interface': (
            lambda m: moddoc(m, '<allow interface="mcfix.IX"/>'), 'get'),
    }

    def moddoc(m, inner):
        w.z.fix.IX = IX
        text = zcml.HEAD + '<module module="mcmod">%s</module>' % inner + \
            '</configure>'
        r = w.z.run(text)
        assert r[0] == 'ok', r

    def wrap(fn):
        def f(k):
            import sys
            m = types.ModuleType('mcmod')
            m.x = 1
            sys.modules['mcmod'] = m
            try:
                fn(m)
            finally:
                del sys.modules['mcmod']
            return m
        return f
    for n, (fn, how) in modules.items():
        out[n] = wrap(fn), how
    return out


SECOND = [None, 'reads P', 'writes P', 'other name P', 'P first']


def configured(w, table, name, second, rec):
    zc, pc = w.zc, w.pc
    checkers.cleanup()
    w.z.clean()

    class K:
        x = 1
    fn, how = table[name]
    rec.step()
    try:
        if second == 'P first' and 'Checker' not in name:
            (pc.protectName if how == 'get' else pc.protectSetAttribute)(
                K, 'x', 'P')
        subject = fn(K)
        if subject is None:
            subject = K()
            c = zc.getCheckerForInstancesOf(K)
        else:
            c = zc.moduleChecker(subject)
        if 'module' not in name.lower():
            if second == 'reads P' and how == 'set':
                pc.protectName(K, 'x', 'P')
            elif second == 'writes P' and how == 'get':
                pc.protectSetAttribute(K, 'x', 'P')
            elif second == 'other name P':
                pc.protectName(K, 'y', 'P')
                pc.protectSetAttribute(K, 'y', 'P')
        perms = c.get_permissions if how == 'get' else c.set_permissions
        msg = None
        if perms.get('x') is not w.marker:
            msg = 'it became %r' % (perms.get('x'),)
        del w.asked[:]
        for interaction in (False, True):
            if interaction:
                w.tl.interaction = w.Interaction()
                w.tl.interaction.answer = False
            p = zc.ProxyFactory(subject)
            try:
                if how == 'get':
                    p.x
                else:
                    p.x = 2
            except Exception as e:
                msg = msg or 'access %s interaction: %r' % (
                    'with' if interaction else 'without', e)
        if w.asked:
            msg = msg or 'the policy was asked %r' % (w.asked,)
        if msg:
            rec.violation('public configured by %s, then %s: %s' % (
                name, second, msg), fingerprint='config %s' % name)
            return 'bad'
    finally:
        checkers.cleanup()
        w.z.clean()
    return 'ok'


# Look-alikes

def lookalikes(w):
    from zope.location import LocationProxy
    zc, zp = w.zc, w.zp
    bare = zp.removeSecurityProxy(w.marker)

    class Equal(str):
        def __eq__(self, other):
            return True

        def __hash__(self):
            return hash(w.marker)

    class Fake(type(bare)):
        pass
    mod = 'zope.security.checker'
    return {
        'name': 'zope.Public', 'Public': 'Public', 'public': 'zope.public',
        'marker name': 'CheckerPublic', 'dotted': mod + '.CheckerPublic',
        'equal': Equal('zope.Public'),
        'bare': bare,
        'global': zc.Global('CheckerPublic', mod),
        'subclass': Fake('CheckerPublic', mod),
        'proxied bare': zp.Proxy(bare, zc.Checker({})),
        'proxied': zp.Proxy(bare, zp.getChecker(w.marker)),
        'location': LocationProxy(bare),
        'location of the marker': LocationProxy(w.marker),
        'true': True, 'one': 1, 'zero': 0, 'false': False, 'empty': '',
        'object': object(), 'tuple': (), 'type': type(w.marker),
        'repr': repr(w.marker), 'system': w.system_user,
        **NEAR}


def near():
    """All strings one change away from the public permission's name."""
    name = 'zope.Public'
    out = {}

    def add(what, s):
        if s != name:
            out.setdefault(s, what)
    for i, ch in enumerate(name):
        add('without %d' % i, name[:i] + name[i + 1:])
        add('case %d' % i, name[:i] + ch.swapcase() + name[i + 1:])
    for i in range(len(name) + 1):
        for n, ch in (('blank', ' '), ('dot', '.'), ('letter', 'x'),
                      ('newline', '\n'), ('nul', '\0'), ('bom', '\ufeff'),
                      ('soft hyphen', '\xad')):
            add('%s at %d' % (n, i), name[:i] + ch + name[i:])
    for n, x in (('upper', name.upper()), ('lower', name.lower()),
                 ('title', name.title()), ('full stop', 'zope\uff0ePublic'),
                 ('wide', '\uff5aope.Public'), ('twice', name * 2),
                 ('quoted', repr(name)), ('slash', 'zope/Public'),
                 ('colon', 'zope:Public'), ('Private', 'zope.Private'),
                 ('security', 'zope.security.Public')):
        add(n, x)
    values = {'near %s' % what: s for s, what in out.items()}
    values['bytes'] = name.encode()
    values['list'] = (name,)
    return values


NEAR = near()
PLACES = ['check', 'check_getattr', 'check_setattr', 'read', 'write',
          'operation', 'combined first', 'combined second', 'combined write',
          'canAccess', 'canWrite', 'management', 'paranoid', 'names',
          'protected', 'set protected', 'module', 'vocabulary',
          'zcml require', 'zcml set', 'zcml module', 'zcml redefined']


def alike(w, name, place, answer, rec):
    """Only the policy may grant what requires a look-alike."""
    zc, zp = w.zc, w.zp
    v = lookalikes(w)[name]
    checkers.cleanup()
    rec.step()
    h = Holder(1)
    no = zc.Checker({}, {})
    c = zc.Checker({'x': v, '__call__': v}, {'x': v})
    consulted = True
    config = place in ('protected', 'set protected', 'module')
    directive = place.startswith('zcml')
    if directive:
        if not isinstance(v, str) or not DOTTED(v) or name in (
                'name', 'equal'):
            return 'no permission id'
        if type(v) is not str:
            return 'a subclass'
        w.z.clean()
    if config and name in ('name', 'equal'):
        return 'is the name'
    w.tl.interaction = w.Interaction()
    w.tl.interaction.answer = answer
    del w.asked[:]

    def run():
        nonlocal consulted
        if place == 'check':
            c.check(h, 'x')
        elif place == 'check_getattr':
            c.check_getattr(h, 'x')
        elif place == 'check_setattr':
            c.check_setattr(h, 'x')
        elif place == 'read':
            zp.Proxy(h, c).x
        elif place == 'write':
            zp.Proxy(h, c).x = 1
        elif place == 'operation':
            zp.Proxy(h, c)()
        elif place == 'combined first':
            zc.CombinedChecker(c, no).check(h, 'x')
        elif place == 'combined second':
            zc.CombinedChecker(no, c).check_getattr(h, 'x')
        elif place == 'combined write':
            zc.CombinedChecker(no, c).check_setattr(h, 'x')
        elif place == 'canAccess':
            return zc.canAccess(zp.Proxy(h, c), 'x')
        elif place == 'canWrite':
            return zc.canWrite(zp.Proxy(h, c), 'x')
        elif place == 'management':
            return w.mgmt.checkPermission(v, h)
        elif place == 'paranoid':
            consulted = False

            class P:
                principal, interaction = object(), None
            i = w.sp.ParanoidSecurityPolicy(P())
            r = i.checkPermission(v, h)
            if r is not False:
                return 'granted to anybody'
            return answer
        elif place == 'names':
            zc.NamesChecker(['x'], v).check(h, 'x')
        elif place == 'vocabulary':
            consulted = False
            try:
                w.pm.checkPermission(None, v)
            except (ValueError, TypeError):
                return answer
            return 'a defined permission'
        elif directive:
            # (the directive makes the permission's name anew)
            return by_directive(w, place, v)
        else:
            class K:
                x = 1
            if place == 'protected':
                w.pc.protectName(K, 'x', v)
                zc.ProxyFactory(K()).x
            elif place == 'set protected':
                w.pc.protectSetAttribute(K, 'x', v)
                zc.ProxyFactory(K()).x = 1
            else:
                import types
                m = types.ModuleType('mcm')
                m.x = 1
                w.mconf.protectModule(m, 'x', v)
                zc.ProxyFactory(m).x
        return True
    try:
        try:
            r = run()
        except w.U as e:
            r = False
            if e.args[2:] and e.args[2] is not v and not directive:
                r = 'the refusal names %r' % (e.args,)
        except Exception as e:
            r = repr(e)
        msg = None
        if r is not answer:
            msg = 'gave %s' % (r,)
        elif consulted and (len(w.asked) < 1 or any(
                a is not v and not (directive and a == v)
                for a in w.asked)):
            msg = 'the policy was asked %r' % (w.asked,)
        if msg:
            rec.violation('%s as a permission (%s), policy says %s: %s' % (
                name, place, answer, msg),
                fingerprint='look-alike %s in %s' % (name, place))
            return 'bad'
    finally:
        checkers.cleanup()
        if config or directive:
            w.z.clean()
    return 'ok'


DOTTED = re.compile(r'[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)+\Z').match


def by_directive(w, place, v):
    import sys
    import types

    class K:
        x = 1
    w.z.fix.K = K
    if place == 'zcml module':
        sys.modules['mcmod'] = m = types.ModuleType('mcmod')
        m.x = 1
    head = zcml.HEAD + '<permission id="mc.Q" title="Q"/>' \
        '<permission id="%s" title="P"/>' % v
    tail = '</configure>'
    k = '<class class="mcfix.K">%s</class>'
    try:
        r = w.z.run({
            'zcml require': head + k % (
                '<require permission="%s" attributes="x"/>' % v) + tail,
            'zcml set': head + k % (
                '<require permission="%s" set_attributes="x"/>' % v) + tail,
            'zcml module': head + '<module module="mcmod"><require permission='
            '"%s" attributes="x"/></module>' % v + tail,
            'zcml redefined': head + '<configure><meta:redefinePermission '
            'from="mc.Q" to="%s"/>' % v + k % (
                '<require permission="mc.Q" attributes="x"/>') +
            '</configure>' + tail}[place])
        if r[0] != 'ok':
            return r
        if place == 'zcml set':
            w.zc.ProxyFactory(K()).x = 1
        elif place == 'zcml module':
            w.zc.ProxyFactory(m).x
        else:
            w.zc.ProxyFactory(K()).x
    finally:
        sys.modules.pop('mcmod', None)
    return True


LENGTH = 3


def chains(table, tier):
    pickles = [n for n in table if n.startswith('pickle')]
    rest = [n for n in table if not n.startswith('pickle')]
    few = rest + [n for n in pickles if 'key' in n or 'direct' in n]
    for n in range(1, LENGTH):
        yield from itertools.product(table, repeat=n)
    yield from itertools.product(table if tier == 'thorough' else few,
                                 repeat=LENGTH)
    yield from itertools.product(rest, repeat=LENGTH + 1)


def jobs(tier):
    out = []
    for mode in ('c', 'pure', 'watch'):
        out += lib.shards(4, mode=mode,
                          part='chains')
        out += lib.shards(1, mode=mode, part='config')
        out += lib.shards(1, mode=mode, part='alike')
    return out


def bounds(tier):
    return dict(routes_in_a_chain=LENGTH + 1, pickling_protocols=6,
                look_alikes=23 + len(NEAR), places=len(PLACES), second=len(SECOND))


def explore(job, rec):
    w = World()
    if job['part'] == 'chains':
        table = routes(w)
        for names in lib.shard(chains(table, job['tier']), job):
            rec.case(['chain', names])
            r = chain(w, table, names, rec)
            rec.state(names)
            rec.trace('chain: %s' % r, rec.current)
    elif job['part'] == 'config':
        table = configurations(w)
        for name, second in itertools.product(table, SECOND):
            rec.case(['config', name, second])
            r = configured(w, table, name, second, rec)
            rec.state((name, second))
            rec.trace('configuration: %s' % r, rec.current)
    else:
        for name, place, answer in itertools.product(
                lookalikes(w), PLACES, (True, False)):
            rec.case(['alike', name, place, answer])
            r = alike(w, name, place, answer, rec)
            rec.state((name, place, answer))
            rec.trace('look-alike: %s' % r, rec.current)


def replay(case, rec, job):
    w = World()
    if case[0] == 'chain':
        chain(w, routes(w), case[1], rec)
    elif case[0] == 'config':
        configured(w, configurations(w), case[1], case[2], rec)
    else:
        alike(w, *case[1:], rec)
