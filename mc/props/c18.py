"""C18: access predictions agree with actual accesses.

For every kind of object and checker, every way reading and writing a name can
be declared, every name and policy (no interaction and a failing policy
included), on the bare object and on its proxy, canAccess and canWrite are
asked on the real code and then the access is made; the answer must match.
Asking must leave the object untouched and ask the policy just what the access
asks.  Every history of up to the bound of changes (of the declarations, the
policy, the interaction, the registration) and questions is replayed to show
that every answer is fresh.
"""
import itertools

from mc import checkers
from mc import lib

ASSUMPTIONS = [
    'the checker refuses with Unauthorized or ForbiddenAttribute; an object '
    'that needs no proxy has no checker to ask',
]
DECL = ['undeclared', 'none', 'public', 'P', 'Q', 'boom']
NAMES = ['x', 'missing', '__len__', '__iter__', '__class__', '__call__',
         '__getitem__', '__name__', '_private', '__repr__', 'method']
POLICIES = ['none', 'P', 'PQ', 'no interaction']
CHECKERS = ['names', 'sub', 'combined first', 'combined second',
            'combined both', 'duck', 'registered', 'factory', 'own',
            'decorated']
OBJECTS = ['plain', 'iterable', 'getattr', 'class']


class Boom(Exception):
    pass


class World:
    def __init__(self):
        from zope.location import LocationProxy
        from zope.security import checker as zc
        from zope.security import proxy as zp
        from zope.security._definitions import thread_local
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        self.zc, self.zp, self.tl = zc, zp, thread_local
        self.F, self.U = ForbiddenAttribute, Unauthorized
        self.LocationProxy = LocationProxy
        self.touched = touched = []
        self.asked = asked = []

        class Interaction:
            allowed = ''

            def checkPermission(self, permission, obj):
                asked.append((permission, id(obj)))
                if permission == 'boom':
                    raise Boom()
                return permission in self.allowed
        self.interaction = Interaction()

        def methods(cls):
            def touch(name):
                def f(self, *args):
                    touched.append((name, args))
                    if name == '__len__':
                        return 1
                    if name == '__iter__':
                        return iter(())
                    return 1
                return f
            for n in ('__len__', '__call__', '__getitem__', 'method'):
                setattr(cls, n, touch(n))
            if cls is not Plain:
                cls.__iter__ = touch('__iter__')
            return cls

        class Base:
            @property
            def x(self):
                touched.append(('x',))
                return 1

            @x.setter
            def x(self, value):
                touched.append(('set x', value))

            _private = 1

            def __setattr__(self, name, value):
                touched.append(('setattr', name))
                object.__setattr__(self, name, value)

            def __delattr__(self, name):
                touched.append(('delattr', name))

        class Plain(Base):
            pass

        class Iterable(Base):
            pass

        class Getattr(Base):
            def __getattr__(self, name):
                if name.startswith('__'):
                    raise AttributeError(name)
                touched.append(('getattr', name))
                return 1

        class Own(Base):
            pass

        class Meta(type):
            pass
        self.classes = dict(plain=methods(Plain), iterable=methods(Iterable),
                            getattr=methods(Getattr))
        self.Meta = Meta

        class Duck:
            def __init__(self, c):
                self.c = c

            def check(self, obj, name):
                self.c.check(obj, name)

            def check_getattr(self, obj, name):
                self.c.check_getattr(obj, name)

            def check_setattr(self, obj, name):
                self.c.check_setattr(obj, name)

            def proxy(self, value):
                return value

        class Sub(zc.Checker):
            def check(self, obj, name):
                super().check(obj, name)

            check_getattr = check
        self.Duck, self.Sub = Duck, Sub

    def value(self, d):
        return {'public': self.zc.CheckerPublic, 'none': None}.get(d, d)

    def declare(self, c, name, get, set_):
        """Change the declarations of a name-based checker."""
        for perms, d in ((c.get_permissions, get), (c.set_permissions, set_)):
            if d == 'undeclared':
                perms.pop(name, None)
            else:
                perms[name] = self.value(d)

    def subject(self, obj_kind, kind):
        """(object, what to ask about, name-based checker to declare on)."""
        zc, zp = self.zc, self.zp
        if obj_kind == 'class':
            obj = self.Meta('K', (), {'x': 1, 'method': 1, '_private': 1})
            cls = self.Meta
        else:
            cls = type('C', (self.classes[obj_kind],), {})
            obj = cls()
        c = zc.Checker({}, {})
        if kind == 'names':
            return obj, zp.Proxy(obj, c), c
        if kind == 'sub':
            c = self.Sub({}, {})
            return obj, zp.Proxy(obj, c), c
        if kind == 'duck':
            return obj, zp.Proxy(obj, self.Duck(c)), c
        if kind.startswith('combined'):
            nothing = zc.Checker({}, {})
            other = zc.Checker({'x': 'Q', 'method': zc.CheckerPublic},
                               {'x': 'Q'})
            combined = {
                'combined first': lambda: zc.CombinedChecker(c, nothing),
                'combined second': lambda: zc.CombinedChecker(nothing, c),
                'combined both': lambda: zc.CombinedChecker(c, other)}
            return obj, zp.Proxy(obj, combined[kind]()), c
        if kind in ('registered', 'factory', 'decorated'):
            if zc.getCheckerForInstancesOf(cls) is not None:
                zc.undefineChecker(cls)
            zc.defineChecker(cls, c if kind != 'factory' else
                             lambda ob, c=c: c)
            self.registered = cls
            if kind == 'decorated':
                d = self.LocationProxy(obj)
                return d, d, c
            return obj, obj, c
        if kind == 'own':
            if obj_kind == 'class':
                obj = self.Meta('K', (), {'x': 1, '__Security_checker__': c})
            else:
                cls.__Security_checker__ = c
                obj = cls()
            return obj, obj, c

    def forget(self):
        cls = getattr(self, 'registered', None)
        if cls is not None:
            self.zc.undefineChecker(cls)
            self.registered = None

    def enter(self, policy):
        if policy == 'no interaction':
            checkers.cleanup()
        else:
            self.interaction.allowed = '' if policy == 'none' else policy
            self.tl.interaction = self.interaction

    def ask(self, what, subject, name):
        """The answer, the questions to the policy, touches."""
        del self.asked[:], self.touched[:]
        fn = self.zc.canAccess if what == 'read' else self.zc.canWrite
        try:
            r = fn(subject, name)
        except self.F as e:
            r = 'forbidden', e.args[0]
        except Exception as e:
            r = 'error', type(e).__name__
        else:
            if r is not True and r is not False:
                r = 'odd', repr(r)
        return r, list(self.asked), [t for t in self.touched
                                     if t != ('__iter__', ())]

    def access(self, what, subject, name):
        """The outcome of the actual access, and the questions."""
        p = self.zc.ProxyFactory(subject)
        del self.asked[:]
        try:
            if what == 'read':
                getattr(p, name)
            else:
                setattr(p, name, 1)
        except self.U as e:
            r = 'unauthorized', e.args[1]
        except self.F as e:
            r = 'forbidden', e.args[0]
        except AttributeError as e:
            # granted, but there is no such attribute, or no interaction
            if 'interaction' in str(e):
                r = 'error', type(e).__name__
            else:
                r = 'ok', name
        except Boom:
            r = 'error', 'Boom'
        except TypeError:       # __class__ and the like cannot be set
            r = 'ok', name
        else:
            r = 'ok', name
        return r, list(self.asked)


def expected(w, what, subject, name, access):
    """What should be answered, from the actual accesses."""
    if what == 'read':
        return {'ok': True, 'unauthorized': False}.get(access[0], access)
    if access[0] == 'ok':
        return True
    if access[0] == 'unauthorized':
        return False
    if access[0] == 'forbidden':
        r, _ = w.access('read', subject, name)
        if r[0] in ('ok', 'unauthorized'):
            return False
        return r
    return access


def question(w, subject, obj, what, name):
    """None, or how the prediction differs from the access."""
    before = fields(obj)
    answer, asked, touched = w.ask(what, subject, name)
    if touched:
        return 'asking touched the object: %r' % (touched,)
    if fields(obj) != before:
        return 'asking changed the object'
    access, really = w.access(what, subject, name)
    want = expected(w, what, subject, name, access)
    if answer != want:
        return 'answered %r where the access is %r' % (answer, access)
    # the access may look an attribute up twice
    if what == 'read' and list(dict.fromkeys(asked)) != list(
            dict.fromkeys(really)):
        return 'the policy was asked %r, not %r' % (asked, really)
    if what == 'write' and asked[:len(really)] != really:
        return 'the policy was asked %r, not %r' % (asked, really)
    return None


def fields(obj):
    try:
        return {k: v for k, v in vars(obj).items()
                if k not in ('x', '_Base__x')}
    except TypeError:
        return {}


def skip(obj_kind, kind, name, mode):
    if obj_kind == 'class' and kind in ('registered', 'factory',
                                        'decorated') and name == 'x':
        return False
    # the Python proxy has its own (see C21)
    return 'pure' in mode and name in ('__class__', '__repr__', '__name__')


def single(w, obj_kind, kind, get, set_, name, policy, what, rec):
    checkers.cleanup()
    try:
        obj, subject, c = w.subject(obj_kind, kind)
        w.declare(c, name, get, set_)
        w.enter(policy)
        rec.step()
        for s in (subject, None):
            if s is None:
                if type(subject) is w.zp.Proxy:
                    continue
                w.enter(policy)
                s = w.zc.ProxyFactory(subject)
            msg = question(w, s, obj, what, name)
            if msg:
                rec.violation(
                    '%s %s of a %s, %s checker, reading %s, writing %s, '
                    'policy %s: %s' % (what, name, obj_kind, kind, get, set_,
                                       policy, msg),
                    fingerprint='%s: %s' % (what, msg[:40]))
                return 'bad'
    finally:
        w.forget()
        checkers.cleanup()
    return 'ok'


# Histories

CHANGES = [('get', 'public'), ('get', 'P'), ('get', 'undeclared'),
           ('set', 'public'), ('set', 'Q'), ('set', 'undeclared'),
           ('policy', 'none'), ('policy', 'PQ'), ('policy', 'P'),
           ('policy', 'no interaction'), ('other', 'P')]


def history(w, kind, seq, rec):
    checkers.cleanup()
    try:
        obj, subject, c = w.subject('plain', kind)
        state = dict(get='undeclared', set='undeclared')
        w.enter('none')
        for n, (what, v) in enumerate(seq):
            if what == 'policy':
                w.enter(v)
            elif what == 'other':
                # the same for another object must not matter
                _, other, oc = w.subject('plain', 'names')
                w.declare(oc, 'x', 'public', 'public')
                w.ask('read', other, 'x')
                w.ask('write', other, 'x')
            else:
                state[what] = v
                w.declare(c, 'x', state['get'], state['set'])
            rec.step()
            for q in ('read', 'write'):
                msg = question(w, subject, obj, q, 'x')
                if msg:
                    rec.violation('%s checker after %r: %s %s' % (
                        kind, seq[:n + 1], q, msg),
                        fingerprint='history %s: %s' % (q, msg[:40]))
                    return 'bad'
    finally:
        w.forget()
        checkers.cleanup()
    return 'ok'


def cases():
    return itertools.product(OBJECTS, CHECKERS, DECL, DECL, NAMES, POLICIES,
                             ('read', 'write'))


def histories(tier):
    n = 4 if tier == 'thorough' else 3
    for kind in ('names', 'combined both', 'registered', 'own'):
        yield from ((kind, s) for s in itertools.product(CHANGES, repeat=n))


def bounds(tier):
    return dict(cases=sum(1 for _ in cases()),
                histories=sum(1 for _ in histories(tier)),
                changes_per_history=4 if tier == 'thorough' else 3)


def jobs(tier):
    out = []
    for mode in ('c', 'pure'):
        out += lib.shards(4, mode=mode, part='single')
        out += lib.shards(8 if tier == 'thorough' else 2, mode=mode,
                          part='history')
    for mode in ('watch', 'purewatch') if tier == 'thorough' else ():
        out += lib.shards(4, mode=mode, part='single')
    return out


def explore(job, rec):
    w = World()
    if job['part'] == 'single':
        for case in lib.shard(cases(), job):
            if skip(case[0], case[1], case[4], job['mode']):
                continue
            rec.case(['single'] + list(case))
            r = single(w, *case, rec)
            rec.state(case)
            rec.trace('%s: %s' % (case[-1], r), rec.current)
    else:
        for kind, seq in lib.shard(histories(job['tier']), job):
            rec.case(['history', kind, seq])
            r = history(w, kind, seq, rec)
            rec.state((kind, seq))
            rec.trace('history: %s' % r, rec.current)


def replay(case, rec, job):
    w = World()
    if case[0] == 'single':
        single(w, *case[1:], rec)
    else:
        history(w, case[1], [tuple(x) for x in case[2]], rec)
