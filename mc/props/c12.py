"""C12: the checker constructors declare exactly the requested union.

Every call of NamesChecker, InterfaceChecker and MultiChecker over small
universes of names, interfaces (inheriting, overlapping, with methods, fields
and plain attributes), permissions (equal but distinct strings, none and the
public marker included), kinds of sequences and mappings and keyword
additions, up to the bound on their length, is made on the real code; the
declared and the effective permissions of the result, read through proxies
under every policy, are compared with the union computed independently.
Every pair of calls from a smaller pool, with changes of the arguments, of an
interface and of a checker in between, shows that calls do not influence each
other.
"""
import itertools

from mc import checkers
from mc import lib

ASSUMPTIONS = [
    'a permission is a string, the public marker or None',
]
NAMES = ['a', 'b', 'c', 'd', 'zz', 'A', '', 'names', '__call__', '__len__',
         '__str__', '__class__', '__repr__', '__doc__', '__bases__', 'inv',
         '__provides__', '__iter__', 'tagged', 'extends', '__name__']
PERMS = ['P', 'Q', 'P2', 'public', 'none']
ALWAYS = {'__class__', '__repr__', '__providedBy__'}


class Obj:
    a = b = c = d = zz = A = names = inv = tagged = extends = 1

    def __call__(self):
        return 1

    def __len__(self):
        return 1

    def __iter__(self):
        return iter(())


class World:
    def __init__(self):
        from zope.interface import Attribute
        from zope.interface import Interface
        from zope.interface import invariant
        from zope import schema
        from zope.security import checker as zc
        from zope.security import proxy as zp
        from zope.security._definitions import thread_local
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        self.zc, self.zp, self.tl = zc, zp, thread_local
        self.F, self.U = ForbiddenAttribute, Unauthorized
        self.perms = {
            'P': 'perm.P', 'Q': 'perm.Q', 'P2': ''.join(['perm', '.P']),
            'public': zc.CheckerPublic, 'none': None}
        assert self.perms['P'] is not self.perms['P2']

        class IEmpty(Interface):
            pass

        class IA(Interface):
            a = Attribute('a')

            def b(x):
                "b"

        class IB(IA):
            b = schema.TextLine(title='b')
            c = schema.Int(title='c', readonly=True)

            @invariant
            def inv(ob):
                pass

        class IC(Interface):
            def __call__():
                "call"
            d = Attribute('d')

        class ID(IB, IC):
            a = Attribute('again')
            IB.setTaggedValue('tagged', 1)

        class IInh(ID):
            pass
        self.ifaces = dict(IEmpty=IEmpty, IA=IA, IB=IB, IC=IC, ID=ID,
                           IInh=IInh)

        class IDyn(IC):
            zz = Attribute('zz')
        self.ifaces['IDyn'] = IDyn
        self.dynbases = (IC,), (IA,)

        class Interaction:
            allowed = ()

            def checkPermission(self, permission, obj):
                return permission in self.allowed
        self.interaction = Interaction()

    def names_of(self, iface):
        own = {'IEmpty': [], 'IA': ['a', 'b'], 'IB': ['b', 'c'],
               'IC': ['__call__', 'd'], 'ID': ['a'], 'IInh': [],
               'IDyn': ['zz']}
        bases = {'IB': ['IA'], 'ID': ['IB', 'IC'], 'IInh': ['ID'],
                 'IDyn': ['IA' if self.ifaces['IA'] in self.ifaces[
                     'IDyn'].__bases__ else 'IC']}
        todo, out = [iface], set()
        while todo:
            i = todo.pop()
            out.update(own[i])
            todo.extend(bases.get(i, []))
        return out


class MyDict(dict):
    pass


class Items:
    """A mapping with nothing but items."""

    def __init__(self, d):
        self.d = d

    def items(self):
        return [(k, v) for k, v in self.d.items()]


class MyTuple(tuple):
    pass


SEQ = {
    'tuple': tuple, 'list': list, 'iter': iter,
    'gen': lambda s: (x for x in s), 'set': set, 'frozenset': frozenset,
    'dict': lambda s: dict.fromkeys(s), 'keys': lambda s: dict.fromkeys(
        s).keys(), 'str': ''.join,
}


def seq(kind, names):
    return SEQ[kind](list(names))


def equal(p, q):
    return p == q or {p, q} == {'P', 'P2'}


class Dup(Exception):
    pass


def union(pairs):
    """name -> permission, or Dup."""
    d = {}
    for n, p in pairs:
        if n in d and not equal(d[n], p):
            raise Dup(n)
        d.setdefault(n, p)
    return d


def pairs_of(w, call):
    """All (name, permission) mentioned by a call."""
    kind = call[0]
    if kind in ('names', 'iface'):
        _, what, perm, kw = call[:4]
        out = list(kw.items())
        names = what if kind == 'names' else sorted(w.names_of(what))
        out += [(n, perm or 'public') for n in names]
        return out
    out = []
    for s in call[1]:
        if s[0] == 'names':
            out += [(n, s[2]) for n in s[1]]
        elif s[0] == 'iface':
            out += [(n, s[2]) for n in sorted(w.names_of(s[1]))]
        else:
            out += list(s[1].items())
    return out


def make(w, call, keep=None):
    """Make the call on the real code; arguments are appended to *keep*."""
    zc, P = w.zc, w.perms
    keep = [] if keep is None else keep
    if call[0] in ('names', 'iface'):
        kind, what, perm, kw = call[:4]
        fn = zc.NamesChecker if kind == 'names' else zc.InterfaceChecker
        arg = w.ifaces[what] if kind == 'iface' else seq(
            call[4] if len(call) > 4 else 'list', what)
        keep.append(arg)
        kws = {n: P[p] for n, p in kw.items()}
        how = call[5] if len(call) > 5 else 'pos'
        if perm is None:
            return fn(arg, **kws)
        if how == 'kw':
            key = 'names' if kind == 'names' else 'interface'
            return fn(**{key: arg, 'permission_id': P[perm]}, **kws)
        return fn(arg, P[perm], **kws)
    specs = []
    for s in call[1]:
        if s[0] == 'names':
            v = (seq(s[3] if len(s) > 3 else 'list', s[1]), P[s[2]])
        elif s[0] == 'iface':
            v = (w.ifaces[s[1]], P[s[2]])
        else:
            v = {n: P[p] for n, p in s[1].items()}
            v = {'dict': lambda v: v, 'mydict': MyDict, 'items': Items}[
                s[2] if len(s) > 2 else 'dict'](v)
        if s[-1] == 'mytuple':
            v = MyTuple(v)
        keep.append(v)
        specs.append(v)
    specs = seq(call[2] if len(call) > 2 else 'list', specs) \
        if not (len(call) > 2 and call[2] == 'str') else specs
    keep.append(specs)
    return zc.MultiChecker(specs)


POLICIES = [(), ('perm.P',), ('perm.Q',), ('perm.P', 'perm.Q')]


def compare(w, checker, want, deep):
    """None, or how the checker differs from the wanted declarations."""
    zc = w.zc
    if not isinstance(checker, zc.Checker):
        return 'is no checker'
    for n in NAMES + [n for n in want if n not in NAMES]:
        p = checker.permission_id(n)
        q = w.perms[want[n]] if n in want else None
        if not (p is q or (isinstance(q, str) and type(p) is str and
                           p == q)):
            return 'reading %s requires %r, not %r' % (n, p, q)
        if checker.setattr_permission_id(n) is not None:
            return 'writing %s requires %r' % (
                n, checker.setattr_permission_id(n))
    got = {n for n in checker.get_permissions
           if checker.get_permissions[n] is not None}
    if got != {n for n in want if want[n] != 'none'}:
        return 'declares %r' % (got,)
    if [n for n in checker.set_permissions]:
        return 'declares writing'
    if not deep:
        return None
    obj = Obj()
    p = w.zp.Proxy(obj, checker)
    for allowed in POLICIES:
        w.interaction.allowed = allowed
        w.tl.interaction = w.interaction
        try:
            for n in ['a', 'b', 'c', 'd', 'zz', 'A', '__call__', '__len__',
                      '__iter__', '__str__']:
                d = want.get(n)
                if d == 'public':
                    expect = 'ok'
                elif d in ('P', 'Q', 'P2'):
                    expect = 'ok' if w.perms[d] in allowed else 'no'
                else:
                    expect = 'ok' if n in ALWAYS and d is None else \
                        'forbidden'
                    if n in ALWAYS and d == 'none':
                        continue
                for entry in ('check', 'get', 'op', 'set', 'del'):
                    e = expect if entry in ('check', 'get', 'op') else \
                        'forbidden'
                    try:
                        if entry == 'check':
                            checker.check(obj, n)
                        elif entry == 'get':
                            getattr(p, n)
                        elif entry == 'op':
                            if n == '__call__':
                                p()
                            elif n == '__len__':
                                len(p)
                            elif n == '__iter__':
                                iter(p)
                            else:
                                continue
                        elif entry == 'set':
                            setattr(p, n, 1)
                        else:
                            delattr(p, n)
                        r = 'ok'
                    except w.U:
                        r = 'no'
                    except w.F:
                        r = 'forbidden'
                    if r != e:
                        return '%s of %s under %r: %s, not %s' % (
                            entry, n, allowed, r, e)
        finally:
            del w.tl.interaction
    return None


def run_call(w, call, rec, deep=True):
    """Make one call and judge it; the checker if it was made."""
    rec.step()
    try:
        want = union(pairs_of(w, call))
    except Dup:
        want = None
    try:
        checker = make(w, call)
    except w.zc.DuplicationError:
        if want is not None:
            rec.violation('%r is refused as a duplication' % (call,),
                          fingerprint='spurious duplication ' + call[0])
        return None, None
    if want is None:
        rec.violation('%r is not refused' % (call,),
                      fingerprint='duplication accepted ' + call[0])
        return None, None
    msg = compare(w, checker, want, deep)
    if msg:
        rec.violation('%r: %s' % (call, msg),
                      fingerprint='%s: %s' % (call[0], msg[:30]))
    return checker, want


def kwargs(names, perms, most):
    for n in range(most + 1):
        for ns in itertools.combinations(names, n):
            for ps in itertools.product(perms, repeat=n):
                yield dict(zip(ns, ps))


def calls(tier):
    big = tier == 'thorough'
    names = ['a', 'b', '__call__', '']
    for n in range(5 if big else 4):
        for ns in itertools.product(names, repeat=n):
            for p in [None] + PERMS:
                for kw in kwargs(['a', 'b', 'zz'], PERMS, 2):
                    yield ('names', ns, p, kw)
    for kind in sorted(SEQ):
        for ns in [(), ('a',), ('a', 'b'), ('a', 'a'), ('b', 'd', 'a')]:
            for p in [None] + PERMS:
                for how in ('pos', 'kw'):
                    for kw in ({}, {'a': 'P'}, {'zz': 'Q', 'd': 'public'}):
                        yield ('names', ns, p, kw, kind, how)
    for i in ['IEmpty', 'IA', 'IB', 'IC', 'ID', 'IInh', 'IDyn']:
        for p in [None] + PERMS:
            for kw in kwargs(['a', 'b', 'c', '__call__', 'zz'], PERMS, 2):
                yield ('iface', i, p, kw)
            for kw in ({}, {'a': 'P'}):
                yield ('iface', i, p, kw, '', 'kw')
    specs = spec_pool(big)
    for n in range(3):
        for ss in itertools.product(specs, repeat=n):
            yield ('multi', ss)
    few = spec_pool(False) if big else spec_pool(False)[::3]
    for ss in itertools.product(few, repeat=3):
        yield ('multi', ss)
    for outer in ('tuple', 'list', 'iter', 'gen'):
        for kind in sorted(SEQ):
            for ns in (('a',), ('a', 'b'), ()):
                for p in ('P', 'public'):
                    yield ('multi', (('names', ns, p, kind),
                                     ('dict', {'a': 'P', 'c': 'Q'})), outer)
                    yield ('multi', (('names', ns, p, kind, 'mytuple'),
                                     ('iface', 'IB', 'P', 'mytuple')), outer)
        for kind in ('mydict', 'items'):
            for p in PERMS:
                for d in ({'a': p}, {}, {'a': 'P', 'zz': p}):
                    yield ('multi', (('dict', d, kind), ('iface', 'IA', 'P'),
                                     ('dict', {'d': p}, kind)), outer)


SIZES = [*range(1, 12), 16, 17, 32, 33, 64, 65, 130, 257]


def sizes():
    """Calls with many names, keywords, specifications and interfaces, with
    one that is different, a conflict or a repetition anywhere."""
    for n in SIZES:
        ns = tuple('n%d' % i for i in range(n))
        for p in ('P', 'public'):
            yield ('names', ns, p, {})
            yield ('names', ns, p, {'zz': 'Q'})
            yield ('names', (), p, dict.fromkeys(ns, 'Q'))
            yield ('multi', (('names', ns, p),))
            yield ('multi', (('dict', dict.fromkeys(ns, p)),))
            yield ('multi', tuple(('dict', {x: p}) for x in ns))
            yield ('multi', tuple(('names', (x,), p) for x in ns))
        for i in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            for q in ('P', 'P2', 'Q', 'public', 'none'):
                yield ('names', ns, 'P', {ns[i]: q})
                yield ('multi', (('dict', {ns[i]: q}), ('names', ns, 'P')))
                yield ('multi', (('names', ns, 'P'), ('dict', {ns[i]: q})))
                one = tuple(('dict', {x: 'P'}) for x in ns)
                yield ('multi', one + (('names', (ns[i],), q),))
                yield ('multi', one[:i] + (('dict', {ns[i]: q}),) + one[i:])
                yield ('multi', one[:i] + (('iface', 'ID', q),) + one[i:])


def spec_pool(big):
    out = []
    for ns in [(), ('a',), ('b',), ('a', 'b'), ('a', 'a'), ('__call__',)]:
        for p in PERMS:
            out.append(('names', ns, p))
    for i in ['IEmpty', 'IA', 'IB', 'IC', 'ID', 'IInh']:
        for p in PERMS:
            out.append(('iface', i, p))
    for d in [{}] + [{'a': p} for p in PERMS] + [
            {'a': p, 'zz': q} for p in PERMS for q in PERMS] + [
            {'c': 'P', 'b': 'Q', 'd': 'none'}]:
        out.append(('dict', d))
    if big:
        out += [('names', ns, p) for p in PERMS for ns in [
            ('a', 'b', 'c'), ('b', 'a'), ('d',), ('zz', '', 'a')]]
    return out


# Pairs

CHANGES = [None, 'args', 'first', 'protect', 'bases', 'first set']


def pair_pool():
    return [
        ('names', (), None, {}), ('names', ('a',), None, {}),
        ('names', ('a',), 'P', {}), ('names', ('a', 'b'), 'Q', {'zz': 'P'}),
        ('names', ('b',), 'P', {'a': 'Q'}), ('names', ('a',), 'P', {'a': 'Q'}),
        ('names', (), 'P', {'a': 'none'}),
        ('iface', 'IA', None, {}), ('iface', 'IA', 'P', {}),
        ('iface', 'IA', 'P', {'zz': 'Q'}), ('iface', 'IB', 'Q', {}),
        ('iface', 'IDyn', None, {}), ('iface', 'IDyn', 'P', {'a': 'P'}),
        ('iface', 'IDyn', 'P', {'d': 'Q'}), ('iface', 'IEmpty', 'P', {}),
        ('multi', ()), ('multi', (('iface', 'IA', 'P'),)),
        ('multi', (('iface', 'IDyn', 'P'), ('dict', {'a': 'P'}))),
        ('multi', (('iface', 'IDyn', 'Q'), ('dict', {'d': 'P'}))),
        ('multi', (('dict', {'a': 'P'}),)),
        ('multi', (('dict', {'a': 'Q', 'b': 'public'}),
                   ('names', ('c',), 'P'))),
        ('multi', (('names', ('a', 'b'), 'public'), ('iface', 'IC', 'P'))),
        ('multi', (('names', ('a',), 'P'), ('names', ('a',), 'Q'))),
    ]


def pair(w, a, b, change, rec):
    first_keep = []
    w.ifaces['IDyn'].__bases__ = w.dynbases[0]
    try:
        want = union(pairs_of(w, a))
    except Dup:
        want = None
    try:
        first = make(w, a, first_keep)
    except w.zc.DuplicationError:
        first = None
    if (first is None) != (want is None):
        rec.violation('%r: duplication decided wrongly' % (a,),
                      fingerprint='pair first')
        return
    if change == 'args':
        for x in first_keep:
            if isinstance(x, list):
                x.append('c')
            elif isinstance(x, dict):
                x['c'] = 'perm.C'
                x.pop('a', None)
    elif change == 'first' and first is not None:
        first.get_permissions['c'] = w.perms['Q']
        first.get_permissions.pop('a', None)
        want = dict(want, c='Q')
        want.pop('a', None)
    elif change == 'first set' and first is not None:
        first.set_permissions['a'] = w.zc.CheckerPublic
    elif change == 'protect' and first is not None:
        from zope.security import protectclass

        class K:
            pass
        w.zc.defineChecker(K, first)
        protectclass.protectName(K, 'd', 'perm.Q')
        protectclass.protectSetAttribute(K, 'd', 'perm.Q')
        want = dict(want, d='Q')
        w.zc.undefineChecker(K)
    elif change == 'bases':
        w.ifaces['IDyn'].__bases__ = w.dynbases[1]
    second, want2 = run_call(w, b, rec, deep=False)
    if second is not None and first is not None:
        if second is first:
            rec.violation('%r and %r give the same checker' % (a, b),
                          fingerprint='shared checker')
        second.get_permissions['zz'] = w.perms['Q']
    if first is not None:
        if change in ('first set', 'protect'):
            first.set_permissions.clear()
        msg = compare(w, first, want, False)
        if msg:
            rec.violation('%r after %s and %r: %s' % (a, change, b, msg),
                          fingerprint='influenced ' + str(change))
    w.ifaces['IDyn'].__bases__ = w.dynbases[0]
    third, _ = run_call(w, b, rec, deep=False)


def bounds(tier):
    return dict(calls=sum(1 for _ in calls(tier)),
                longer_calls=sum(1 for _ in sizes()), longest=max(SIZES),
                pairs=len(pair_pool()) ** 2 * len(CHANGES),
                names_per_call=4 if tier == 'thorough' else 3,
                specs_per_call=3, policies=len(POLICIES))


def jobs(tier):
    out = []
    for mode in ('c', 'pure', 'watch', 'purewatch'):
        out += lib.shards(16 if tier == 'thorough' else 4, mode=mode,
                          part='calls')
        out += lib.shards(2, mode=mode, part='sizes')
        out += [dict(mode=mode, part='pairs')]
    return out


def explore(job, rec):
    w = World()
    try:
        if job['part'] in ('calls', 'sizes'):
            for call in lib.shard(calls(job['tier']) if job['part'] == 'calls'
                                  else sizes(), job):
                rec.case(['call', call])
                _, want = run_call(w, call, rec, job['part'] == 'calls')
                rec.state(('call', call[0], sorted((want or {}).items())))
                rec.trace('%s: %s' % (call[0], 'duplication' if want is None
                                      else len(want)), rec.current)
        else:
            pool = pair_pool()
            for a, b, c in itertools.product(pool, pool, CHANGES):
                rec.case(['pair', a, b, c])
                pair(w, a, b, c, rec)
                rec.state((a, b, c))
                rec.trace('pair %s' % c, rec.current)
    finally:
        checkers.cleanup()


def replay(case, rec, job):
    w = World()
    if case[0] == 'call':
        run_call(w, case[1], rec)
    elif case[0] == 'pair':
        pair(w, case[1], case[2], case[3], rec)
