"""C19: permission lookups and vocabularies mirror what is registered.

Every history of up to the bound of registrations, replacements and removals
of permissions (public among them) in the global registry (where the test
support defines public, too), a site and a site below it, and of changes of the
current site is run on the real code; after every step every context is asked
about every permission, listed, and turned into both vocabularies, and all the
answers must be those of the model, which is a mapping per registry.  The package's own configuration files are included
in every order with each other and with definitions of one's own.
"""
import itertools

from mc import lib
from mc import zcml

ASSUMPTIONS = [
    'the contexts are sites or None (the current site); the permissions '
    'registered are distinct objects',
]
PUBLIC = 'zope.Public'
IDS = ['b.one', 'A.two', PUBLIC, 'zope.Q', 'Public', '']
LEVELS = ['global', 'site', 'below']


class World:
    def __init__(self):
        from zope.component import hooks
        from zope.component.globalregistry import base
        from zope.interface import implementer
        from zope.interface.interfaces import IComponentLookup
        from zope.interface.registry import Components

        from zope.security import checker
        from zope.security import permission
        from zope.security import testing
        from zope.security.interfaces import IPermission
        self.pm, self.zc, self.IPermission = permission, checker, IPermission
        self.Components, self.base, self.hooks = Components, base, hooks
        self.testing = testing
        hooks.setHooks()

        class Context:
            def __init__(self, sm):
                self.sm = sm

            def getSiteManager(self):
                return self.sm

            def __conform__(self, iface):
                if iface is IComponentLookup:
                    return self.sm

        @implementer(IPermission)
        class Empty(permission.Permission):
            """A permission that is false, and equal to None."""
            def __len__(self):
                return 0

            def __eq__(self, other):
                return other is None or other is self

            __hash__ = object.__hash__
        self.Context, self.Empty = Context, Empty

    def objects(self):
        """Two permissions for every id, whose titles mislead."""
        out = {}
        for n, i in enumerate(IDS):
            out[i] = [self.pm.Permission(i, 'title %d' % -n),
                      self.Empty(i, '%s' % IDS[-1 - n], 'description')]
        # an unrelated id: what counts is the name of the registration
        out['zope.Q'][1] = self.pm.Permission('b.one')
        return out


def alphabet(ids, levels, sites):
    for i in ids:
        for lv in levels:
            yield 'register', i, lv, 0
            yield 'register', i, lv, 1
            yield 'unregister', i, lv, 0
    for s in sites:
        yield 'current', s, None, 0
    if PUBLIC in ids:
        yield 'support', PUBLIC, 'global', 0


def expected(model, level):
    out = {}
    for lv in LEVELS[:LEVELS.index(level) + 1]:
        out.update(model[lv])
    return out


def ask(w, context, want):
    """None, or what is wrong with the answers for a context."""
    def accepted(i):
        try:
            r = w.pm.checkPermission(context, i)
        except ValueError as e:
            if e.args != ('Undefined permission ID', i):
                return 'refused with %r' % (e.args,)
            return False
        return True if r is None else repr(r)

    for i in IDS + ['nope', 'B.one', 'zope.public'] + [
            i for i in want if i not in IDS]:
        r = accepted(i)
        if r is not (i in want):
            return 'checkPermission of %r: %s' % (i, r)
    if accepted(w.zc.CheckerPublic) is not True:
        return 'the public marker is not accepted'
    listed = list(w.pm.allPermissions(context))
    if sorted(listed) != sorted(i for i in want if i != PUBLIC):
        return 'listed %r' % (listed,)
    v = w.pm.PermissionsVocabulary(context)
    if {t.token: id(t.value) for t in v} != {
            i: id(o) for i, o in want.items()} or len(v) != len(want):
        return 'permissions: %r' % [(t.token, t.value) for t in v]
    for i, o in want.items():
        if o not in v or v.getTermByToken(i).value is not o:
            return 'permissions: wrong lookup of %r' % i
    v = w.pm.PermissionIdsVocabulary(context)
    ids = sorted(i for i in want if i != PUBLIC)
    terms = [(i, i, i) for i in ids]
    got = [(t.value, t.token, t.title) for t in v]
    if PUBLIC in want:
        if not got or got[0][0] is not w.zc.CheckerPublic or (
                got[0][1:] != (PUBLIC, 'Public')):
            return 'ids: public is not first, or is not the marker'
        if w.zc.CheckerPublic not in v:
            return 'ids: public is not found'
        del got[0]
    elif w.zc.CheckerPublic in v:
        return 'ids: public without being registered'
    if got != terms:
        return 'ids: %r' % (got,)
    if PUBLIC in v:
        return 'ids: the public id is a value'
    return None


def run(w, seq, rec):
    names = {lv: lv for lv in LEVELS}
    w.base.__init__('base')
    sms = {'global': w.base}
    sms['site'] = w.Components('site', (w.base,))
    sms['below'] = w.Components('below', (sms['site'],))
    contexts = {lv: w.Context(sms[lv]) for lv in LEVELS}
    objects = w.objects()
    for x in seq:
        if x[0] != 'current' and x[1] not in objects:
            objects[x[1]] = [w.pm.Permission(x[1], 'title')]
    model = {lv: {} for lv in LEVELS}
    current = 'global'
    w.hooks.setSite(None)
    try:
        for n, (what, i, lv, which) in enumerate(seq):
            rec.step()
            if what == 'current':
                current = i
                w.hooks.setSite(None if i == 'global' else contexts[i])
            elif what == 'support':
                p = model[lv][i] = w.testing.addCheckerPublic()
                if type(p) is not w.pm.Permission or p.id != PUBLIC:
                    rec.violation('the test support defined %r' % p,
                                  fingerprint='support')
                    return 'bad'
            elif what == 'register':
                model[lv][i] = objects[i][which]
                sms[lv].registerUtility(objects[i][which], w.IPermission, i)
            else:
                model[lv].pop(i, None)
                sms[lv].unregisterUtility(None, w.IPermission, i)
            if len(seq) > 8 and n < len(seq) - 1 and n % 32:
                continue
            for name in ['None'] + list(names):
                level = current if name == 'None' else name
                msg = ask(w, None if name == 'None' else contexts[name],
                          expected(model, level))
                rec.state((name, repr(sorted(
                    (i, lv) for lv in LEVELS for i in model[lv])), current))
                if msg:
                    rec.violation('after %r, in context %s: %s' % (
                        seq[:n + 1], name, msg), fingerprint=msg[:30])
                    return 'bad'
    finally:
        w.hooks.setSite(None)
        w.base.__init__('base')
    return 'ok'


def groups(tier):
    deep = tier == 'thorough'
    # (ids, levels, sites, length)
    return {
        'wide': (IDS, LEVELS, LEVELS, 3 if deep else 2),
        'public': ([PUBLIC, 'b.one'], ['global', 'site'],
                   ['global', 'site'], 4 if deep else 3),
        'order': (IDS, ['global'], [], 4 if deep else 3),
        'levels': (['b.one'], LEVELS, LEVELS, 4 if deep else 3),
    }


def sequences(group, tier):
    *a, n = groups(tier)[group]
    return itertools.product(list(alphabet(*a)), repeat=n)


def subsets():
    """Every set of permissions, registered in two orders."""
    for n in range(len(IDS) + 1):
        for c in itertools.permutations(IDS, n):
            yield tuple(('register', i, 'global', 0) for i in c)


def crowds():
    """Many permissions, registered from both ends or the middle, in turn in
    each registry or in one, some removed again."""
    for n in [*range(7, 12), 16, 17, 32, 33, 64, 65, 130, 257]:
        ids = ['p.%03d' % i if i % 3 else 'P.%03d' % i for i in range(n)]
        ids[n // 2] = PUBLIC
        for order in (ids, ids[::-1], ids[n // 2:] + ids[:n // 2],
                      ids[::2] + ids[1::2]):
            for levels in (LEVELS, LEVELS[1:2]):
                adds = tuple(('register', i, levels[k % len(levels)], 0)
                             for k, i in enumerate(order))
                yield adds
                yield adds + tuple(('unregister',) + a[1:]
                                   for a in adds[::2])


# What the package's own configuration defines
COMMON = {PUBLIC, 'zope.View', 'zope.Security', 'zope.ManageContent',
          'zope.ManageServices', 'zope.ManageSite'}
ALL = '<include package="zope.security"/>'
ONLY = '<include package="zope.security" file="permissions.zcml"/>'
PIECES = [ALL, ONLY] + [
    '<permission id="%s" title="%s"%s/>' % (i, t, d) for i, t, d in [
        ('zope.View', 'my view', ''),
        ('my.one', 'My one', ' description="of mine"'),
        (PUBLIC, 'my public', ''),
        ('http://my.two', 'B', '')]]


def packages(tier):
    """The pieces, each once, and one of the two files a second time."""
    for n in range(4 if tier == 'quick' else len(PIECES) + 1):
        for c in itertools.permutations(range(len(PIECES)), n):
            yield c
            for again in {0, 1} & set(c):
                yield c + (again,)


def package(w, z, case, rec):
    from zope.component import getUtilitiesFor
    from zope.schema.interfaces import IVocabularyFactory

    from zope.security.interfaces import ForbiddenAttribute
    for v in (w.pm.PermissionsVocabulary, w.pm.PermissionIdsVocabulary):
        if not IVocabularyFactory.providedBy(v):
            rec.violation('%r is not a vocabulary factory' % v,
                          fingerprint='factory')
            return 'bad'
    w.base.__init__('base')
    z.clean()

    def bad(msg):
        rec.violation('after %s: %s' % (''.join(PIECES[k] for k in case), msg),
                      fingerprint=msg[:30])
        return 'bad'
    try:
        rec.step()
        r, e = z.run('<configure xmlns="http://namespaces.zope.org/zope" '
                     'i18n_domain="mc">%s</configure>' % ''.join(
                         PIECES[k] for k in case))
        if r != 'ok':
            return bad('%s %s' % (r, e))
        ids = set()
        if {0, 1} & set(case):
            ids |= COMMON
        own = {2: ('zope.View', 'my view', ''),
               3: ('my.one', 'My one', 'of mine'),
               4: (PUBLIC, 'my public', ''), 5: ('http://my.two', 'B', '')}
        ids |= {own[k][0] for k in case if k in own}
        found = dict(getUtilitiesFor(w.IPermission))
        if set(found) != ids:
            return bad('there are %r' % sorted(found))
        msg = ask(w, None, found)
        if msg:
            return bad(msg)
        for k in case:
            if k in own:
                i, title, description = own[k]
                p = found[i]
                if (p.id, p.title, p.description) != own[k]:
                    return bad('%r is %r' % (i, vars(p)))
        factories = dict(getUtilitiesFor(IVocabularyFactory))
        want = {'Permissions': w.pm.PermissionsVocabulary,
                'Permission Ids': w.pm.PermissionIdsVocabulary}
        if factories != (want if 0 in case else {}):
            return bad('the vocabularies are %r' % factories)
        for i, p in found.items():
            if p.id != i or not p.title:
                return bad('%r is %r' % (i, vars(p)))
            px = w.zc.ProxyFactory(p)
            if px is p:
                return bad('a permission is not protected')
            before = dict(vars(p))
            for a in ('id', 'title', 'description', 'other', '__dict__',
                      '__init__', 'title_'):
                rec.step()
                may = 0 in case and a in ('id', 'title', 'description')
                try:
                    got = getattr(px, a) == getattr(p, a, None)
                except ForbiddenAttribute:
                    got = False
                if got is not may:
                    return bad('%s of a permission: %s' % (a, got))
                try:
                    setattr(px, a, 'x')
                except ForbiddenAttribute:
                    pass
                else:
                    return bad('%s of a permission can be set' % a)
            if vars(p) != before:
                return bad('a permission was changed')
        rec.state(tuple(sorted(ids)))
    finally:
        z.clean()
        w.base.__init__('base')
    return 'ok'


def bounds(tier):
    return dict({g: sum(1 for _ in sequences(g, tier))
                 for g in groups(tier)}, orders=sum(1 for _ in subsets()),
                contexts=4,
                packages=sum(1 for _ in packages(tier)), most_permissions=257)


def jobs(tier):
    out = lib.shards(8 if tier == 'thorough' else 1, mode='pure',
                     part='order') if tier == 'thorough' else []
    for g in groups(tier):
        out += lib.shards(8 if tier == 'thorough' else 3, mode='c', part=g)
    out += lib.shards(2, mode='c', part='orders')
    out += [dict(mode='c', part='crowds')]
    out += lib.shards(4, mode='c', part='packages')
    out += lib.shards(2, mode='pure', part='wide')
    return out


def explore(job, rec):
    w = World()
    if job['part'] == 'packages':
        z = zcml.Zcml()
        for case in lib.shard(packages(job['tier']), job):
            rec.case(case)
            rec.trace(package(w, z, case, rec), case)
        return
    it = (subsets() if job['part'] == 'orders'
          else crowds() if job['part'] == 'crowds'
          else sequences(job['part'], job['tier']))
    for seq in lib.shard(it, job):
        rec.case(seq)
        rec.trace(run(w, seq, rec), seq)


def replay(case, rec, job):
    if job['part'] == 'packages':
        package(World(), zcml.Zcml(), tuple(case), rec)
        return
    run(World(), [tuple(x) for x in case], rec)
