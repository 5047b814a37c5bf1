"""C09: combined and decorated checkers grant the union of their parts.

Trees: every combination tree up to the bound, every way each part can decide
(for reading and for writing), every entry point, on the real checkers with a
recording policy: decision, kind of refusal and the parts asked, in order.
Decorators: every stack of decorators up to the bound around every kind of
object, with every registration for each, and every set of allowed
permissions; every access compared with the union computed independently.
"""
import itertools

from mc import checkers
from mc import lib

ASSUMPTIONS = [
    'parts refuse with Unauthorized or ForbiddenAttribute; decorated objects '
    'are no exceptions (see C21)',
]


class Boom(Exception):
    pass


class AttrBoom(Boom, AttributeError):
    """(The refusal of an attribute is an AttributeError, too.)"""


class Obj:
    x = 1

    def __getitem__(self, i):
        return 1

    def __call__(self):
        return 1

    def __len__(self):
        return 1


# How a part decides: 'ok': a permission the policy allows, 'no': one it does
# not, 'forbidden': not declared, 'none': declared with no permission,
# 'boom', 'attr': the policy fails.
FAILURES = ('boom', 'attr')
DECISIONS = ['public', 'ok', 'no', 'forbidden', 'none', 'boom', 'attr']
ENTRIES = ['check', 'check_getattr', 'setitem', 'check_setattr', 'proxy getattr',
           'proxy setattr', 'proxy delattr', 'proxy getitem', 'proxy call',
           'proxy len', 'canAccess', 'canWrite']
NAME = {'proxy getitem': '__getitem__', 'proxy call': '__call__',
        'proxy len': '__len__'}
WRITES = ('check_setattr', 'proxy setattr', 'proxy delattr', 'canWrite')


def shapes(n):
    """All binary trees with n leaves, leaves numbered from left to right."""
    def build(lo, hi):
        if hi - lo == 1:
            yield lo
            return
        for mid in range(lo + 1, hi):
            for a in build(lo, mid):
                for b in build(mid, hi):
                    yield (a, b)
    return list(build(0, n))


def model(tree, decisions, log):
    """Decide like the property says: (outcome, leaves whose refusal may be
    the one raised)."""
    if isinstance(tree, int):
        d = decisions[tree]
        if d in ('ok', 'no') + FAILURES:
            log.append(tree)
        return {'public': 'ok', 'none': 'forbidden'}.get(d, d), {tree}
    a, la = model(tree[0], decisions, log)
    if a == 'ok' or a in FAILURES:
        return a, la
    b, lb = model(tree[1], decisions, log)
    if b == 'ok' or b in FAILURES:
        return b, lb
    if a == b == 'no':
        return 'no', la | lb
    if a == 'no':
        return 'no', la
    return b, lb


class World:
    def __init__(self):
        from zope.security import checker as zc
        from zope.security._definitions import thread_local
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        from zope.security import proxy as zp
        self.zc, self.zp, self.tl = zc, zp, thread_local
        self.U, self.F = Unauthorized, ForbiddenAttribute
        self.log = log = []
        self.booms = {'boom': Boom(), 'attr': AttrBoom('x')}
        self.pure = zp.Proxy is zp.ProxyPy
        world = self

        class Interaction:
            def checkPermission(self, permission, obj):
                log.append((int(permission.split(':')[1]), obj))
                boom = world.booms.get(permission.split(':')[0])
                if boom is not None:
                    raise boom
                return permission.startswith('ok')
        self.interaction = Interaction()

        class Duck:
            """A checker of another kind."""

            def __init__(self, get, set):
                self.get_permissions, self.set_permissions = get, set
                self.real = zc.CheckerPy(get, set)

            def check(self, obj, name):
                self.real.check(obj, name)

            def check_getattr(self, obj, name):
                self.real.check_getattr(obj, name)

            def check_setattr(self, obj, name):
                self.real.check_setattr(obj, name)

            def proxy(self, value):
                return value

        class Sub(zc.Checker):
            pass
        self.kinds = {'real': zc.Checker, 'py': zc.CheckerPy, 'duck': Duck,
                      'sub': Sub}

    def value(self, decision, leaf):
        if decision == 'public':
            return self.zc.CheckerPublic
        if decision == 'none':
            return None
        return '%s:%d' % (decision, leaf)

    def leaf(self, i, name, get, set, kind='real'):
        g, s = {'other': 'ok:9'}, {'other': 'ok:9'}
        if get != 'forbidden':
            g[name] = self.value(get, i)
        if set != 'forbidden':
            s[name] = self.value(set, i)
        return self.kinds[kind](g, s)

    def build(self, tree, leaves):
        if isinstance(tree, int):
            return leaves[tree]
        return self.zc.CombinedChecker(self.build(tree[0], leaves),
                                       self.build(tree[1], leaves))

    def enter(self, entry, checker, obj, name):
        """The outcome of one access, with the exception."""
        zc, zp = self.zc, self.zp
        del self.log[:]
        self.tl.interaction = self.interaction
        try:
            if entry == 'check':
                checker.check(obj, name)
            elif entry == 'check_getattr':
                checker.check_getattr(obj, name)
            elif entry == 'setitem':
                checker[obj] = name
            elif entry == 'check_setattr':
                checker.check_setattr(obj, name)
            else:
                p = zp.Proxy(obj, checker)
                if entry == 'proxy getattr':
                    p.x
                elif entry == 'proxy setattr':
                    p.x = 1
                elif entry == 'proxy delattr':
                    obj.x = 1
                    del p.x
                elif entry == 'proxy getitem':
                    p[0]
                elif entry == 'proxy call':
                    p()
                elif entry == 'proxy len':
                    len(p)
                elif entry == 'canAccess':
                    return ('ok' if zc.canAccess(p, name) else 'no'), None
                elif entry == 'canWrite':
                    return ('ok' if zc.canWrite(p, name) else 'no'), None
        except self.U as e:
            return 'no', e
        except self.F as e:
            return 'forbidden', e
        except Boom as e:
            return 'attr' if isinstance(e, AttrBoom) else 'boom', e
        finally:
            del self.tl.interaction
        return 'ok', None


def tree_case(w, tree, gets, sets, kinds, entry, rec, again=None):
    """One access; with *again* the declarations change and it is repeated."""
    n = len(gets)
    name = NAME.get(entry, 'x')
    leaves = [w.leaf(i, name, gets[i], sets[i], kinds[i]) for i in range(n)]
    checker = w.build(tree, leaves)
    obj = Obj()
    for round in range(2 if again else 1):
        if round:
            gets = list(gets)
            i, d = again
            if d == 'forbidden':
                leaves[i].get_permissions.pop(name, None)
            else:
                leaves[i].get_permissions[name] = w.value(d, i)
            gets[i] = d
        msg = tree_access(w, checker, tree, gets, sets, entry, obj, name)
        rec.step()
        if msg:
            rec.violation('%s of %r with reads %r, writes %r: %s' % (
                entry, tree, gets, sets, msg),
                fingerprint='tree %s: %s' % (entry, msg[:40]))
            return 'bad'
    return 'ok'


def tree_access(w, checker, tree, gets, sets, entry, obj, name):
    log = []
    decisions = sets if entry in WRITES else gets
    want, who = model(tree, decisions, log)
    if entry == 'canWrite' and want == 'forbidden':
        r, who = model(tree, gets, log)
        want = r if r == 'forbidden' or r in FAILURES else 'no'
    got, e = w.enter(entry, checker, obj, name)
    if got != want:
        return 'gives %s, not %s' % (got, want)
    if want == 'attr' and entry == 'proxy getattr' and w.pure:
        # Python itself asks a second time (see C21).
        log *= 2
    if [i for i, _ in w.log] != log:
        return 'asked about %r, not %r' % ([i for i, _ in w.log], log)
    if any(o is not obj for _, o in w.log):
        return 'asked about another object'
    if got in FAILURES and e is not w.booms[got]:
        return 'other error'
    if got == 'no' and e is not None:
        if e.args[0] is not obj or e.args[1] != name or \
                e.args[2] not in [w.value('no', i) for i in who]:
            return 'unauthorized names %r' % (e.args,)
    if got == 'forbidden':
        if e.args[0] != name or e.args[1] is not obj:
            return 'forbidden names %r' % (e.args,)
    return None


def deep():
    """Combinations of many parts, one or two of which are different."""
    def balanced(lo, hi):
        if hi - lo == 1:
            return lo
        return balanced(lo, (lo + hi) // 2), balanced((lo + hi) // 2, hi)
    for n in (5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33, 40):
        left = right = None
        for i in range(n):
            left = i if left is None else (left, i)
            right = n - 1 - i if right is None else (n - 1 - i, right)
        for t in (left, right, balanced(0, n)):
            for base in ('forbidden', 'no', 'none'):
                for i in sorted({0, 1, n // 2, n - 2, n - 1}):
                    for d in DECISIONS:
                        g = [base] * n
                        g[i] = d
                        g = tuple(g)
                        yield t, g, g[::-1], ('real',) * n


def trees(job, rec):
    w = World()
    n = job['leaves']
    cases = []
    if n <= 2:
        kinds = list(itertools.product(['real', 'py', 'duck', 'sub'],
                                       repeat=n))
        decisions = list(itertools.product(DECISIONS, repeat=n))
        for t in shapes(n):
            for k in kinds:
                for g in decisions:
                    for s in decisions:
                        cases.append((t, g, s, k))
    else:
        few = DECISIONS if n == 3 or job.get('all') else [
            'ok', 'no', 'forbidden', 'boom']
        for t in shapes(n):
            for g in itertools.product(few, repeat=n):
                # writes: decided alike, so one rotation suffices to see
                # that the two are not confused
                for s in (g, g[1:] + g[:1],
                          ('forbidden',) * n, ('no',) * n):
                    cases.append((t, g, s, ('real',) * n))
    if n == 1:
        cases += deep()
    for t, g, s, k in lib.shard(cases, job):
        if t == 0 and k[0] == 'duck':
            continue
        for entry in ENTRIES:
            if entry == 'setitem' and (isinstance(t, int) and
                                       k[t] in ('duck', 'py') or t == 0):
                continue
            rec.case(['tree', t, g, s, k, entry, None])
            r = tree_case(w, t, g, s, k, entry, rec)
            rec.state((t, g, s, k))
            rec.trace('%s: %s' % (entry, r), rec.current)
            if entry == 'check' and n in (2, 3) and k == ('real',) * n \
                    and g == s:
                for i in range(n):
                    for d in DECISIONS:
                        for e in ('check', 'proxy getattr'):
                            rec.case(['tree', t, g, s, k, e, [i, d]])
                            r = tree_case(w, t, g, s, k, e, rec, (i, d))
                            rec.trace('changed: %s' % r, rec.current)


# Decorators

NAMES = ['w_pub', 'w_perm', 'i_pub', 'i_perm', 'b_cross', 'b_perm',
         'neither', '__class__']
# declared: name -> permission, for the decorator (W, V) and the object (I)
DECL = {
    'W': {'w_pub': 'public', 'w_perm': 'pw', 'b_cross': 'pw',
          'b_perm': 'pw'},
    'V': {'w_perm': 'public', 'i_perm': 'pv'},
    'I': {'i_pub': 'public', 'i_perm': 'pi', 'b_cross': 'public',
          'b_perm': 'pi'},
    'O': {'i_perm': 'public', 'b_cross': 'po', 'w_perm': 'po'},
    'P': {'i_pub': 'public', 'b_cross': 'pp', 'neither': 'pp'},
    'default': {},
}
SETDECL = {
    'W': {'w_pub': 'pw'}, 'V': {'w_perm': 'public'},
    'I': {'i_pub': 'public', 'b_cross': 'pi', 'w_pub': 'pi'},
    'O': {'i_perm': 'po'}, 'P': {'i_pub': 'pp', 'b_perm': 'public'},
    'default': {},
}
PERMS = ['pw', 'pi', 'pv', 'po', 'pp']
WRAPPERS = ['Dec', 'SecDec', 'Loc', 'SubLoc', 'SubDec']
REG = ['undefined', 'W', 'NoProxy', 'f->W', 'f->None', 'falsy']
INNER = ['undefined', 'I', 'NoProxy', 'f->I', 'own', 'own+I', 'ownNone+I',
         'ownNone', 'ownNone+NoProxy', 'proxied', 'proxied own',
         'proxied sub', 'proxied sub own', 'proxied twice', 'instance',
         'falsy', 'f->falsy', 'proxied falsy', 'claims', 'claims own',
         'rock']


class Thing:
    pass


for _n in NAMES:
    if _n != '__class__':
        setattr(Thing, _n, 1)


class DecWorld:
    def __init__(self):
        from zope.location.location import LocationProxy

        from zope.security import checker as zc
        from zope.security import decorator as zd
        from zope.security import proxy as zp
        from zope.security._definitions import thread_local
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        self.zc, self.zp, self.tl = zc, zp, thread_local
        self.U, self.F = Unauthorized, ForbiddenAttribute
        self.snapshot = dict(zc._checkers)
        world = self

        class Dec(zd.DecoratorBase):
            pass

        class SubDec(Dec):
            pass

        class SecDec(zd.SecurityCheckerDecoratorBase):
            pass

        class SubLoc(LocationProxy):
            pass

        class Own(Thing):
            pass

        class OwnNone(Thing):
            __Security_checker__ = None

        class SubProxy(zp.Proxy):
            pass

        class Falsy(zc.Checker):
            """(Neither that nor what it is equal to matters.)"""

            def __bool__(self):
                return False

            def __eq__(self, other):
                return True

            __hash__ = None

        class Claims(Thing):
            __class__ = property(lambda self: zp.Proxy)

        class ClaimsOwn(Claims):
            pass
        self.SubProxy, self.Claims = SubProxy, Claims
        self.ClaimsOwn = ClaimsOwn
        self.pure = zp.Proxy is zp.ProxyPy
        self.types = dict(Dec=Dec, SubDec=SubDec, SecDec=SecDec,
                          Loc=LocationProxy, SubLoc=SubLoc)
        self.Own, self.OwnNone = Own, OwnNone

        def perms(decl):
            return {n: zc.CheckerPublic if p == 'public' else p
                    for n, p in decl.items()}
        self.checkers = {k: zc.Checker(perms(DECL[k]), perms(SETDECL[k]))
                         for k in 'WVIOP'}
        Own.__Security_checker__ = self.checkers['O']
        ClaimsOwn.__Security_checker__ = self.checkers['O']
        self.checkers['falsy'] = Falsy(perms(DECL['O']), perms(SETDECL['O']))
        for d in DECL, SETDECL:
            d['falsy'] = d['O']

        class Interaction:
            def checkPermission(self, permission, obj):
                world.asked.append(permission)
                return permission in world.allowed
        self.interaction = Interaction()
        self.allowed = ()
        self.asked = []

    def register(self, type_, reg):
        zc = self.zc
        if reg == 'undefined':
            return ['default']
        if reg == 'NoProxy':
            zc.defineChecker(type_, zc.NoProxy)
            return None
        if reg == 'f->None':
            zc.defineChecker(type_, lambda o: None)
            return None
        if reg.startswith('f->'):
            c = self.checkers[reg[3:]]
            zc.defineChecker(type_, lambda o: c)
            return [reg[3:]]
        zc.defineChecker(type_, self.checkers[reg])
        return [reg]

    def inner(self, kind):
        """The innermost object and the parts protecting it (None: none)."""
        if kind == 'rock':
            return 5, None
        if kind == 'proxied twice':
            return self.SubProxy(self.zp.Proxy(Thing(), self.checkers['I']),
                                 self.checkers['P']), ['P']
        if kind.startswith('proxied sub'):
            o = self.Own() if kind.endswith('own') else Thing()
            return self.SubProxy(o, self.checkers['P']), ['P']
        if kind == 'claims':
            return self.Claims(), self.register(self.Claims, 'I')
        if kind == 'claims own':
            return self.ClaimsOwn(), ['O']
        if kind in ('instance', 'falsy'):
            o = Thing()
            part = 'O' if kind == 'instance' else kind
            o.__Security_checker__ = self.checkers[part]
            return o, [part]
        if kind == 'proxied falsy':
            return self.zp.Proxy(self.Own(), self.checkers['falsy']), [
                'falsy']
        if kind.startswith('proxied'):
            o = Thing() if kind == 'proxied' else self.Own()
            return self.zp.Proxy(o, self.checkers['P']), ['P']
        if kind.startswith('ownNone'):
            o = self.OwnNone()
            return o, self.register(
                self.OwnNone, kind[8:] if '+' in kind else 'undefined')
        if kind.startswith('own'):
            if '+' in kind:
                self.register(self.Own, kind[4:])
            return self.Own(), ['O']
        return Thing(), self.register(Thing, kind)

    def decide(self, parts, name, decl):
        """The union of the parts, and what has to be asked for it."""
        worst, asked = 'forbidden', []
        for part in parts:
            p = decl[part].get(name)
            if p is None:
                if decl is DECL and name == '__class__':
                    return 'ok', asked
            elif p == 'public':
                return 'ok', asked
            else:
                asked.append(p)
                if p in self.allowed:
                    return 'ok', asked
                worst = 'no'
        return worst, asked

    def attempt(self, fn, *args):
        self.tl.interaction = self.interaction
        del self.asked[:]
        try:
            fn(*args)
        except self.U:
            return 'no'
        except self.F:
            return 'forbidden'
        except AttributeError:
            # The pure proxy reports what the object's own refusal was as a
            # missing attribute (see C21).
            if not self.pure or fn is not getattr:
                raise
            return 'forbidden'
        finally:
            del self.tl.interaction
        return 'ok'


def dec_case(w, stack, inner, rec):
    """*stack*: wrappers from the inside out, as (kind, registration)."""
    zc, zp = w.zc, w.zp
    zc._checkers.clear()
    zc._checkers.update(w.snapshot)
    obj, parts = w.inner(inner)
    hard = []
    if inner.startswith('proxied'):
        hard = [['P'], ['I']] if inner == 'proxied twice' else [parts]
    registered = {}
    for i, (kind, reg) in enumerate(stack):
        t = w.types[kind]
        if t in registered:
            own = registered[t]
        else:
            own = registered[t] = w.register(t, reg)
        obj = t(obj)
        if own is None:
            pass
        elif parts is None:
            parts = own
        else:
            parts = own + parts
    what = '%s around %s' % (stack, inner)

    def bad(msg):
        rec.violation('%s: %s' % (what, msg),
                      fingerprint='dec: ' + msg[:50])
        return 'bad'
    # no protection at all
    own = getattr(obj, '__Security_checker__', None)
    p = zc.ProxyFactory(obj)
    q = zc.Checker({}).proxy(obj)
    if parts is None:
        if own is not None:
            return bad('has a checker %r' % (own,))
        if p is not obj or q is not obj:
            return bad('is proxied')
        return 'none'
    if own is None:
        return bad('has no checker')
    for x in (p, q):
        if type(x) is not zp.Proxy or zp.getObject(x) is not obj:
            return bad('is not proxied')
    for allowed in itertools.chain.from_iterable(
            itertools.combinations(PERMS, n) for n in range(len(PERMS) + 1)):
        w.allowed = allowed
        for name in NAMES:
            r, rasked = w.decide(parts, name, DECL)
            s, sasked = w.decide(parts, name, SETDECL)
            for c in (own, zp.getChecker(p), zp.getChecker(q)):
                for m in ('check', 'check_getattr'):
                    got = w.attempt(getattr(c, m), obj, name)
                    if got != r:
                        return bad('%s %s gives %s, not %s (allowed %r)' % (
                            m, name, got, r, allowed))
                    if w.asked != rasked:
                        return bad('%s %s asks for %r, not %r' % (
                            m, name, w.asked, rasked))
                got = w.attempt(c.check_setattr, obj, name)
                if got != s:
                    return bad('check_setattr %s gives %s, not %s '
                               '(allowed %r)' % (name, got, s, allowed))
                if w.asked != sasked:
                    return bad('check_setattr %s asks for %r, not %r' % (
                        name, w.asked, sasked))
            rec.step(9)
            if inner == 'rock' or name == '__class__':
                continue
            # real accesses: the protected object decides once more
            real = r
            for h in hard:
                if real == 'ok':
                    real = w.decide(h, name, DECL)[0]
            for x in (p, q):
                got = w.attempt(getattr, x, name)
                if got != real:
                    return bad('reading %s gives %s, not %s (allowed %r)' % (
                        name, got, real, allowed))
            real = s
            for h in hard:
                if real == 'ok':
                    real = w.decide(h, name, SETDECL)[0]
            got = w.attempt(setattr, p, name, 1)
            if got != real:
                return bad('writing %s gives %s, not %s (allowed %r)' % (
                    name, got, real, allowed))
    # it cannot be replaced
    try:
        obj.__Security_checker__ = w.checkers['V']
    except TypeError:
        pass
    else:
        return bad('__Security_checker__ was set')
    rec.state((stack, inner))
    return 'parts %d' % len(parts)


def decorators(job, rec):
    w = DecWorld()
    one = list(itertools.product(WRAPPERS, REG))
    stacks = [(a,) for a in one]
    if job['depth'] >= 2:
        outer = list(itertools.product(
            WRAPPERS, ['undefined', 'V', 'NoProxy', 'falsy'] + (
                ['f->V', 'f->None'] if job['depth'] > 2 else [])))
        stacks += [(a, b) for a in one for b in outer]
    for stack, inner in lib.shard(itertools.product(stacks, INNER), job):
        rec.case(['dec', stack, inner])
        r = dec_case(w, stack, inner, rec)
        rec.trace('decorated: ' + r, rec.current)


def bounds(tier):
    return ('all combination trees of up to %d parts x decisions x entry '
            'points (all kinds of checkers for up to 2); all stacks of up to '
            '2 decorators x registrations x objects x sets of allowed '
            'permissions' % (5 if tier == 'thorough' else 4))


def jobs(tier):
    out = []
    t = tier == 'thorough'
    for mode in ('c', 'pure'):
        out += lib.shards(2, mode=mode, part='trees', leaves=2)
        out += [dict(mode=mode, part='trees', leaves=n) for n in (1, 3)]
        out += lib.shards(4 if t else 1, mode=mode, part='trees', leaves=4,
                          all=t)
        if t:
            out += lib.shards(4, mode=mode, part='trees', leaves=5)
        out += lib.shards(8 if t else 4, mode=mode, part='decorators',
                          depth=3 if t else 2)
    for mode in ('watch', 'purewatch'):
        out += [dict(mode=mode, part='trees', leaves=n) for n in (1, 3)]
        out.append(dict(mode=mode, part='decorators', depth=1))
    return out


def explore(job, rec):
    try:
        (trees if job['part'] == 'trees' else decorators)(job, rec)
    finally:
        checkers.cleanup()


def _tuple(x):
    return tuple(map(_tuple, x)) if isinstance(x, list) else x


def replay(case, rec, job):
    case = _tuple(case)
    if case[0] == 'tree':
        rec.trace(tree_case(World(), *case[1:6], rec, case[6]))
    else:
        rec.trace(dec_case(DecWorld(), case[1], case[2], rec))
