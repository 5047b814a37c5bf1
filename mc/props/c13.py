"""C13: class protections accumulate exactly as the calls made.

Sequences: every sequence of protectName, protectSetAttribute and
protectLikeUnto calls up to the bound, over two related classes, two names and
several permissions, from every initial registration, on the real code; the
permission required to read and write each name on each class is compared
with a model, and so are accesses through proxies.  Transitions: every state
of a larger model (what each class declares) is set up and every call is made
in it, so every transition of the model is checked against the code.
"""
import itertools

from mc import checkers
from mc import lib

ASSUMPTIONS = [
    'the classes are protected by name-based checkers, registered before or '
    'by the calls; factories and NoProxy have no names to add to',
]


class Text(str):
    """Another type of string, as message ids are."""


NAMES = ['a', 'b']
EXTRA = ['z', '__call__', '__len__', '__class__', 'A']
PERMS = {
    'P': 'perm.P', 'Q': 'perm.Q', 'zp': 'zope.Public',
    'zp2': ''.join(['zope.', 'Public']), 'zpt': Text('zope.Public'),
    'like': 'zope.public', 'public': None, 'none': None,
}
MEANS = {'P': 'P', 'Q': 'Q', 'zp': 'public', 'zp2': 'public',
         'zpt': 'public', 'public': 'public', 'like': 'like', 'none': 'none'}
POLICIES = [(), ('perm.P',), ('perm.Q',), ('zope.public',),
            ('perm.P', 'perm.Q')]


class World:
    def __init__(self):
        from zope.security import checker as zc
        from zope.security import protectclass
        from zope.security import proxy as zp
        from zope.security._definitions import thread_local
        from zope.security.interfaces import ForbiddenAttribute
        from zope.security.interfaces import Unauthorized
        self.zc, self.pc, self.zp, self.tl = zc, protectclass, zp, thread_local
        self.F, self.U = ForbiddenAttribute, Unauthorized
        self.perms = dict(PERMS, public=zc.CheckerPublic)

        class Interaction:
            allowed = ()

            def checkPermission(self, permission, obj):
                return permission in self.allowed
        self.interaction = Interaction()

        class X:
            a = b = z = A = 1

            def __call__(self):
                return 1

            def __len__(self):
                return 1

        class Y(X):
            pass

        class Z(Y):
            pass
        self.classes = dict(X=X, Y=Y, Z=Z)

        class Odd(zc.Checker):
            """(Neither its truth nor what it is equal to matters.)"""

            def __bool__(self):
                return False

            def __eq__(self, other):
                return True

            __hash__ = None
        self.Odd = Odd

    def reset(self, init):
        """Undefine all and register the initial checkers; the model."""
        zc = self.zc
        model = {}
        for k, cls in self.classes.items():
            if zc.getCheckerForInstancesOf(cls) is not None:
                zc.undefineChecker(cls)
            model[k] = ({}, {})
        for k, how in init.items():
            if how is None:
                continue
            get, set_ = {}, {}
            if how == 'names':
                c = zc.NamesChecker(['a'], 'perm.P')
                get = {'a': 'P'}
            elif how == 'multi':
                c = zc.MultiChecker([(['b'], 'perm.Q'),
                                     {'z': zc.CheckerPublic}])
                get = {'b': 'Q', 'z': 'public'}
            elif how == 'getonly':
                c = zc.Checker({})
            elif how == 'none':
                c = zc.Checker({'a': None}, {'b': None})
                get, set_ = {'a': 'none'}, {'b': 'none'}
            elif how == 'odd':
                c = self.Odd({'a': 'perm.Q'}, {'a': 'perm.Q'})
                get, set_ = {'a': 'Q'}, {'a': 'Q'}
            else:
                get, set_ = dict(how[0]), dict(how[1])
                c = zc.Checker({n: self.perms[p] for n, p in get.items()},
                               {n: self.perms[p] for n, p in set_.items()})
            zc.defineChecker(self.classes[k], c)
            model[k] = (get, set_)
        return model

    def call(self, op):
        cls = self.classes[op[1]]
        if op[0] == 'name':
            self.pc.protectName(cls, op[2], self.perms[op[3]])
        elif op[0] == 'set':
            self.pc.protectSetAttribute(cls, op[2], self.perms[op[3]])
        else:
            self.pc.protectLikeUnto(cls, self.classes[op[2]])

    def ids(self, k):
        """What is required on a class: reads and writes by name."""
        c = self.zc.selectChecker(self.classes[k]())
        out = ({}, {})
        for n in NAMES + EXTRA:
            out[0][n] = c.permission_id(n)
            out[1][n] = c.setattr_permission_id(n)
        return out


def model_call(model, op):
    get, set_ = model[op[1]]
    if op[0] == 'name':
        get[op[2]] = MEANS[op[3]]
    elif op[0] == 'set':
        set_[op[2]] = MEANS[op[3]]
    else:
        g, s = model[op[2]]
        get.update(dict(g))
        set_.update(dict(s))


def compare(w, model, classes):
    for k in classes:
        got = w.ids(k)
        for i, kind in enumerate(('reading', 'writing')):
            for n in NAMES + EXTRA:
                m = model[k][i].get(n)
                want = None if m is None else w.perms[m]
                p = got[i][n]
                if not (p is want or (type(want) is str and p == want and
                                      isinstance(p, str))):
                    return '%s %s of %s requires %r, not %r' % (
                        kind, n, k, p, want)
    return None


def effective(w, model, classes):
    """The same by accesses through proxies under every policy."""
    for k in classes:
        obj = w.classes[k]()
        p = w.zc.ProxyFactory(obj)
        if type(p) is not w.zp.Proxy:
            return 'an instance of %s is not proxied' % k
        for allowed in POLICIES:
            w.interaction.allowed = allowed
            w.tl.interaction = w.interaction
            try:
                for n in NAMES + ['z', 'A']:
                    for i, entry in ((0, 'get'), (1, 'set'), (1, 'del')):
                        m = model[k][i].get(n)
                        if m == 'public':
                            want = 'ok'
                        elif m in (None, 'none'):
                            want = 'forbidden'
                        else:
                            want = 'ok' if w.perms[m] in allowed else 'no'
                        try:
                            if entry == 'get':
                                getattr(p, n)
                            elif entry == 'set':
                                setattr(p, n, 1)
                            else:
                                object.__setattr__(obj, n, 1)
                                delattr(p, n)
                            got = 'ok'
                        except w.U as e:
                            got = 'no'
                            if e.args[1:] != (n, w.perms[m]):
                                return '%s %s of %s: unauthorized %r' % (
                                    entry, n, k, e.args[1:])
                        except w.F:
                            got = 'forbidden'
                        if got != want:
                            return '%s %s of %s under %r: %s, not %s' % (
                                entry, n, k, allowed, got, want)
            finally:
                del w.tl.interaction
    return None


def ops(classes, names, perms):
    out = []
    for k in classes:
        for n in names:
            for p in perms:
                out += [('name', k, n, p), ('set', k, n, p)]
        for j in classes:
            out.append(('like', k, j))
    return out


INITS = [{}, {'X': 'names'}, {'Y': 'multi'}, {'X': 'getonly', 'Y': 'getonly'},
         {'X': 'none', 'Y': 'names'}, {'X': 'odd', 'Y': 'none'},
         {'X': 'odd', 'Y': 'odd'}]


def run(w, init, seq, rec, deep, classes=('X', 'Y', 'Z')):
    model = w.reset(init)
    for op in seq:
        w.call(op)
        model_call(model, op)
        rec.step()
    msg = compare(w, model, classes) or (
        effective(w, model, classes) if deep else None)
    if msg:
        rec.violation('after %r from %r: %s' % (seq, init, msg),
                      fingerprint='%s: %s' % (seq[-1][0] if seq else '',
                                              msg[:40]))
    return model


def plan(job):
    """The (init, operations, length) explored by a sequences job."""
    out = []
    big = job['tier'] == 'thorough'
    for init in INITS:
        # all kinds of permission, briefly
        out.append((init, ops(['X', 'Y'], NAMES, sorted(PERMS)), 2))
        out.append((init, ops(['X', 'Y'], NAMES, ['P', 'zp']),
                    4 if big or init in ({}, INITS[1]) else 3))
        out.append((init, ops(['X', 'Y', 'Z'], ['a'], ['P', 'zp']),
                    4 if big else 3))
        out.append((init, ops(['X', 'Y'], ['a'], ['P', 'Q']),
                    5 if big else 4))
    if job.get('part') == 'short':
        out = [(i, o[::3] if len(o) > 30 else o, 2) for i, o, n in out]
    return out


def states(names, perms):
    """All declarations of two classes."""
    maps = [dict((n, p) for n, p in zip(names, ps) if p)
            for ps in itertools.product([None] + perms, repeat=len(names))]
    kinds = [None] + [(g, s) for g in maps for s in maps]
    return itertools.product(kinds, kinds)


def transitions(w, job, rec):
    perms = ['P', 'public'] if job['tier'] == 'quick' else [
        'P', 'public', 'none']
    todo = ops(['X', 'Y'], NAMES, ['P', 'Q', 'zp'])
    for x, y in lib.shard(states(NAMES, perms), job):
        init = {'X': x, 'Y': y}
        rec.state(init)
        for op in todo:
            if op[0] == 'like' and op[1] != op[2] or op[2] == 'a':
                rec.case(['seq', init, [op]])
                run(w, init, [op], rec, False, ('X', 'Y'))
                rec.trace(op[0], rec.current)


SIZES = [*range(1, 12), 16, 17, 32, 33, 64, 65, 130, 257]


def sizes(w, job, rec):
    """Many names on a class, and the protections of one class handed on from
    class to class."""
    zc, pc = w.zc, w.pc
    for size in lib.shard(SIZES, job):
        ns = ['n%d' % i for i in range(size)]
        for k in sorted({0, 1, size // 2, size - 2, size - 1} &
                        set(range(size))):
            for how in ('name', 'set'):
                for perm in ('Q', 'zp'):
                    rec.case(['size', size, k, how, perm])
                    size_case(w, ns, k, how, perm, rec)
                    rec.state((size, k, how, perm))
                    rec.trace('size %d' % size, rec.current)


def size_case(w, ns, k, how, perm, rec):
    zc, pc = w.zc, w.pc
    classes = [type('K%d' % i, (), {}) for i in range(min(len(ns), 40) + 1)]
    call = pc.protectName if how == 'name' else pc.protectSetAttribute
    ask = 'permission_id' if how == 'name' else 'setattr_permission_id'
    other = 'setattr_permission_id' if how == 'name' else 'permission_id'
    want = w.perms[{'zp': 'public'}.get(perm, perm)]
    try:
        for n in ns:
            call(classes[0], n, 'perm.P')
        call(classes[0], ns[k], w.perms[perm])
        for a, b in zip(classes[1:], classes):
            pc.protectLikeUnto(a, b)
        # (not handed on any more)
        call(classes[0], ns[0], 'perm.late')
        for i, cls in enumerate(classes):
            c = zc.getCheckerForInstancesOf(cls)
            for j, n in enumerate(ns):
                p = getattr(c, ask)(n)
                q = 'perm.late' if not i and not j else (
                    want if j == k else 'perm.P')
                if p is not q and not (type(q) is str and p == q):
                    rec.violation(
                        '%s %d of %d: class %d requires %r, not %r' % (
                            how, j, len(ns), i, p, q),
                        fingerprint='size ' + how)
                    return
                if getattr(c, other)(n) is not None:
                    rec.violation('%s %d of %d is declared otherwise too' % (
                        how, j, len(ns)), fingerprint='size other')
                    return
            rec.step()
    finally:
        for cls in classes:
            if zc.getCheckerForInstancesOf(cls) is not None:
                zc.undefineChecker(cls)


def bounds(tier):
    return dict(
        names_on_a_class=max(SIZES), classes_in_a_row=41,
        initial_registrations=len(INITS),
        sequences=[[len(o), n] for i, o, n in plan(dict(tier=tier))],
        sequences_are='[calls to choose from, calls in sequence]',
        model_states=sum(1 for _ in states(NAMES, ['P', 'public'] + (
            ['none'] if tier == 'thorough' else []))))


def jobs(tier):
    out = []
    n = 16 if tier == 'thorough' else 4
    for mode in ('c', 'pure'):
        out += lib.shards(n, mode=mode, part='sequences')
        out += lib.shards(n, mode=mode, part='transitions')
        out += lib.shards(2, mode=mode, part='sizes')
    out += [dict(mode=m, part='short') for m in ('watch', 'purewatch')]
    return out


def explore(job, rec):
    w = World()
    try:
        if job['part'] == 'transitions':
            transitions(w, job, rec)
            return
        if job['part'] == 'sizes':
            sizes(w, job, rec)
            return
        for init, todo, most in plan(job):
            for n in range(most + 1):
                for seq in lib.shard(itertools.product(todo, repeat=n), job):
                    rec.case(['seq', init, seq])
                    model = run(w, init, seq, rec, n <= 2)
                    rec.state((init, sorted(
                        (k, sorted(g.items()), sorted(s.items()))
                        for k, (g, s) in model.items())))
                    rec.trace('length %d' % n, rec.current)
    finally:
        checkers.cleanup()
        w.reset({})


def replay(case, rec, job):
    w = World()
    if case[0] == 'size':
        _, size, k, how, perm = case
        size_case(w, ['n%d' % i for i in range(size)], k, how, perm, rec)
        return
    init = {k: (v if v is None or isinstance(v, str) else tuple(v))
            for k, v in case[1].items()}
    run(w, init, [tuple(o) for o in case[2]], rec, True)
