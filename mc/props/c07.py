"""C07: the simple policies admit and bind participations as documented.

Every sequence of adds and removes up to the bound, and the closure of all
reachable states, of three participations (with every assignment of
principals) and two interactions of every pair of policies, all queries being
asked after every step.
"""
import itertools

from mc import lib

ASSUMPTIONS = [
    'participations are plain objects with an attribute interaction',
]

PRINCIPALS = ['system', 'other', 'twin', 'equal', 'none']
# (What a policy or a participation is equal to, and whether it is true, must
# not matter.)
POLICIES = ['paranoid', 'permissive', 'sub', 'odd']
PARTICIPATIONS = ['plain', 'equal', 'falsy']


class Sut:
    def __init__(self, principals, policies, start, kind='plain'):
        from zope.security import simplepolicies as sp
        from zope.security._definitions import SystemUser
        from zope.security._definitions import system_user
        from zope.security.checker import CheckerPublic

        class Equal:
            id = system_user.id

            def __eq__(self, other):
                return True

            __hash__ = object.__hash__

        class Other:
            id = 'other'

        class Participation:
            interaction = None

            def __init__(self, principal):
                self.principal = principal

        class EqualParticipation(Participation):
            def __eq__(self, other):
                return True

            __hash__ = None

        class FalsyParticipation(Participation):
            def __bool__(self):
                return False
        Participation = {'plain': Participation, 'equal': EqualParticipation,
                         'falsy': FalsyParticipation}[kind]
        make = {'system': lambda: system_user, 'other': Other,
                'twin': SystemUser, 'equal': Equal, 'none': lambda: None}
        self.public = CheckerPublic
        # a permission that is equal to any other one
        self.like = Equal()
        self.system = system_user

        class Sub(sp.ParanoidSecurityPolicy):
            pass

        class Odd(sp.ParanoidSecurityPolicy):
            def __eq__(self, other):
                return True

            def __bool__(self):
                return False

            __hash__ = None
        classes = {'odd': Odd, 'paranoid': sp.ParanoidSecurityPolicy,
                   'permissive': sp.PermissiveSecurityPolicy, 'sub': Sub}
        self.parts = [Participation(make[p]()) for p in principals]
        self.kinds = policies
        self.owner = [None] * len(principals)
        self.members = [[] for p in policies]
        self.sut = []
        self.msg = None
        for i, k in enumerate(policies):
            first = [self.parts[j] for j in start[i]]
            self.sut.append(classes[k](*first))
            for j in start[i]:
                self.owner[j] = i
                self.members[i].append(j)
        self.objects = [None, object(), self.parts[0]]

    def do(self, action):
        what, i, j = action
        s, p = self.sut[i], self.parts[j]
        try:
            r = getattr(s, what)(p)
            ok = True
        except ValueError:
            ok = False
        if what == 'add':
            want = self.owner[j] is None
            if want:
                self.owner[j] = i
                self.members[i].append(j)
        else:
            want = self.owner[j] == i
            if want:
                self.owner[j] = None
                self.members[i].remove(j)
        if ok != want:
            return '%s %s' % (what, 'succeeded' if ok else 'failed')
        if ok and r is not None:
            return 'returned %r' % (r,)
        return None

    def compare(self):
        for j, p in enumerate(self.parts):
            want = None if self.owner[j] is None else self.sut[self.owner[j]]
            if p.interaction is not want:
                return 'participation %d belongs to %r' % (j, p.interaction)
        for i, s in enumerate(self.sut):
            if [id(p) for p in s.participations] != [
                    id(self.parts[j]) for j in self.members[i]]:
                return 'participations of %d: %r' % (i, s.participations)
            allowed = self.kinds[i] == 'permissive' or all(
                self.parts[j].principal is self.system
                for j in self.members[i])
            for o in self.objects:
                if s.checkPermission(self.public, o) is not True:
                    return 'public was refused'
                for perm in ('p', 'zope.Public', '', 'zope.View', object(),
                             self.like):
                    r = s.checkPermission(perm, o)
                    if r is not allowed:
                        return '%r of %d: %r' % (perm, i, r)
        return None

    def key(self):
        return tuple(map(tuple, self.members))


def actions(n, m):
    return [(w, i, j) for w in ('add', 'remove') for i in range(m)
            for j in range(n)]


def run(case, rec):
    s = Sut(case['principals'], case['policies'], case['start'],
            case.get('kind', 'plain'))
    msg = s.compare()
    for a in case['history']:
        if msg:
            break
        msg = s.do(a) or s.compare()
        rec.step()
    if msg:
        rec.violation('%s after %r' % (msg, case), case,
                      fingerprint=msg[:30])
        return None
    return s.key()


STARTS = [((), ()), ((0,), ()), ((0, 1), ()), ((1, 0), (2,)), ((), (2, 1, 0))]


def closure(rec, principals, policies, kind):
    n, m = len(principals), len(policies)
    seen = set()
    for start in STARTS:
        if any(j >= n for s in start for j in s):
            continue
        frontier = [()]
        while frontier:
            nxt = []
            for h in frontier:
                for a in [None] + actions(n, m):
                    h2 = h + (a,) if a else h
                    case = dict(principals=principals, policies=policies,
                                start=start, history=h2, kind=kind)
                    rec.case(case)
                    key = run(case, rec)
                    rec.trace('%d members' % sum(map(len, key))
                              if key is not None else 'bad', case)
                    if key is None or key in seen:
                        continue
                    seen.add(key)
                    rec.state((principals, policies, kind, key))
                    nxt.append(h2)
            frontier = nxt


def duplicates(rec, policies):
    """Constructing with a participation twice or with a bound one fails."""
    for start in [((0, 0), ()), ((0,), (0,)), ((1, 0), (2, 0))]:
        case = dict(principals=['system', 'other', 'other'],
                    policies=policies, start=start, history=())
        rec.case(case)
        try:
            Sut(case['principals'], policies, start)
        except ValueError:
            rec.trace('duplicate refused', case)
        else:
            rec.violation('a bound participation was accepted', case,
                          fingerprint='bound accepted')


def sizes(job):
    """Interactions of up to 40 participations, all but one of the system,
    made at once or one by one and taken apart from either end."""
    for n in [*range(1, 11), 16, 17, 25, 33, 40]:
        for k in [None] + sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            principals = ['other' if i == k else 'system' for i in range(n)]
            ids = tuple(range(n))
            adds = tuple(('add', 0, j) for j in ids)
            removes = tuple(('remove', 0, j) for j in ids)
            for start, history in [((ids, ()), removes),
                                   ((ids, ()), removes[::-1]),
                                   (((), ()), adds + removes[:2])]:
                for policies in [('paranoid', 'paranoid'),
                                 ('permissive', 'paranoid')]:
                    yield dict(principals=principals, policies=policies,
                               start=start, history=history)


def bounds(tier):
    return ('up to 40 participations, one of them not of the system; '
            '3 participations (of %d kinds) with every assignment of %d '
            'principals, 2 interactions of %d kinds of policies: closure of '
            'all states from %d starts; all sequences of %d adds and removes'
            % (len(PARTICIPATIONS), len(PRINCIPALS), len(POLICIES),
               len(STARTS),
                3 if tier == 'quick' else 5))


def jobs(tier):
    out = []
    for mode in ('c', 'pure'):
        out += lib.shards(2, mode=mode, part='closure',
                          depth=3 if tier == 'quick' else 5)
        out += lib.shards(2 if tier == 'quick' else 4, mode=mode,
                          part='sequences',
                          depth=3 if tier == 'quick' else 5)
    return out


def explore(job, rec):
    pairs = list(itertools.product(POLICIES, repeat=2))
    if job['part'] == 'closure':
        for pp in pairs:
            duplicates(rec, pp)
        pairs = [p for p in pairs if p[0] == 'paranoid'] + [
            p for p in pairs if p[0] == 'odd'][::3]
        cs = itertools.product(itertools.product(PRINCIPALS, repeat=3),
                               pairs, PARTICIPATIONS)
        for principals, policies, kind in lib.shard(cs, job):
            if (kind != 'plain' or policies[0] == 'odd') and (
                    job['depth'] < 5 and not (
                        set(principals) <= {'system', 'other'}
                        and policies in pairs[:1] + pairs[-1:])):
                continue
            closure(rec, principals, policies, kind)
        return
    for case in lib.shard(sizes(job), job):
        rec.case(case)
        key = run(case, rec)
        rec.state((case['principals'], key))
        rec.trace('size %d' % len(case['principals']), case)
    for principals in (('system', 'other', 'other'),
                       ('system', 'system', 'other')):
        for h in lib.shard(itertools.product(actions(3, 2),
                                             repeat=job['depth']), job):
            for start, kind in itertools.product(
                    STARTS[:1] + STARTS[3:4], PARTICIPATIONS[:2]):
                case = dict(principals=principals,
                            policies=('paranoid', 'paranoid'), start=start,
                            history=h, kind=kind)
                rec.case(case)
                key = run(case, rec)
                rec.state((principals, kind, key))
                rec.trace('sequence %s' % (key,), case)


def replay(case, rec, job):
    rec.trace(run(case, rec))
