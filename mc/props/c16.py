"""C16: permission names in ZCML are checked, redefined and scoped correctly.

Scopes: every tree of nested groups, modules and included files with
redefinitions at any place, up to the bound on its size, with uses of every
permission before, between and after all of them in every scope, is executed
with the real directives, and what each use came to require is compared with a
model of lexical scoping.  Definitions: every placement of definitions,
redefinitions and uses over an including and an included file, before or
after each other: accepted exactly when all named permissions are defined.
Effects: every placement of permission and securityPolicy directives, and what
is registered and in force afterwards.
"""
import itertools

from mc import checkers
from mc import lib
from mc import zcml

ASSUMPTIONS = [
    'conflict resolution between files is that of zope.configuration',
    'the substitute named in a redefinition is itself subject to earlier '
    'redefinitions',
]
PERMS = {'A': 'mc.A', 'B': 'mc.B', 'C': 'mc.C', 'public': 'zope.Public'}
USED = sorted(PERMS)
# permissions by other names
NAMINGS = [
    dict(A='zope.View', B='zope.ManageContent', C='zope.Security'),
    dict(A='zope.public', B='zope.Public2', C='zope.Publi'),
    dict(A='http://example.org/p', B='urn:p', C='a.b.c.d'),
    dict(A='zope.interface', B='zope.security.CheckerPublic', C='mc.zope.Public'),
]
REDEFS = [('A', 'B'), ('A', 'C'), ('B', 'C'), ('B', 'A'), ('A', 'public'),
          ('public', 'C'), ('A', 'A')]
BOXES = ['group', 'include', 'module', 'overrides']


class World:
    def __init__(self):
        from zope.security import checker as zc
        from zope.security import management
        from zope.security import permission
        from zope.security import simplepolicies
        from zope.security._definitions import thread_local
        from zope.security.interfaces import IPermission
        self.zc, self.tl = zc, thread_local
        self.management, self.permission = management, permission
        self.IPermission = IPermission
        self.zcml = zcml.Zcml()
        fix = self.zcml.fix

        class Policy1(simplepolicies.ParanoidSecurityPolicy):
            pass

        class Policy2(simplepolicies.ParanoidSecurityPolicy):
            pass
        fix.Policy1, fix.Policy2 = Policy1, Policy2
        self.policies = dict(p1=Policy1, p2=Policy2)
        self.fix = fix

    def fresh(self):
        import types
        self.zcml.clean()
        self.fix.X = type('X', (), {})
        self.fix.m = types.ModuleType('mcfix.m')


# Trees: a scope is a list of nodes; a node is ['redef', from, to] or
# [box, scope].

def scopes(n, redefs, boxes, depth):
    """All scopes of exactly n nodes."""
    if n == 0:
        yield []
        return
    for rest in range(n):
        # the first node takes n - rest nodes in all
        size = n - rest
        firsts = []
        if size == 1:
            firsts = [['redef', f, t] for f, t in redefs]
        elif depth:
            firsts = [[b, inner] for b in boxes
                      for inner in scopes(size - 1, redefs, boxes, depth - 1)]
        if not firsts:
            continue
        for tail in scopes(rest, redefs, boxes, depth):
            for first in firsts:
                yield [first] + tail


class Writer:
    """The texts of a tree, and what each use should require."""

    def __init__(self, tree, module_uses=False):
        self.files = {}
        self.uses = []          # (kind, name, wanted permission)
        self.n = 0
        self.modules = module_uses
        perms = ''.join('<permission id="%s" title="t"/>' % PERMS[p]
                        for p in 'ABC')
        self.text = zcml.HEAD + perms + self.scope(tree, {}, False) + \
            '</configure>'

    def probe(self, env, in_module):
        out = []
        for p in USED:
            self.n += 1
            name = 'u%d' % self.n
            want = env.get(p, p)
            if in_module:
                out.append('<require permission="%s" attributes="%s"/>' % (
                    PERMS[p], name))
                self.uses.append(('module', name, want))
            else:
                attr = 'attributes' if self.n % 3 else 'set_attributes'
                out.append('<require permission="%s" %s="%s"/>' % (
                    PERMS[p], attr, name))
                self.uses.append(('class' if self.n % 3 else 'set', name,
                                  want))
        if in_module:
            return ''.join(out)
        return '<class class="mcfix.X">%s</class>' % ''.join(out)

    def scope(self, nodes, env, in_module):
        env = dict(env)
        out = [self.probe(env, in_module)]
        for node in nodes:
            if node[0] == 'redef':
                f, t = node[1:]
                env[f] = env.get(t, t)
                out.append('<meta:redefinePermission from="%s" to="%s"/>' % (
                    PERMS[f], PERMS[t]))
            elif node[0] == 'group':
                out.append('<configure>%s</configure>' % self.scope(
                    node[1], env, in_module))
            elif node[0] in ('include', 'overrides'):
                name = '/mc/f%d.zcml' % (len(self.files) + 1)
                self.files[name] = ''
                self.files[name] = zcml.HEAD + self.scope(
                    node[1], env, in_module) + '</configure>'
                out.append('<%s file="%s"/>' % (
                    'include' if node[0] == 'include' else
                    'includeOverrides', name))
            else:
                out.append('<module module="mcfix.m">%s</module>'
                           % self.scope(node[1], env, True))
            out.append(self.probe(env, in_module))
        return ''.join(out)


def run_tree(w, tree, rec):
    w.fresh()
    t = Writer(tree)
    rec.step(len(t.uses))
    got, e = w.zcml.run(t.text, t.files)
    if got != 'ok':
        rec.violation('%s\n%r\nis %s: %s' % (t.text, t.files, got, e),
                      fingerprint='scopes: ' + got)
        return 'bad'
    c = w.zc.getCheckerForInstancesOf(w.fix.X)
    m = w.zc.moduleChecker(w.fix.m)
    for kind, name, want in t.uses:
        if kind == 'class':
            p = c.permission_id(name)
        elif kind == 'set':
            p = c.setattr_permission_id(name)
        else:
            p = m.permission_id(name)
        q = w.zc.CheckerPublic if want == 'public' else PERMS[want]
        if not (p is q or (type(q) is str and p == q)):
            rec.violation('%s\n%r\n%s requires %r, not %r' % (
                t.text, t.files, name, p, q),
                fingerprint='scopes: wrong permission')
            return 'bad'
    return 'ok'


# Definitions

DEF_ITEMS = ['def A', 'def B', 'use A', 'use B', 'use public', 'redef A B',
             'redef B A', 'muse A', 'redef public A', 'redef A public',
             'alone A']


def item_text(item, n):
    word, _, rest = item.partition(' ')
    if word == 'def':
        return '<permission id="%s" title="t"/>' % PERMS[rest]
    if word == 'use':
        return ('<class class="mcfix.X"><require permission="%s" '
                'attributes="n%d"/></class>' % (PERMS[rest], n))
    if word == 'muse':
        return ('<module module="mcfix.m"><require permission="%s" '
                'attributes="n%d"/></module>' % (PERMS[rest], n))
    if word == 'alone':
        # named, though nothing is declared with it
        return ('<class class="mcfix.X"><require permission="%s" '
                'like_class="mcfix.X"/></class>' % PERMS[rest])
    f, t = rest.split()
    return '<meta:redefinePermission from="%s" to="%s"/>' % (
        PERMS[f], PERMS[t])


def run_defs(w, items, places, pre, rec):
    """places: per item, 0 the main file, 1 an included file, 2 a group."""
    w.fresh()
    if pre:
        import zope.component
        for p in pre:
            zope.component.provideUtility(
                w.permission.Permission(PERMS[p], 't'), w.IPermission,
                PERMS[p])
    files, main, nfile = {}, [], 0
    defs = {}
    named = set()
    for place, run in itertools.groupby(enumerate(items),
                                        key=lambda x: places[x[0]]):
        run = list(run)
        text = ''.join(item_text(it, n) for n, it in run)
        path = ()
        if place == 1:
            nfile += 1
            name = '/mc/f%d.zcml' % nfile
            files[name] = zcml.HEAD + text + '</configure>'
            main.append('<include file="%s"/>' % name)
            path = (name,)
        elif place == 2:
            main.append('<configure>%s</configure>' % text)
        else:
            main.append(text)
        for n, it in run:
            word, *ps = it.split()
            if word == 'def':
                defs.setdefault(ps[0], []).append(path)
            else:
                named.update(ps)
    verdict = 'ok'
    if named - set(defs) - {'public'} - set(pre):
        verdict = 'undefined'
    for paths in defs.values():
        paths = sorted(paths)
        if any(p == paths[0] or p[:len(paths[0])] != paths[0]
               for p in paths[1:]):
            verdict = 'conflict'
    text = zcml.HEAD + ''.join(main) + '</configure>'
    rec.step(len(items))
    got, e = w.zcml.run(text, files)
    if got != verdict:
        rec.violation('%s\n%r\nis %s (%s), not %s' % (
            text, files, got, e, verdict),
            fingerprint='definitions: %s, not %s' % (got, verdict))
        return 'bad'
    return got


# Effects

EFFECTS = [
    ('perm', 'mc.A', 'Title A', None), ('perm', 'mc.A', 'Other', 'text'),
    ('perm', 'mc.B', 'Title B', 'described'),
    ('perm', 'zope.Public', 'Public', None),
    ('perm', 'http://example.org/p', 'By URI', ''),
    ('policy', 'p1'), ('policy', 'p2'),
]


def effect_text(e):
    if e[0] == 'policy':
        return '<securityPolicy component="mcfix.Policy%s"/>' % e[1][1]
    a = {'id': e[1], 'title': e[2]}
    if e[3] is not None:
        a['description'] = e[3]
    return '<permission%s/>' % zcml.attrs(a)


def run_effects(w, items, places, rec):
    w.fresh()
    files, main = {}, []
    by = {}
    for n, (it, place) in enumerate(zip(items, places)):
        it = tuple(it)
        text = effect_text(it)
        if place:
            name = '/mc/f%d.zcml' % (n + 1)
            files[name] = zcml.HEAD + text + '</configure>'
            text = '<include file="%s"/>' % name
        main.append(text)
        by.setdefault('policy' if it[0] == 'policy' else it[1], []).append(
            ((n,) if place else (), it))
    want = {}
    verdict = 'ok'
    for k, uses in by.items():
        uses.sort(key=lambda x: x[0])
        base = uses[0][0]
        if any(p == base or p[:len(base)] != base for p, _ in uses[1:]):
            verdict = 'conflict'
        want[k] = uses[0][1]
    before = w.management.getSecurityPolicy()
    text = zcml.HEAD + ''.join(main) + '</configure>'
    got, e = w.zcml.run(text, files)
    rec.step(len(items))
    if got != verdict:
        rec.violation('%s\n%r\nis %s (%s), not %s' % (
            text, files, got, e, verdict), fingerprint='effects: ' + got)
        return 'bad'
    import zope.component
    if got != 'ok':
        want = {}
    policy = want.pop('policy', None)
    expect = w.policies[policy[1]] if policy else before
    msg = None
    if w.management.getSecurityPolicy() is not expect:
        msg = 'the policy is %r' % (w.management.getSecurityPolicy(),)
    have = dict(zope.component.getUtilitiesFor(w.IPermission))
    if set(have) != set(want):
        msg = 'the permissions are %r' % (sorted(have),)
    else:
        for k, it in want.items():
            p = have[k]
            if (p.id, p.title, p.description or '') != (
                    it[1], it[2], it[3] or ''):
                msg = 'permission %s is %r' % (k, (p.id, p.title,
                                                   p.description))
            if type(p.id) is not str:
                msg = 'the id of %s is a %s' % (k, type(p.id))
            try:
                w.permission.checkPermission(None, k)
            except ValueError:
                msg = '%s is not defined' % k
    if policy and msg is None:
        w.management.newInteraction()
        try:
            if type(w.management.getInteraction()) is not expect:
                msg = 'an interaction is a %s' % type(
                    w.management.getInteraction())
        finally:
            w.management.endInteraction()
            checkers.cleanup()
    w.management.setSecurityPolicy(before)
    if msg:
        rec.violation('%s\n%r\n%s' % (text, files, msg),
                      fingerprint='effects: ' + msg[:30])
        return 'bad'
    return got


BAD = ['nodot', 'has space', '3 foo', 'mc..a', '', ' ', 'mc.', '.mc']


def bad_ids(w, rec):
    for bad in BAD:
        for text in (
                '<class class="mcfix.X"><require permission="%s" '
                'attributes="a"/></class>' % bad,
                '<permission id="%s" title="t"/>' % bad,
                '<module module="mcfix.m"><require permission="%s" '
                'attributes="a"/></module>' % bad,
                '<meta:redefinePermission from="%s" to="mc.A"/>' % bad,
                '<meta:redefinePermission from="mc.A" to="%s"/>' % bad,
                '<permission title="t"/>', '<permission id="mc.A"/>',
                '<securityPolicy/>', '<meta:redefinePermission from="mc.A"/>',
                '<securityPolicy component="mcfix.Nothing"/>'):
            rec.case(['bad', text])
            one_bad(w, text, rec)
            rec.trace('bad id', rec.current)


def one_bad(w, text, rec):
    w.fresh()
    got, e = w.zcml.run(zcml.HEAD + '<permission id="mc.A" title="t"/>' +
                        text + '</configure>')
    if got != 'refused':
        rec.violation('%s is %s' % (text, got), fingerprint='bad id')


def tree_list(tier):
    big = tier == 'thorough'
    for n in range(6 if big else 5):
        yield from scopes(n, REDEFS, BOXES, 3)
    yield from scopes(6 if big else 5, REDEFS[:3], ['group', 'include'], 4)
    yield from scopes(5, REDEFS[:2], ['include'], 4)


def deep_trees():
    """Redefinitions in a row, and scopes nested in each other, up to 12 and
    12 levels, with one redefinition in any of them."""
    for n in (4, 6, 8, 12):
        for a in REDEFS:
            for b in REDEFS:
                yield [['redef', *(a, b)[i % 2]] for i in range(n)]
        for boxes in (['group'], ['include'], ['include', 'group'],
                      ['overrides', 'include']):
            for levels in itertools.combinations_with_replacement(
                    (0, 1, n // 2, n - 1), 2):
                for which in ((0, 1), (1, 2), (2, 0)):
                    tree = []
                    for i in reversed(range(n)):
                        tree = [['redef', *REDEFS[which[k]]]
                                for k in (0, 1) if levels[k] == i] + [
                            [boxes[i % len(boxes)], tree]] + [
                            ['redef', *REDEFS[which[0]]]
                            for k in (0,) if levels[k] == i]
                    yield tree


def def_list(tier):
    most = 3
    for n in range(most + 1):
        for items in itertools.product(DEF_ITEMS, repeat=n):
            places = list(itertools.product((0, 1, 2), repeat=n)) if n < 3 \
                or tier == 'thorough' else [(0, 0, 0), (1, 0, 0), (0, 1, 0),
                                            (0, 0, 1), (1, 1, 0), (2, 0, 1)]
            for p in places:
                yield items, p, ''
            if n < 3:
                yield items, (0,) * n, 'A'
                yield items, (1,) * n, 'AB'


def effect_list(tier):
    for n in range(4):
        for items in itertools.product(EFFECTS, repeat=n):
            for places in itertools.product((0, 1), repeat=n):
                yield items, places


def bounds(tier):
    return dict(deep_trees=sum(1 for _ in deep_trees()), trees=sum(1 for _ in tree_list(tier)),
                nodes_per_tree=6 if tier == 'thorough' else 5,
                definitions=sum(1 for _ in def_list(tier)),
                effects=sum(1 for _ in effect_list(tier)))


def jobs(tier):
    big = tier == 'thorough'
    out = lib.shards(32 if big else 8, mode='c', part='trees')
    out += lib.shards(8 if big else 4, mode='c', part='defs')
    out += lib.shards(4 if big else 2, mode='c', part='effects')
    out += [dict(mode='c', part='bad')]
    for naming in range(len(NAMINGS)):
        out += [dict(mode='c', part='defs', naming=naming),
                dict(mode='pure', part='small trees', naming=naming)]
    out += [dict(mode='pure', part='effects')]
    out += lib.shards(16 if big else 2, mode='pure', part='small trees')
    return out


def name_permissions(job):
    if 'naming' in job:
        PERMS.update(NAMINGS[job['naming']])


def explore(job, rec):
    name_permissions(job)
    w = World()
    part, tier = job['part'], job['tier']
    try:
        if 'trees' in part:
            trees = itertools.chain(tree_list(tier), deep_trees())
            if part == 'small trees':
                trees = itertools.chain(*[scopes(n, REDEFS, BOXES, 3)
                                          for n in range(3)])
            for tree in lib.shard(trees, job):
                rec.case(['tree', tree])
                r = run_tree(w, tree, rec)
                rec.state(tree)
                rec.trace('tree: %s' % r, rec.current)
        elif part == 'defs':
            for items, places, pre in lib.shard(def_list(tier), job):
                if 'naming' in job and len(items) > 2:
                    break
                rec.case(['defs', items, places, pre])
                r = run_defs(w, items, places, pre, rec)
                rec.state((items, places, pre))
                rec.trace('defs: %s' % r, rec.current)
        elif part == 'effects':
            for items, places in lib.shard(effect_list(tier), job):
                rec.case(['effects', items, places])
                r = run_effects(w, items, places, rec)
                rec.state((items, places))
                rec.trace('effects: %s' % r, rec.current)
        else:
            bad_ids(w, rec)
    finally:
        w.zcml.clean()
        checkers.cleanup()


def replay(case, rec, job):
    name_permissions(job)
    w = World()
    if case[0] == 'tree':
        run_tree(w, case[1], rec)
    elif case[0] == 'defs':
        run_defs(w, case[1], case[2], case[3], rec)
    elif case[0] == 'effects':
        run_effects(w, case[1], case[2], rec)
    elif case[0] == 'bad':
        one_bad(w, case[1], rec)
