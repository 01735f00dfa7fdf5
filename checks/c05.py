"""C05 save and load: a loaded tree behaves like the one that was dumped."""
import itertools
import json
import bt
import mc

LEAVES = ('Succeeder', 'Failer', 'Runner', 'Error')


def build(t, b3, shared=None):
    """('@', t) is one node wherever it stands in the tree"""
    k = t[0]
    if k == '@':
        if t[1] not in shared:
            shared[t[1]] = build(t[1], b3, shared)
        return shared[t[1]]
    if k in LEAVES:
        return getattr(b3, k)()
    if k in CUSTOM:
        return custom(b3, k)()
    if k == 'Inverter':
        return b3.Inverter(build(t[1], b3, shared))
    return getattr(b3, k)([build(c, b3, shared) for c in t[1:]])


_c = {}


CUSTOM = ('Custom', 'Sonar_2')


def custom(b3, name='Custom'):
    if name not in _c:
        _c[name] = type(name, (b3.Action,), {'tick': lambda self, tick: b3.SUCCESS})
    return _c[name]


def shape(n):
    d = [n.name, n.title, n.description, dict(n.properties), n.id]
    if getattr(n, 'children', None) is not None and hasattr(n, 'children'):
        d.append([shape(c) for c in n.children])
    elif hasattr(n, 'child'):
        d.append([shape(n.child)])
    return d


def ref(t):
    """what one tick of the tree answers and which leaves it runs, memory nodes freshly opened"""
    k = t[0]
    if k == '@':
        return ref(t[1])
    if k in LEAVES:
        return [k], {'Succeeder': 1, 'Failer': 2, 'Runner': 3, 'Error': 4}[k]
    if k in CUSTOM:
        return [k], 1
    if k == 'Inverter':
        l, s = ref(t[1])
        return l, {1: 2, 2: 1}.get(s, s)
    run, some = [], False
    for c in t[1:]:
        l, s = ref(c)
        run += l
        some |= s == 1
        if k == 'OrNode':
            continue
        if s != (1 if 'Sequence' in k else 2):
            return run, s
    return run, {'OrNode': 1 if some else 2}.get(k, 1 if 'Sequence' in k else 2)


def sh(t):
    return t[0] if len(t) == 1 else '%s(%s)' % (t[0], ','.join(sh(c) for c in t[1:]))


def work(t):
    for plain in (False, True):
        r = saved(t, plain)
        if r:
            return ('with nothing set: ' if plain else '') + r
    return None


def saved(t, plain):
    import b3
    try:
        a = b3.BehaviorTree()
        if not plain:
            a.title, a.description, a.properties = 'T', 'desc', {'p': 1}
        a.root = build(t, b3, {})
        # give every node a description / properties of its own
        stack, i = [a.root], 0
        while stack and not plain:
            n = stack.pop()
            i += 1
            n.title, n.description, n.properties = 'title%d' % i, 'd%d' % i, {'i': i}
            stack += list(getattr(n, 'children', []) or [])
            if hasattr(n, 'child'):
                stack.append(n.child)
        before = shape(a.root)
        data = a.dump()
        if shape(a.root) != before:
            return 'dumping changed the tree'
        data = json.loads(json.dumps(data))
        b = b3.BehaviorTree()
        used = [c for c in CUSTOM if "'%s'" % c in repr(t)]
        names = {c: custom(b3, c) for c in used}
        if plain and not names:
            b.load(data)
        else:
            b.load(data, names)
        if shape(b.root) != before:
            return 'loaded tree differs: %s, dumped %s' % (shape(b.root), before)
        if (b.title, b.description, b.properties) != (a.title, a.description, a.properties):
            return 'tree title/description/properties lost'
        if b.dump()['nodes'] != a.dump()['nodes'] or b.dump()['root'] != a.dump()['root']:
            return 'dump of the loaded tree differs from the first dump'
        cust = [c['name'] for c in data['custom_nodes']]
        if sorted(cust) != sorted(used):
            return 'custom nodes listed as %s' % cust
        if plain:       # a second tree from the same data is a tree of its own
            c = b3.BehaviorTree()
            c.load(data, names)
            if shape(c.root) != before:
                return 'loaded again, the tree differs'
            kids = getattr(b.root, 'children', None)
            if kids:
                was = list(kids)
                b.root.children.append(b3.Failer())
                b.root.properties['mark'] = 1
                if shape(c.root)[5:] != before[5:]:
                    return 'two trees loaded from the same data share their nodes'
                b.root.children[:] = was
        for tr in (a, b):
            order = []
            stack = [tr.root]
            while stack:
                n = stack.pop()
                if not hasattr(n, 'children') and not hasattr(n, 'child'):
                    n.enter = (lambda nm: (lambda tick: order.append(nm)))(n.name)
                stack += list(getattr(n, 'children', []) or [])
                if hasattr(n, 'child'):
                    stack.append(n.child)
            st = tr.tick(None, b3.Blackboard())
            want = ref(t)
            if (order, st) != want:
                return '%s tree runs %s and answers %s, must be %s' % (
                    'loaded' if tr is b else 'dumped', order, st, want)
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return None


def trees(quick):
    lv = [(k,) for k in LEAVES] + [('Custom',)]
    for l in lv:
        yield l
        yield ('Inverter', l)
        yield ('Inverter', ('Inverter', l))
    for k in bt.COMPOSITES:
        for n in (0, 1, 2, 3):
            for c in itertools.product(lv, repeat=n):
                yield (k,) + c
                if n == 2:
                    yield ('Inverter', (k,) + c)
    # two kinds of custom nodes
    for k in bt.COMPOSITES:
        for c in itertools.product([('Custom',), ('Sonar_2',), ('Failer',)], repeat=3):
            yield (k,) + c
            yield (k, ('Inverter', c[0]), ('Inverter', c[1]), c[2])
    # wide nodes and deep trees
    for k in bt.COMPOSITES:
        for n in (5, 9, 12):
            for a, b in itertools.permutations(lv, 2):
                for i in range(n):
                    yield (k,) + (a,) * i + (b,) + (a,) * (n - 1 - i)
    for depth in (4, 7, 10):
        for k, k2 in itertools.product(bt.COMPOSITES + ('Inverter',), repeat=2):
            for a, b in itertools.permutations(lv, 2):
                t = a
                for d in range(depth):
                    kk = (k, k2)[d % 2]
                    t = (kk, t) if kk == 'Inverter' else (kk, b, t) if d % 3 else (kk, t, b)
                yield t
    # nodes that are at several places of the tree at once
    for a, b in itertools.product([('Succeeder',), ('Failer',), ('Custom',), ('Sequence', ('Succeeder',), ('Failer',)), ('Inverter', ('Failer',))], repeat=2):
        A, B = ('@', a), ('@', b)
        for k in bt.COMPOSITES:
            for k2 in bt.COMPOSITES:
                yield (k, A, (k2, B, A), B)
                yield (k, (k2, A, B), (k2, A, B))
            yield (k, A, A)
            yield (k, A, B, A)
            yield (k, A, ('Inverter', A))
            yield (k, ('@', (k, A, B)), ('Inverter', ('@', (k, A, B))))
    l3 = [('Succeeder',), ('Failer',), ('Runner',)]
    subs = l3 + [(k, a, b) for k in bt.COMPOSITES for a in l3 for b in l3] + [('Inverter', a) for a in l3]
    for k in bt.COMPOSITES:
        for c in itertools.product(subs, repeat=2):
            yield (k,) + c
        if not quick:
            sm = l3 + [('Sequence', l3[0], l3[1]), ('Priority', l3[1], l3[0]), ('Inverter', l3[0])]
            for c in itertools.product(sm, repeat=3):
                yield (k,) + c
            for k2 in bt.COMPOSITES:
                for c in itertools.product(sm, repeat=2):
                    yield (k, ('Failer',), (k2,) + c, ('Succeeder',))


def run(ctx):
    seen = set()
    for t, bad in mc.pmap(work, list(trees(ctx.quick)), chunk=50):
        seen.add(t)
        ctx.count('transitions', 2)
        ctx.count('traces_validated_against_impl', 2)
        if bad:
            ctx.violation(sh(t), bad)
        elif len(t) == 3 and len(ctx.samples) < 5:
            ctx.sample(sh(t))
    ctx.cov['states'] = len(seen)
    ctx.cov['exhaustive'] = True
    ctx.assumptions += ['nodes without constructor parameters (composites, inverter, constant actions, a custom action); '
                        'loops, limits and timers are not part of the saved format']
