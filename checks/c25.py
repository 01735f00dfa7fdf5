"""C25 the robot library: every listed robot has a consistent description, the same whatever was asked before."""
import contextlib
import io
import itertools
import os
import mc


def listed(name='no such robot'):
    """the names robot_params says it knows, when it refuses one it does not know"""
    from ikbtfunctions.ik_robots import robot_params
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b):
            robot_params(name)
    except SystemExit:
        pass
    else:
        return None
    lines = [x.strip() for x in b.getvalue().splitlines()]
    i = max([k for k, x in enumerate(lines) if x.endswith(':')], default=-1)
    out = []
    for x in lines[i + 1:]:
        if x and x not in out:
            out.append(x)
    return out


def wrong_names(names):
    """names close to those of the library that are not in it"""
    out = ['', ' ', 'None', '*', 'Robot']
    for n in names:
        out += [n.lower(), n.upper(), n.swapcase(), n[:-1], n[1:], n + '1', n + ' ', ' ' + n, 'test: ' + n, n.replace('-', '').replace('_', ''), n + '.p']
    return sorted(set(out) - set(names))


# robots the documentation and the library name; losing one is a loss for its users
NAMES = ['ArmRobo', 'Arm_3', 'Axtman13', 'Bartell', 'Brad', 'Chair_Helper', 'Craig417', 'DZhang', 'Frei13', 'ICP5p5_A21', 'Issue4',
         'JennyGuoSp24', 'KR16', 'KawasakiRS007L', 'KawasakiRS05L', 'Khat6DOF', 'Mackler13', 'Minder13', 'MiniDD', 'Olson13', 'Palm13',
         'Parkman13', 'Puma', 'Pumaoffset', 'Raven-II', 'Sims11', 'Srisuan11', 'Stanford', 'UR5', 'Wachtveitl', 'Wrist']


def describe(name):
    """the description as plain text, and what is wrong with it"""
    from ikbtfunctions.ik_robots import robot_params
    dh, vv, params, pvals, unk = robot_params(name)
    us = [u.symbol for u in unk]
    bad = []
    if dh.shape != (6, 4):
        bad.append('DH table is %s' % (dh.shape,))
    rows = []
    for i in range(dh.rows):
        js = [s for s in us if dh[i, :].has(s)]
        if len(js) > 1:
            bad.append('row %d has joints %s' % (i, js))
        for s in js:
            th = dh[i, 3].has(s)
            if dh[i, :2].has(s) or dh[i, 2].has(s) == th or (s.name[:3] in ('th_', 'd_') and s.name.startswith('th') != th):
                bad.append('%s is in the wrong column' % s)
            if i >= len(vv) or vv[i] != (1 if th else 0):
                bad.append('joint type of %s is %s' % (s, vv[i] if i < len(vv) else 'missing'))
            rows.append(s)
    if len(vv) < dh.rows:
        bad.append('%d joint types for %d rows' % (len(vv), dh.rows))
    if rows != us:
        bad.append('unknowns %s, joints in the DH table %s' % (us, rows))
    if [u.n for u in unk] != list(range(1, len(us) + 1)):
        bad.append('positions of the unknowns: %s' % [u.n for u in unk])
    if any(u.solved or u.solutions or u.nsolutions for u in unk):
        bad.append('an unknown is solved before the start')
    free = dh.free_symbols - set(us)
    if free - set(params):
        bad.append('not declared as parameters: %s' % (free - set(params)))
    if set(params) & set(us):
        bad.append('parameter and unknown: %s' % (set(params) & set(us)))
    if pvals and free - set(pvals):
        bad.append('no value for %s' % (free - set(pvals)))
    if any(not float(v) == float(v) for v in pvals.values()):
        bad.append('values %s' % pvals)
    text = repr((dh, list(vv), params, sorted(pvals.items(), key=str), us, [u.n for u in unk]))
    return text, bad, [id(u) for u in unk], unk


def damage(unk, pvals=None):
    """what a solver run does to the unknowns it was given"""
    for u in unk:
        u.solved, u.n = True, 77
        u.solutions.append(u.symbol)
        u.nsolutions += 1


def child(fn, *a):
    """fn(*a) in a fresh fork of a process that has not asked the library anything yet"""
    import json
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            res = mc.guarded(fn, *a, seconds=60)
            with os.fdopen(wr, 'w') as f:
                json.dump(res, f, default=str)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    return json.loads(t) if t else ('exc', 'the process died')


def alone(name):
    text, bad, ids, unk = describe(name)
    return text, bad


def history(names):
    """texts of the descriptions asked for one after another, a solver having used each in between"""
    out = []
    keep = []
    for n in names:
        text, bad, ids, unk = describe(n)
        out.append(text)
        if any(i in k for k, _ in keep for i in ids):
            out[-1] += ' (unknowns shared with an earlier run)'
        damage(unk)
        keep.append((ids, unk))
    return out


def work_wrong(n):
    return child(listed, n)


def work(c):
    return child(alone, c) if isinstance(c, str) else child(history, list(c))


def run(ctx):
    import ikbtfunctions.ik_robots  # noqa: imported, not asked
    names = child(listed)
    if names[0] == 'exc' or not names[1]:
        ctx.violation('list', 'asking for an unknown robot: %s' % (names[1] or 'no list of robots'))
        return
    names = names[1]
    for n in NAMES:
        if n not in names:
            ctx.violation('list %s' % n, '%s is not listed any more' % n)
    names = sorted(set(names) | set(NAMES))
    known = names
    for n, r in mc.pmap(work_wrong, wrong_names(names), chunk=8):
        ctx.count('states')
        ctx.count('wrong_names')
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        if r[0] == 'exc' or sorted(r[1] or ()) != known:
            ctx.violation('wrong name %r' % n, 'the unknown robot %r is not refused with the list of robots: %s' % (n, r[1]))
    texts = {}
    for n, r in mc.pmap(work, names, chunk=1):
        ctx.count('states')
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        if r[0] == 'exc':
            ctx.violation('robot %s' % n, r[1])
            continue
        texts[n] = r[1][0]
        if r[1][1]:
            ctx.violation('robot %s' % n, '; '.join(r[1][1]))
    ok = sorted(texts)
    hs = [list(p) for p in itertools.product(ok, repeat=2)]
    hs += [[a, b, a] for a, b in itertools.product(ok, repeat=2)] if ctx.quick else [list(p) for p in itertools.product(ok, repeat=3)]
    for h, r in mc.pmap(work, hs, chunk=20):
        ctx.count('states')
        ctx.count('transitions', len(h))
        ctx.count('traces_validated_against_impl')
        if r[0] == 'exc':
            ctx.violation('history %s' % h, r[1])
        elif list(r[1]) != [texts[n] for n in h]:
            k = [a == texts[n] for a, n in zip(r[1], h)].index(False)
            ctx.violation('history %s' % h, '%s is described as %s, alone as %s' % (h[k], r[1][k][:300], texts[h[k]][:300]))
    ctx.cov['exhaustive'] = True
    ctx.sample('robots: %s' % ', '.join(ok))
