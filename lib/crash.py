"""Kill a process at any chosen change it makes to a directory, however the program makes it.

Python reports every opening, renaming, removing .. of a file to audit hooks before it happens; the steps that change files
below a root are counted, and at step number `at` (before it takes effect; the end of the job counts as a last step) the
process dies without any clean-up of Python's own, so what was buffered is lost as in a real crash.  With `frac`, it dies on
the way from the step before to this one: of what was written in between only that fraction has arrived."""
import os
import sys

CHANGES = {'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink'}
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
DEAD = 77


class Disk:
    def __init__(self, at=None, frac=None, root=None):
        self.root = os.path.realpath(root or os.getcwd())
        self.at, self.frac = at, frac
        self.log = []           # (step, file name, was anything being written since the step before)
        self.open = {}          # inode -> size, of the files that may be incomplete since the last step
        self.fresh = None       # path the last step opened
        self.busy = self.off = False
        sys.addaudithook(self.hook)

    def below(self, p):
        try:
            p = os.path.abspath(os.fsdecode(p))
        except TypeError:
            return None
        return p if p.startswith(self.root + os.sep) or os.path.realpath(os.path.dirname(p)).startswith(self.root) else None

    def hook(self, event, args):
        if self.busy or self.off or (event != 'open' and event not in CHANGES):
            return
        if event == 'open' and (not isinstance(args[2], int) or not args[2] & WRITE):
            return
        self.busy = True
        try:
            p = self.below(args[0])
            if p is not None:
                self.step(event, p, args[2] if event == 'open' else 0)
        finally:
            self.busy = False

    def inodes(self):
        r = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                st = os.stat(os.path.join(d, f))
                r[st.st_ino] = (os.path.join(d, f), st.st_size)
        return r

    def partial(self):
        """path -> (size at the last step, size now), of files written to since"""
        now = self.inodes()
        r = {now[i][0]: (s, now[i][1]) for i, s in self.open.items() if i in now}
        if self.fresh and os.path.isfile(self.fresh[0]):
            r[self.fresh[0]] = (self.fresh[1], os.path.getsize(self.fresh[0]))
        return {p: v for p, v in r.items() if v[1] > v[0]}

    def step(self, what, path, flags):
        part = self.partial()
        if len(self.log) == self.at:
            if self.frac is not None:
                for p, (a, b) in part.items():
                    os.truncate(p, a + int((b - a) * self.frac))
            os._exit(DEAD)
        self.log.append((what, os.path.basename(path), sum(b - a for a, b in part.values())))
        now = self.inodes()
        by = {i for i, _ in held()}
        self.open = {i: now[i][1] for i in by if i in now}
        self.fresh = None
        if what == 'open':
            self.fresh = (path, os.path.getsize(path) if os.path.isfile(path) and not flags & os.O_TRUNC else 0)

    def end(self):
        """the job is done: the last moment to die"""
        self.busy = True
        self.step('end', '', 0)
        self.off = True


def held():
    for f in os.listdir('/proc/self/fd'):
        try:
            st = os.stat('/proc/self/fd/' + f)
            yield st.st_ino, st.st_size
        except OSError:
            pass


def points(log, fracs):
    """all crash points of a run with this log"""
    r = []
    for i, (_, _, size) in enumerate(log):
        r.append((i, None))
        r += [(i, f) for f in fracs if size]
    return r
