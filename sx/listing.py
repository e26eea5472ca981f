"""stand-in for the order in which a file system lists the names of a directory"""
import os


class Listing:
    """a directory's entries in a chosen order, for os.scandir"""

    def __init__(self, entries):
        self.entries = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)


class Order:
    """a file system that lists the names of every directory in some order"""

    def __init__(self, ctx, tag):
        self.ctx, self.tag, self.picked = ctx, tag, {}

    def sort(self, d, entries, key):
        entries = sorted(entries, key=key)
        names = tuple(key(e) for e in entries)
        left, out = list(range(len(entries))), []
        if (d, names) not in self.picked:
            while left:
                out.append(left.pop(self.ctx.pick("%s %s %d" % (self.tag, d, len(out)), len(left))))
            self.picked[(d, names)] = out
        return [entries[i] for i in self.picked[(d, names)]]

    def __enter__(self):
        self.scandir, self.listdir = os.scandir, os.listdir
        scandir, listdir = os.scandir, os.listdir

        def sd(d="."):
            with scandir(d) as it:
                return Listing(self.sort(str(d), list(it), lambda e: e.name))

        def ld(d="."):
            return self.sort(str(d), listdir(d), str)
        os.scandir, os.listdir = sd, ld
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = self.scandir, self.listdir
        return False
