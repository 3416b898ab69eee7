"""Run by check S02 under CPython: do the results of map_with_dependencies depend on
the hashes of the items?  All acyclic graphs of up to 4 items, all orders of their hashes."""
import itertools
import json
import sys

from .. import util


class Item(str):
    table = {}

    def __hash__(self):
        return self.table[str(self)]

    __eq__ = str.__eq__


def dags(n):
    names = ['n%d' % i for i in range(n)]
    edges = [(a, b) for a in names for b in names if a != b]
    for r in range(len(edges) + 1):
        for es in itertools.combinations(edges, r):
            g = {a: [b for x, b in es if x == a] for a in names}
            left = set(names)
            while True:
                free = {a for a in left if not set(g[a]) & left}
                if not free:
                    break
                left -= free
            if not left:
                yield g


class Quiet:
    def log_from_thread(self):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def main(top):
    util.setup_path()
    import fbuild.sched
    s = fbuild.sched.Scheduler(1, logger=Quiet())
    count = 0
    for n in range(2, top + 1):
        for g in dags(n):
            # of the many orders of four hashes, the rotations and reversals
            perms = list(itertools.permutations(range(n)))
            if n > 3:
                perms = perms[::5]
            for srcs in (list(g), list(g)[::-1]):
                want = None
                for perm in perms:
                    Item.table = {name: p for name, p in zip(g, perm)}
                    out = s.map_with_dependencies(lambda x: [Item(d) for d in g[str(x)]], lambda x: str(x), [Item(x) for x in srcs])
                    count += 1
                    if want is None:
                        want = out
                    elif out != want:
                        print(json.dumps({'wrong': 'for %r in the order %r the results are %r or %r, depending on the hashes of the items' % (
                            g, srcs, want, out), 'count': count}))
                        return
    s.shutdown()
    print(json.dumps({'wrong': None, 'count': count}))


main(int(sys.argv[1]))
