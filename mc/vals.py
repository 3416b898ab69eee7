"""Classes of the values that generated scripts pass around."""
import collections

N = collections.namedtuple('N', 'x y')


class P:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, P) and o.x == self.x

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return 'P(%r)' % (self.x,)
