"""A reference model of a parameter tree: real object + what we believe about it.

Node kinds
  L  a list of scalars, each of which can be frozen        (real: ParamList-like)
  S  one scalar with no freeze state of its own            (real: ScalarParam-like)
  M  a group of named/unnamed children, each freezable     (real: MultiParams-like)
  Z  something with no parameters
"""
import numpy as np
from .core import require, close, Violation


class Node(object):
    names = None

    def walk(self):
        yield self


class Z(Node):
    def __init__(self, real):
        self.real = real

    def entries(self, thawed=True):
        return []


class S(Node):
    def __init__(self, real, name, val):
        self.real = real
        self.e = dict(name=name, val=val, step=None, lower=None, upper=None, maxstep=None)
        read_attrs(real, [self.e])

    def entries(self, thawed=True):
        return [self.e]


class L(Node):
    def __init__(self, real, names, vals, aliases={}):
        self.real = real
        self.names = names
        self.aliases = aliases
        self.es = [dict(name=n if n is not None else 'param%i' % i, val=v, step=None,
                        lower=None, upper=None, maxstep=None)
                   for i, (n, v) in enumerate(zip(names, vals))]
        self.liquid = [True] * len(self.es)
        read_attrs(real, self.es)

    def entries(self, thawed=True):
        return [e for e, l in zip(self.es, self.liquid) if l or not thawed]

    def hits(self, names):
        return [i for i, nm in enumerate(self.names)
                if (nm is not None and nm in names) or
                any(a in names for a, j in self.aliases.items() if j == i)]

    def n(self):
        return len(self.es)


class M(Node):
    def __init__(self, real, names, kids, prefix=None):
        self.real = real
        self.names = names
        self.kids = kids
        self.prefix = prefix or 'param'
        self.liquid = [True] * len(kids)

    def kidname(self, i):
        if self.names is not None:
            return self.names[i]
        return '%s%i' % (self.prefix, i)

    def entries(self, thawed=True):
        out = []
        for i, (k, l) in enumerate(zip(self.kids, self.liquid)):
            if not (l or not thawed):
                continue
            for e in k.entries(thawed):
                out.append(Named(self.kidname(i), e))
        return out

    def n(self):
        return len(self.kids)

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x


class Named(object):
    """An entry seen through one more level of naming."""

    def __init__(self, prefix, e):
        self.e = e.e if isinstance(e, Named) else e
        self.name = '%s.%s' % (prefix, e['name'])

    def __getitem__(self, k):
        if k == 'name':
            return self.name
        return self.e[k]

    def __setitem__(self, k, v):
        self.e[k] = v


def read_attrs(real, es):
    """Initial step sizes and limits, as the freshly built leaf reports them."""
    n = len(es)
    for key, m in (('step', 'getStepSizes'), ('lower', 'getLowerBounds'),
                   ('upper', 'getUpperBounds'), ('maxstep', 'getMaxStep')):
        v = list(getattr(real, m)())
        require(len(v) == n, lambda: 'fresh %s: %s() has %d entries for %d parameters' %
                (type(real).__name__, m, len(v), n), sig='len-%s' % m)
        for e, x in zip(es, v):
            e[key] = x


# ------------------------------------------------------------ tree operations

def freeze_rec(node, names):
    if isinstance(node, L):
        for i in node.hits(names):
            node.liquid[i] = False
        if '*' in names:
            node.liquid = [False] * node.n()
    elif isinstance(node, M):
        for i, k in enumerate(node.kids):
            freeze_rec(k, names)
            if node.names is not None and node.names[i] in names:
                node.liquid[i] = False
        if '*' in names:
            node.liquid = [False] * node.n()


def thaw_rec(node, names):
    if isinstance(node, L):
        for i in node.hits(names):
            node.liquid[i] = True
        if '*' in names:
            node.liquid = [True] * node.n()
    elif isinstance(node, M):
        for i, k in enumerate(node.kids):
            thaw_rec(k, names)
            if node.names is not None and node.names[i] in names:
                node.liquid[i] = True
        if '*' in names:
            node.liquid = [True] * node.n()


def thaw_paths(node, names):
    hit = False
    if isinstance(node, L):
        for i in node.hits(names):
            node.liquid[i] = True
            hit = True
    elif isinstance(node, M):
        for i, k in enumerate(node.kids):
            if thaw_paths(k, names):
                node.liquid[i] = True
                hit = True
            if node.names is not None and node.names[i] in names:
                node.liquid[i] = True
                hit = True
    return hit


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b), 1e-300) or a == b


def check_list(got, want, what):
    got = list(got)
    require(len(got) == len(want), lambda: '%s: %d entries, expected %d (%s vs %s)' %
            (what, len(got), len(want), got, want))
    for i, (g, w) in enumerate(zip(got, want)):
        require(same(g, w), lambda: '%s[%d]: got %r, expected %r' % (what, i, g, w))


def check_node(node, states=True):
    r = node.real
    if r is None:
        # a component that is missing (an image without a PSF, say)
        return
    nm = type(r).__name__
    es = node.entries(True)
    alle = node.entries(False)
    require(r.numberOfParams() == len(es), lambda: '%s.numberOfParams() is %d, expected %d' %
            (nm, r.numberOfParams(), len(es)))
    check_list(r.getParams(), [e['val'] for e in es], nm + '.getParams()')
    check_list(r.getAllParams(), [e['val'] for e in alle], nm + '.getAllParams()')
    check_list(r.getStepSizes(), [e['step'] for e in es], nm + '.getStepSizes()')
    check_list(r.getLowerBounds(), [e['lower'] for e in es], nm + '.getLowerBounds()')
    check_list(r.getUpperBounds(), [e['upper'] for e in es], nm + '.getUpperBounds()')
    check_list(r.getMaxStep(), [e['maxstep'] for e in es], nm + '.getMaxStep()')
    ass = list(r.getAllStepSizes())
    require(len(ass) == len(alle), lambda: '%s.getAllStepSizes() has %d entries, expected %d' % (nm, len(ass), len(alle)))
    if not isinstance(node, M) and 'Ellipse' not in nm:
        # (ellipses choose the sign of theirs)
        check_list(ass, [e['step'] for e in alle], nm + '.getAllStepSizes()')
    names = list(r.getParamNames())
    require(names == [e['name'] for e in es], lambda: '%s.getParamNames() is %s, expected %s' %
            (nm, names, [e['name'] for e in es]))
    if isinstance(node, (L, M)):
        li = list(r.getThawedParamIndices())
        fi = list(r.getFrozenParamIndices())
        require(li == [i for i, l in enumerate(node.liquid) if l] and
                fi == [i for i, l in enumerate(node.liquid) if not l],
                lambda: '%s: thawed indices %s, frozen %s; expected freeze state %s' % (nm, li, fi, node.liquid))
        if node.names is not None:
            for i, n in enumerate(node.names):
                if n is None:
                    continue
                require(r.isParamFrozen(n) == (not node.liquid[i]) and r.isParamThawed(n) == bool(node.liquid[i]),
                        lambda: '%s: isParamFrozen/Thawed(%r) wrong' % (nm, n))
                want = sum(node.liquid[:i]) if node.liquid[i] else -1
                require(r.getLiquidIndex(n) == want, lambda: '%s.getLiquidIndex(%r) is %r, expected %r' %
                        (nm, n, r.getLiquidIndex(n), want))
            require(list(r.getThawedParams()) == [n for n, l in zip(node.names, node.liquid) if l],
                    lambda: '%s.getThawedParams() %s' % (nm, r.getThawedParams()))
            require(list(r.getFrozenParams()) == [n for n, l in zip(node.names, node.liquid) if not l],
                    lambda: '%s.getFrozenParams() %s' % (nm, r.getFrozenParams()))
    if isinstance(node, L):
        # the list protocol runs over thawed parameters
        require(len(r) == len(es), lambda: '%s: len() is %d, expected %d' % (nm, len(r), len(es)))
        check_list([r[i] for i in range(len(es))], [e['val'] for e in es], nm + '[i]')
        check_list(list(r), [e['val'] for e in es], 'iterating over ' + nm)
        for n, e in zip(node.names, node.es):
            if n is not None and n.isidentifier():
                require(same(getattr(r, n), e['val']), lambda: '%s.%s is %r, expected %r' %
                        (nm, n, getattr(r, n), e['val']))
    if isinstance(node, M):
        for i, k in enumerate(node.kids):
            require(r[i] is k.real, lambda: '%s[%d] is not the child that was put there' % (nm, i))
            if node.names is not None:
                require(getattr(r, node.names[i]) is k.real, lambda: '%s.%s is not the child that was put there' %
                        (nm, node.names[i]))
        require(len(r) == len(node.kids) and [id(x) for x in r] == [id(k.real) for k in node.kids],
                lambda: '%s: wrong children' % nm)
        if states:
            # the recursive freeze report agrees with the names of thawed parameters
            st = r.getParamStateRecursive()
            leafnames = set(e['name'] for e in alle)
            eff = [n for n, own, e in st if e and n in leafnames]
            require(eff == names, lambda: '%s.getParamStateRecursive(): effective thawed %s, getParamNames() %s' %
                    (nm, eff, names))
        if hasattr(r, 'getThawedSources'):
            require([id(x) for x in r.getThawedSources()] == [id(k.real) for k, l in zip(node.kids, node.liquid) if l],
                    'getThawedSources() wrong')
            require([id(x) for x in r.getFrozenSources()] == [id(k.real) for k, l in zip(node.kids, node.liquid) if not l],
                    'getFrozenSources() wrong')
