"""Nodes and execution contexts as scenarios describe them (JSON) and as the
implementation sees them (Python objects)."""


class Obj:
    """A node with identity equality and a chosen hash, so that a scenario
    fixes the iteration order of the sets it is a member of."""

    def __init__(self, name, h, env=None):
        self.name = name
        self.h = h
        self.env = env
        self.value = 0

    def __hash__(self):
        return self.h

    def __repr__(self):
        return f'<{self.name}>'

    def is_finished(self, execution_id=None):
        return self.env.finished(self, execution_id)


class Eq:
    """A node with value equality: two instances of the same name are equal
    without being identical."""

    def __init__(self, name, h, env=None):
        self.name = name
        self.h = h
        self.env = env

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, Eq) and other.name == self.name

    def __repr__(self):
        return f'Eq({self.name})'

    def is_finished(self, execution_id=None):
        return self.env.finished(self, execution_id)


class Comp:
    """An execution context given by an object that carries its own default
    execution id."""

    def __init__(self, eid):
        self.default_execution_id = eid


def make_node(d, env=None):
    t, v = d
    if t == 'str':
        return v
    if t == 'int':
        return v
    if t == 'tuple':
        return tuple(v)
    if t == 'fset':
        return frozenset(v)
    if t == 'bytes':
        return v.encode()
    if t == 'obj':
        return Obj(v[0], v[1], env)
    if t == 'eq':
        return Eq(v[0], v[1], env)
    raise ValueError(d)


def other(d, n, env=None):
    """an equal object that is not the same one, where there is such a thing"""
    if d[0] in ('eq', 'tuple', 'fset'):
        return make_node(d, env)
    if d[0] == 'int':
        return int(str(n))
    return n


def make_ctx(d):
    t, v = d
    if t == 'none':
        return None
    if t in ('str', 'int'):
        return v
    if t == 'bool':
        return bool(v)
    if t == 'tuple':
        return tuple(v)
    if t == 'fset':
        return frozenset(v)
    if t == 'obj':
        return Obj(v[0], v[1])
    raise ValueError(d)


FALSY = [('int', 0), ('str', ''), ('tuple', []), ('fset', [])]


def gen_nodes(rng, n, kind=None):
    """n distinct node descriptions"""
    if kind is None:
        kind = rng.choice(['obj', 'obj', 'str', 'int', 'tuple', 'eq', 'mixed', 'mixed'])
    out = []
    hs = list(range(16))
    rng.shuffle(hs)
    names = list('abcdefghijklmnop')
    rng.shuffle(names)
    for k in range(n):
        kk = kind if kind != 'mixed' else rng.choice(['obj', 'str', 'int', 'tuple', 'eq', 'fset'])
        if kk == 'obj':
            out.append(['obj', [names[k], hs[k]]])
        elif kk == 'eq':
            out.append(['eq', [names[k], hs[k]]])
        elif kk == 'str':
            out.append(['str', names[k]])
        elif kk == 'int':
            out.append(['int', k if kind == 'int' else 1000 + k])
        elif kk == 'tuple':
            out.append(['tuple', [names[k], k]])
        elif kk == 'fset':
            out.append(['fset', [names[k]]])
        elif kk == 'bytes':
            out.append(['bytes', names[k]])
    if kind == 'mixed' and rng.random() < 0.4 and n:
        out[rng.randrange(n)] = list(rng.choice(FALSY))
    return out
