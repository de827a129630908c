"""Random trees, edits and queries (inputs only)."""

NAMES = ['a', 'b', 'c']
TEXTS = ['x', 'y', 'z']


class Forest:
    """Keeps track of parents so that generated edits are legal tree edits."""

    def __init__(self, elems):
        self.n = len(elems)
        self.node = [None] + [e['n'] == 1 for e in elems]
        self.parent = [0] * (self.n + 1)
        self.group = list(range(self.n + 1))   # sibling group of parentless elements
        self.size = {i: 1 for i in range(self.n + 1)}
        self.next_group = self.n + 1

    def anc(self, a, x):
        while x:
            x = self.parent[x]
            if x == a:
                return True
        return False

    def alone(self, x):
        return self.parent[x] == 0 and self.size[self.group[x]] == 1

    def take(self, x):
        if self.parent[x] == 0:
            self.size[self.group[x]] -= 1
        self.parent[x] = 0
        self.group[x] = self.next_group
        self.size[self.next_group] = 1
        self.next_group += 1

    def put(self, x, y):
        self.take(x)
        if self.parent[y]:
            self.parent[x] = self.parent[y]
        else:
            self.group[x] = self.group[y]
            self.size[self.group[y]] += 1

    def edit(self, op):
        o, a = op['o'], op['a']
        if o in ('append', 'prepend'):
            if a[0] == 0 or a[1] == 0 or a[0] == a[1]:
                return True
            if self.anc(a[1], a[0]):
                return False
            self.put(a[1], a[0])
        elif o == 'replace':
            if a[0] == 0:
                return True
            if a[1] == 0:
                self.take(a[0])
                return True
            if a[0] == a[1]:
                return True
            if self.anc(a[1], a[0]):
                return False
            self.put(a[1], a[0])
            self.take(a[0])
        elif o == 'child':
            if a[0] == 0 or a[1] == 0:
                return a[0] == 0 or self.node[a[0]]
            if not self.node[a[0]] or a[0] == a[1] or self.anc(a[1], a[0]):
                return False
            self.take(a[1])
            self.parent[a[1]] = a[0]
        elif o == 'add':
            if not a[0] or not self.node[a[0]]:
                return False
            if a[1] == 0:
                return True
            if not self.alone(a[1]) or a[1] == a[0] or self.anc(a[1], a[0]) or a[1] == a[2]:
                return False
            if a[2] and self.parent[a[2]] != a[0]:
                return True
            self.take(a[1])
            self.parent[a[1]] = a[0]
        elif o == 'remove':
            if not a[0] or not self.node[a[0]]:
                return False
            if a[1] and self.parent[a[1]] == a[0]:
                self.take(a[1])
        elif o == 'detach':
            if a[0]:
                self.take(a[0])
        return True


def elems(rng, n, p_node=0.5):
    res = []
    for i in range(n):
        res.append({'n': 1 if i == 0 or rng.random() < p_node else 0, 't': rng.choice(NAMES), 'x': rng.choice(TEXTS)})
    return res


def rnd_edit(rng, f, nil=0.04, ops=('append', 'prepend', 'child', 'child', 'add', 'remove', 'detach', 'replace', 'replace')):
    while True:
        o = rng.choice(ops)

        def x():
            return 0 if rng.random() < nil else rng.randint(1, f.n)
        k = {'append': 2, 'prepend': 2, 'child': 2, 'add': 3, 'remove': 2, 'detach': 1, 'replace': 2}[o]
        a = [x() for _ in range(k)]
        if o == 'add' and rng.random() < 0.4:
            a[2] = 0
        if o == 'remove' and a[1] and rng.random() < 0.7:
            a[0] = f.parent[a[1]]
        if o == 'add' and a[2] and rng.random() < 0.7:
            a[0] = f.parent[a[2]]
        op = {'o': o, 'a': a}
        if f.edit(op):
            return op


def build(rng, f, parentless=0.1, deep=0.5):
    """Ops making (mostly) one tree of all elements."""
    ops = []
    for i in range(2, f.n + 1):
        if rng.random() < parentless:
            op = {'o': 'append', 'a': [rng.randint(1, i - 1), i]}
        else:
            nodes = [j for j in range(1, i) if f.node[j]]
            p = rng.choice(nodes[-3 if deep == 0.5 else -1:] if rng.random() < deep else nodes)
            op = {'o': 'child', 'a': [p, i]}
            if rng.random() < 0.3:
                ks = [j for j in range(1, i) if f.parent[j] == p]
                if ks:
                    op = {'o': rng.choice(['append', 'prepend']), 'a': [rng.choice(ks), i]}
        if f.edit(op):
            ops.append(op)
    return ops


def flt(rng, d=0):
    x = rng.random()
    if d > 2 or x < 0.45:
        return {'k': 'isa', 'n': rng.sample(NAMES, rng.randint(0, 2)), 'f': []}
    if x < 0.65:
        return {'k': 'lit', 'n': rng.sample(TEXTS, rng.randint(0, 2)), 'f': []}
    if x < 0.8:
        return {'k': 'not', 'n': [], 'f': [flt(rng, d + 1)]}
    return {'k': rng.choice(['any', 'all']), 'n': [], 'f': [flt(rng, d + 1) for _ in range(rng.randint(0, 3))]}


def extr(rng, d=0):
    x = rng.random()
    if d > 2 or x < 0.6:
        return {'k': rng.choice(['anc', 'prev', 'next', 'kids']), 'e': [], 'i': []}
    if x < 0.8:
        return {'k': rng.choice(['any', 'all']), 'e': [extr(rng, d + 1) for _ in range(rng.randint(0, 3))], 'i': []}
    return {'k': 'nth', 'e': [extr(rng, d + 1)], 'i': [rng.randint(-1, 3) for _ in range(rng.randint(0, 3))]}


NOF = {'k': '', 'n': [], 'f': []}
NOE = {'k': '', 'e': [], 'i': []}


def trans(rng):
    x = rng.random()
    if x < 0.3:
        return {'k': 'filter', 'f': flt(rng), 'e': NOE}
    if x < 0.6:
        return {'k': 'extract', 'f': NOF, 'e': extr(rng)}
    return {'k': rng.choice(['search', 'deep']), 'f': flt(rng), 'e': NOE}


def query(rng, f):
    x = rng.random()
    e = rng.randint(1, f.n)
    if x < 0.25:
        return {'o': 'nav', 'a': [e]}
    if x < 0.7:
        k = rng.random()
        if k < 0.2:
            fl = [0] * (f.n + 2)
        elif k < 0.4:
            fl = [rng.choice([0, 0, 2]) for _ in range(f.n + 2)]
        elif k < 0.6:
            fl = [rng.choice([0, 0, 4]) for _ in range(f.n + 2)]
        elif k < 0.7:
            fl = [rng.choice([0, 2, 4, 6, 0, 0, 0, 1]) for _ in range(f.n + 2)]
        else:
            fl = [rng.choice([0, 0, 0, 2, 4, 6]) for _ in range(f.n + 2)]
        if rng.random() < 0.5:
            e = 1
        return {'o': rng.choice(['step', 'step', 'walk', 'next']), 'a': [e, rng.randint(0, 1)], 'f': fl}
    ins = [rng.randint(0, f.n) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        ins = [1]
    return {'o': 'select', 'a': ins, 's': [trans(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))], 'u': rng.randint(0, 1)}
