# -*- coding: utf-8 -*-
"""validate() over generated trees with scripted validators (C06)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from tree import Gen
from flatland import Skip, SkipAll, SkipAllFalse, Unevaluated
from flatland.schema.containers import Container
from flatland.schema.base import NotEmpty
from flatland.signals import validator_validated
from flatland.validation import Validator


class Oops(Exception):
    pass


class World(object):
    """What the scripted validators do, and what they were asked."""
    def __init__(self):
        self.table = {}        # id(element) -> {'d': [...], 'v': [...]}
        self.ids = {}          # id(element) -> node id
        self.keep = []
        self.state = None
        self.log = []
        self.state_ok = True
        self.late = {}         # id(element) -> node id of what a grow appends
        self.noise = None      # who notes messages while validating


W = World()
VALUES = {'T': True, '1': 1, 'U': Unevaluated, 'Skip': Skip, 'SkipAll': SkipAll,
          'SkipAllFalse': SkipAllFalse, 'F': False, '0': 0, 'None': None,
          'fill': True, 'grow': True}


def code(x):
    for name in ('U', 'Skip', 'SkipAll', 'SkipAllFalse'):
        if x is VALUES[name]:
            return name
    if x is True:
        return 'T'
    if x is False:
        return 'F'
    if x is None:
        return 'None'
    return '%d' % x


def act(which, i, el, state):
    W.log.append(u'call %d %s %d' % (W.ids.get(id(el), -1), which, i))
    if state is not W.state:
        W.state_ok = False
    r = W.table[id(el)][which][i]
    if W.noise is not None and W.noise.random() < 0.3:
        # messages have no part in what is visited, called or answered
        other = W.noise.choice([el, el, el.parent, el.root] + list(el.children) + [x for _, x in W.live])
        if isinstance(other, Slot):
            other = other.parent
        if other is not None:
            W.noise.choice([other.add_error, other.add_error, other.add_warning])(W.noise.choice([u'no', u'one', u'two']))
    if r == 'raise':
        raise Oops('x')
    if r == 'fill':
        for c in list(el.children):
            if not isinstance(c, (list, dict)) and W.ids.get(id(c)) in W.scalars:
                c.value, c.u = 'x', u'x'
    if r == 'grow' and id(el) in W.late:
        late = W.late.pop(id(el))
        el.append(u'1')
        c = list(el.children)[-1]
        adopt(c, late)
    return VALUES[r]


def adopt(c, n):
    """An element made while validating becomes node n."""
    W.ids[id(c)] = n
    W.keep.append(c)
    W.live.append((n, c))
    c.validators = FNS['v'][:len(W.latent[n]['v'])]
    c.validates_down, c.validates_up = 'validators', None
    W.table[id(c)] = W.latent[n]


class Scripted(Validator):
    which, i = '', 0

    def validate(self, element, state):
        return act(self.which, self.i, element, state)


class Callable(object):
    def __init__(self, which, i):
        self.which, self.i = which, i

    def __call__(self, element, state):
        return act(self.which, self.i, element, state)


def make(which, i):
    if i % 3 == 0:
        return lambda element, state: act(which, i, element, state)
    if i % 3 == 1:
        return Scripted(which=which, i=i)
    return Callable(which, i)


FNS = {'v': [make('v', i) for i in range(5)], 'd': [make('d', i) for i in range(5)]}
WHICH = {None: '', 'validators': 'v', 'descent_validators': 'd'}
WHO = dict((id(f), (which, i)) for which in FNS for i, f in enumerate(FNS[which]))


def receiver(sender, element=None, state=None, result=None):
    if state is not W.state:
        W.state_ok = False
    if sender is NotEmpty:
        which, i = u'NotEmpty', 0
    else:
        which, i = WHO.get(id(sender), (u'?', -1))
    W.log.append(u'sig %d %s %d %s' % (W.ids.get(id(element), -1), which, i, code(result)))


def kind(el):
    if isinstance(el, Container):
        if isinstance(el, DateYYYYMMDD):
            return 'parts'
        if isinstance(el, SparseDict):
            return 'sparse'
        return 'map' if isinstance(el, dict) else 'seq'
    return 'scalar'


def results(r, n, container, may_grow):
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.55:
            out.append(r.choice(['T', 'T', 'T', '1', 'U'] + (['fill', 'fill'] if container else []) + (['grow', 'grow'] if may_grow else [])))
        elif x < 0.57:
            out.append('raise')
        else:
            out.append(r.choice(['Skip', 'SkipAll', 'SkipAllFalse', 'F', '0', 'None']))
    return out


def directions(r, container):
    if container:
        return r.choice([(None, None), (None, 'validators'), ('descent_validators', None), ('validators', None),
                         ('validators', 'descent_validators'), ('descent_validators', 'descent_validators')])
    return r.choice([(None, None), (None, 'validators'), ('validators', 'validators')])


class Classy(Factory):
    """Some validators given to the classes."""
    def __init__(self, r):
        Factory.__init__(self)
        self.r = r
        self.turn = r.random() < 0.3

    def build(self, s):
        cls = Factory.build(self, s)
        r = self.r
        if r.random() < 0.5:
            vs = FNS['v'][:r.randrange(4)]
            k = r.randrange(3)
            if k == 0:
                cls = cls.validated_by(*vs)
            elif k == 1:
                cls = cls.using(validators=vs)
            else:
                n = r.randrange(len(vs) + 1)
                cls = cls.validated_by(*vs[:n]).including_validators(*vs[n:])
        if s['k'] in SEQS | MAPS and r.random() < 0.5:
            ds = FNS['d'][:r.randrange(4)]
            if r.random() < 0.5:
                cls = cls.descent_validated_by(*ds)
            else:
                n = r.randrange(len(ds) + 1)
                cls = cls.descent_validated_by(*ds[n:]).including_descent_validators(*ds[:n], **{'position': 0})
        if self.turn and r.random() < 0.3:
            dn, up = directions(r, s['k'] in SEQS | MAPS)
            cls = cls.using(validates_down=dn, validates_up=up)
        self.by_class[cls] = s
        return cls


def describe(root, r, rs=None):
    """Nodes of the tree, scripted results drawn for each."""
    order, ids = walk(root)
    W.ids = dict((k, v + 1) for k, v in ids.items())
    W.keep = list(order)
    W.live = [(i + 1, el) for i, el in enumerate(order)]
    W.table, W.late, W.latent, W.scalars = {}, {}, {}, set()
    nodes, extra = [], []
    for i, el in enumerate(order):
        k = kind(el)
        n = {'k': k, 'kids': [W.ids[id(c)] for c in el.children], 'emp': bool(el.is_empty),
             'opt': bool(el.optional), 'd': [], 'v': [], 'late': 0,
             'dn': WHICH[el.validates_down], 'up': WHICH[el.validates_up]}
        if k == 'scalar':
            W.scalars.add(i + 1)
            # only elements whose value can be written directly
        may_grow = rs is None and k == 'seq' and not isinstance(el, (JoinedString,)) and issubclass(
            el.member_schema, (String, Integer)) and not issubclass(el.member_schema, Container)
        if rs is None:
            if k != 'scalar':
                n['d'] = results(r, len(list(el.descent_validators or ())), True, may_grow)
            n['v'] = results(r, len(list(el.validators or ())), k != 'scalar', may_grow)
        else:
            n['d'], n['v'] = rs[i]['d'], rs[i]['v']
        if may_grow and 'grow' in n['d'] + n['v']:
            n['late'] = len(order) + len(extra) + 1
            late = {'k': 'scalar', 'kids': [], 'emp': False, 'opt': bool(el.member_schema.optional), 'd': [],
                    'v': results(r, r.randrange(3), False, False), 'late': 0, 'dn': 'v', 'up': ''}
            W.late[id(el)] = n['late']
            W.latent[n['late']] = late
            extra.append(late)
            W.scalars.add(n['late'])
        nodes.append(n)
        W.table[id(el)] = n
    return order, nodes + extra


def flags():
    out = []
    for n, el in W.live:
        v = el.valid
        out.append('U' if v is Unevaluated else 'T' if v is True else 'F' if v is False else u'? %r' % (v,))
    return [n for n, el in W.live], out, [bool(el.all_valid) for n, el in W.live]


def record(w, op, **kw):
    live, fl, al = flags()
    w.done()
    w.rec(dict({'h': w.h, 'op': op, 'live': live, 'flag': fl, 'all': al}, **kw))


def run_validate(w, order, nodes, at, deep, sig, style):
    W.log, W.state_ok = [], True
    W.state = {'none': None, 'obj': object(), 'dict': {}}[style]
    el = order[at - 1]
    if sig:
        validator_validated.connect(receiver)
    w.doing(('validate', at, deep))
    try:
        if style == 'none':
            res = el.validate() if deep else el.validate(recurse=False)
        else:
            res = el.validate(W.state) if deep else el.validate(state=W.state, recurse=False)
        res = u'True' if res is True else u'False' if res is False else u'? %r' % (res,)
    except Exception as e:
        res = exc_name(e)
    finally:
        if sig:
            validator_validated.disconnect(receiver)
    record(w, 'validate', nodes=nodes, at=at, deep=deep, sig=sig, res=res, evs=W.log, state=W.state_ok)


def attach(order, r, lens=None):
    """Lists given to single elements."""
    for i, el in enumerate(order):
        if r is not None and r.random() < 0.4:
            continue
        nv = len(lens[i]['v']) if lens else r.choice([0, 1, 1, 2, 3])
        nd = len(lens[i]['d']) if lens else r.choice([0, 0, 1, 1, 2, 3])
        el.validators = FNS['v'][:nv]
        if isinstance(el, Container):
            el.descent_validators = FNS['d'][:nd]


def history(w, r):
    w.h += 1
    g = Gen(r)
    s = g.container(r.choice([1, 2, 2, 3]), u'r') if r.random() < 0.93 else g.scalar(u's')
    fac = Classy(r)
    root = fac.build(s)()
    try:
        if r.random() < 0.85:
            root.set(g.value(s, ok=True))
        if r.random() < 0.15:
            root.set_default()
    except Exception:
        pass
    order, _ = walk(root)
    if len(order) > 40:
        return
    for el in order:
        if r.random() < 0.3:
            el.optional = True
    # the same element twice in the tree
    for el in order:
        if isinstance(el, List) and len(el) and r.random() < 0.1:
            el.append(el[0])
            break
    order, _ = walk(root)
    attach(order, r)
    if fac.turn:
        for el in order:
            if r.random() < 0.2:
                el.validates_down, el.validates_up = directions(r, isinstance(el, Container))
    order, nodes = describe(root, r)
    W.noise = random.Random(r.random()) if r.random() < 0.5 else None
    for el in order:
        if W.noise and r.random() < 0.2:
            el.add_error(u'early')
    record(w, 'fresh', nodes=nodes)
    for _ in range(r.randrange(1, 4)):
        at = 1 if r.random() < 0.6 else r.randrange(len(order)) + 1
        grown = 'grow' in [x for n in nodes for x in n['d'] + n['v']]
        if r.random() < 0.15 and not grown:
            to = r.choice([True, False, Unevaluated])
            order[at - 1].all_valid = to
            record(w, 'set_all_valid', nodes=nodes, at=at, to='U' if to is Unevaluated else 'T' if to else 'F')
            continue
        run_validate(w, order, nodes, at, r.random() < 0.85, r.random() < 0.8, r.choice(['none', 'obj', 'dict']))
        if grown:
            break                 # the tree is another one now
        # other results next time
        for i, n in enumerate(nodes):
            may = [x for x in ('d', 'v')]
            for which in may:
                n[which] = results(r, len(n[which]), n['k'] != 'scalar', False)
            n['emp'] = bool(order[i].is_empty)
            W.table[id(order[i])] = n


KIND = {'map': lambda kids: Dict.of(*kids), 'sparse': lambda kids: SparseDict.of(*kids)}


def replay_one(w, b):
    """b.nodes: the tree with scripted results, as the model checked it"""
    w.h += 1
    nodes = b['nodes']

    def cls(i):
        n = nodes[i - 1]
        name = u'n%d' % i
        if n['k'] == 'scalar':
            return String.named(name)
        if n['k'] == 'seq':
            return List.named(name).of(cls(n['kids'][0]) if n['kids'] else String)
        return KIND[n['k']]([cls(j) for j in n['kids']]).named(name)

    def val(i):
        n = nodes[i - 1]
        if n['k'] == 'scalar':
            return None if n['emp'] else u'x'
        if n['k'] == 'seq':
            return [val(j) for j in n['kids']]
        return dict((u'n%d' % j, val(j)) for j in n['kids'])
    root = cls(1)()
    root.set(val(1))
    # the model numbers breadth first or otherwise; match by position
    order, _ = walk(root)
    ids = {}

    def match(el, i):
        ids[i] = el
        for c, j in zip(el.children, nodes[i - 1]['kids']):
            match(c, j)
    match(root, 1)
    W.ids = dict((id(el), i) for i, el in ids.items())
    W.keep = order
    W.live = [(i, ids[i]) for i in sorted(ids)]
    W.table = dict((id(el), nodes[i - 1]) for i, el in ids.items())
    W.late, W.latent, W.noise = {}, {}, None
    W.scalars = set(i for i in ids if nodes[i - 1]['k'] == 'scalar')
    for i, el in ids.items():
        n = nodes[i - 1]
        el.optional = n['opt']
        el.validators = FNS['v'][:len(n['v'])]
        if n['k'] != 'scalar':
            el.descent_validators = FNS['d'][:len(n['d'])]
    record(w, 'fresh', nodes=nodes)
    run_validate(w, [ids[i] for i in sorted(ids)], nodes, 1, b['deep'], True, 'obj')


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for line in open(prof[1:]):
            guarded(w, replay_one, w, json.loads(line))
    else:
        rng = random.Random(seed * 7919 + shard * 104729)
        while w.n < budget:
            guarded(w, history, w, rng)
    w.close()
