# -*- coding: utf-8 -*-
"""slice, update_object, set_by_object and from_object (C11)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from flatland import Form

KEYFNS = {'none': None, 'str': str, 'pre': lambda k: 'p_' + k, 'one': lambda k: {'a': 'z', 'b': 'z'}.get(k, k),
          'up': lambda k: k.upper()}


class Obj(object):
    shared = u'class'

    def __init__(self):
        self.__dict__['_log'] = None

    def __setattr__(self, n, v):
        if self._log is not None:
            self._log.append(n)
        object.__setattr__(self, n, v)

    @property
    def prop(self):
        return u'prop'


class Slots(object):
    __slots__ = ('a', 'b', 'q', 'z', 'x', '_log')

    def __init__(self):
        object.__setattr__(self, '_log', None)

    def __setattr__(self, n, v):
        if self._log is not None:
            self._log.append(n)
        object.__setattr__(self, n, v)


NAMES = ('a', 'b', 'c', 'd', 'q', 'r', 'x', 'y', 'z', 'w', 'shared', 'prop', 'p_a', 'p_b', 'p_c', 'A', 'B', 'C', 'n', 'nope', 'p_d', 'p_x', 'D', 'X')


def attrs(o):
    out = []
    for n in NAMES:
        try:
            out.append([txt(n), canon(getattr(o, n))])
        except AttributeError:
            pass
    return out


def pairs(m):
    return [[txt(k), canon(v)] for k, v in m.items()]


class World(object):
    def __init__(self, w, cls, policy, sparse):
        self.w, self.cls, self.policy, self.sparse = w, cls, policy, sparse
        w.h += 1
        self.el = cls()
        self.obj = None
        self.fields = [txt(f.name) for f in cls.field_schema]

    def emit(self, op, res, out=(), assigned=()):
        self.w.done()
        self.w.rec({'h': self.w.h, 'op': op, 'res': res, 'out': list(out), 'assigned': list(assigned),
                    'el': [[txt(k), canon(self.el[k].value)] for k in self.el.keys()], 'obj': attrs(self.obj),
                    'fields': self.fields, 'blank': pairs(self.cls().value),
                    'policy': self.policy})

    def run(self, o, inc, om, ren, keyfn, form, again=None):
        """form: how the selection is handed over"""
        sel = {'inc': [txt(n) for n in inc], 'om': [txt(n) for n in om],
               'ren': [[txt(a), txt(b)] for a, b in ren], 'key': []}
        fn = KEYFNS[keyfn]
        if o in ('slice', 'update_object'):
            sel['key'] = [[f, txt(fn(f) if fn else f)] for f in self.fields]
        op = {'o': o, 'sel': sel, 'form': form, 'keyfn': keyfn}
        shape = {'list': list, 'tuple': tuple, 'set': set, 'gen': lambda l: iter(list(l))}[form[0]]
        kw = {}
        if inc or form[2]:
            kw['include'] = shape(inc) if inc else []
        if om or form[2]:
            kw['omit'] = shape(om) if om else ()
        if ren or form[2]:
            kw['rename'] = {'dict': dict, 'list': list, 'gen': lambda l: iter(list(l))}[form[1]](ren) if ren else None
        if keyfn != 'str' and o in ('slice', 'update_object'):
            kw['key'] = fn
        elif o == 'slice':
            kw['key'] = fn
        self.w.doing(op)
        out, assigned = [], []
        if self.obj is not None and hasattr(self.obj, '_log'):
            object.__setattr__(self.obj, '_log', [])
        try:
            if o == 'slice':
                out = pairs(self.el.slice(**kw))
            elif o == 'update_object':
                self.el.update_object(self.obj, **kw)
            elif o == 'set_by_object':
                self.el.set_by_object(self.obj, **kw)
            else:
                if again is not None:
                    kw['value'] = again
                self.el = self.cls.from_object(self.obj, **kw)
            res = u'ok'
        except Exception as e:
            res = exc_name(e)
        if self.obj is not None and hasattr(self.obj, '_log'):
            assigned = sorted(set(txt(n) for n in self.obj._log))
            object.__setattr__(self.obj, '_log', None)
        self.emit(op, res, out, assigned)
        return res


def make(r):
    sparse = r.random() < 0.3
    policy = r.choice([u'subset', u'subset', u'duck', u'strict'])
    fields = [String.named(u'a'), Integer.named(u'b'), String.named(u'c'), Dict.named(u'd').of(String.named(u'n'), String.named(u'm')),
              List.named(u'x').of(Integer)]
    fields = r.sample(fields, r.randrange(1, 6))
    if sparse:
        cls = SparseDict.of(*fields).using(policy=policy)
        if r.random() < 0.4:
            cls = cls.using(minimum_fields='required')
    elif r.random() < 0.4:
        cls = type(Form)('F', (Form,), {'field_schema': fields}).using(policy=policy)
    else:
        cls = Dict.of(*fields).using(policy=policy)
    return cls, policy, sparse


VALS = {u'a': [u'one', u'', None, u'two'], u'b': [1, 2, None, 0], u'c': [u'see', None], u'x': [[1, 2], [], [3]],
        u'd': [{u'n': u'1', u'm': u'2'}, {u'n': None, u'm': u'5'}]}


def value_for(r, fs):
    return dict((f, r.choice(VALS[f])) for f in fs)


def attrset(r, o, cls):
    """attributes hold what the field they may go to adapts as it is"""
    for f in ('a', 'b', 'c', 'd', 'x'):
        if r.random() < 0.6:
            object.__setattr__(o, f, r.choice(VALS[txt(f)]))
    for f in ('q', 'r', 'z', 'w'):
        if r.random() < 0.4:
            object.__setattr__(o, f, r.choice([u'quu', u'zed', None]))


def history(w, r):
    cls, policy, sparse = make(r)
    wd = World(w, cls, policy, sparse)
    fs = list(wd.fields)
    for n in range(r.randrange(2, 8)):
        # a fresh state
        wd.obj = r.choice([Obj, Obj, Obj, Obj, Slots])()
        if isinstance(wd.obj, Obj):
            attrset(r, wd.obj, cls)
        else:
            for a in ('a', 'q', 'z'):
                if r.random() < 0.6:
                    object.__setattr__(wd.obj, a, u'slot')
        if r.random() < 0.8:
            keys = fs if policy == u'strict' else r.sample(fs, r.randrange(len(fs) + 1))
            wd.el.set(value_for(r, keys))
        wd.emit({'o': 'assign'}, u'ok')
        o = r.choice(['slice', 'update_object', 'set_by_object', 'set_by_object', 'from_object'])
        keyfn = r.choice(['none', 'none', 'pre', 'one', 'up']) if o == 'slice' else r.choice(['str', 'str', 'none', 'pre', 'up', 'one'])
        if isinstance(wd.obj, Slots) and o == 'update_object':
            o = 'slice'
        pool = fs + [u'q', u'z', u'p_a', u'A', u'nope']
        inc = r.sample(pool, r.randrange(1, 4)) if r.random() < 0.35 else []
        om = r.sample(pool, r.randrange(1, 4)) if r.random() < (0.1 if inc else 0.5) else []
        ren = []
        if r.random() < 0.6:
            if o in ('slice', 'update_object'):
                srcs = fs + [u'p_a', u'A', u'z', u'q']
                for s in r.sample(srcs, r.randrange(1, 4)):
                    ren.append((s, r.choice([u'w', u'y', u'r', u'a', u'b'])))
                if r.random() < 0.2:
                    ren.append((ren[0][0], u'y'))
            else:
                text = [f for f in (u'a', u'c') if f in fs]
                for s in r.sample([u'q', u'r', u'z', u'shared', u'prop', u'nope', u'a', u'c'], r.randrange(1, 4)):
                    ren.append((s, r.choice(text + [u'nope', u'y'])))
        if not isinstance(wd.obj, Slots):
            if r.random() < 0.06 and o in ('set_by_object', 'from_object'):
                wd.obj = None
                wd.emit({'o': 'assign'}, u'ok')
        elif o in ('set_by_object', 'from_object') and u'b' in fs:
            ren = [(s, t) for s, t in ren if t != u'b']
        form = [r.choice(['list', 'tuple', 'set', 'gen']), r.choice(['dict', 'list', 'gen']), r.random() < 0.2]
        if len(set(a for a, b in ren)) < len(ren):
            form[1] = 'list'
        again = value_for(r, fs) if o == 'from_object' and r.random() < 0.4 else None
        res = wd.run(o, inc, om, ren, keyfn, form, again)
        if res != u'ok' and o in ('set_by_object', 'from_object'):
            return


def replay_one(w, b):
    cls = Dict.of(*[String.named(n) for n in (u'a', u'b', u'c')])
    if len(b['el']) < 3:
        cls = SparseDict.of(*[String.named(n) for n in (u'a', u'b', u'c')])
    wd = World(w, cls, u'subset', False)
    wd.obj = Obj()
    for k, v in b['obj']:
        object.__setattr__(wd.obj, str(k), v)
    wd.el.set(dict(b['el']))
    wd.emit({'o': 'assign'}, u'ok')
    keyfn = b['keyfn']
    wd.run(b['how'], b['inc'], b['om'], [tuple(p) for p in b['ren']], keyfn, ['list', 'list', False])


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for line in open(prof[1:]):
            guarded(w, replay_one, w, json.loads(line))
    else:
        rng = random.Random(seed * 7919 + shard * 104729)
        while w.n < budget:
            guarded(w, history, w, rng)
    w.close()
