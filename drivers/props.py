# -*- coding: utf-8 -*-
"""Histories of operations on the properties of classes and instances (C08)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from flatland.schema.properties import Properties

KEYS = [u'a', u'b', u'c', u'd', u'e']


def res_text(x):
    return txt(x) if x is not None else u'None'


def pairs(items):
    return [[txt(k), txt(v)] for k, v in items]


def view(p):
    """Every way of reading one mapping."""
    out = []

    def add(n, fn):
        try:
            out.append({'n': n, 'p': pairs(fn()), 'exc': u''})
        except Exception as e:
            out.append({'n': n, 'p': [], 'exc': exc_name(e)})

    def getitem():
        for k in KEYS:
            try:
                yield k, p[k]
            except KeyError:
                pass
    miss = object()
    add('items', lambda: p.items())
    add('iteritems', lambda: list(p.iteritems()))
    add('keys', lambda: [(k, p[k]) for k in p.keys()])
    add('iterkeys', lambda: [(k, p[k]) for k in p.iterkeys()])
    add('values', lambda: zip(p.keys(), p.values()))
    add('itervalues', lambda: zip(p.keys(), p.itervalues()))
    add('value count', lambda: [(k, p[k]) for k, v in zip(p.keys(), p.values() + [0])] if len(p.values()) == len(p.keys()) else [])
    add('getitem', lambda: list(getitem()))
    add('get', lambda: [(k, p.get(k)) for k in KEYS if p.get(k, miss) is not miss])
    add('contains', lambda: [(k, p[k]) for k in KEYS if k in p])
    add('copy', lambda: p.copy().items())
    add('dict()', lambda: dict(p).items())
    add('repr', lambda: eval(repr(p)).items())
    d = dict(p.items())
    other = dict(d)
    other['zz'] = 1
    return {'v': out, 'tr': bool(p),
            'eq': [bool(p == d and not p != d and d == p), bool(p == other or not p != other or p == d.items() or p == None or p == 0)]}


class Session(object):
    def __init__(self, w):
        self.w = w
        w.h += 1
        self.classes, self.objs = [], []
        self.new = True
        self.elements = True

    def play(self, op):
        self.w.doing(op)
        try:
            res = res_text(self.perform(op))
        except Exception as e:
            res = exc_name(e)
        rec = {'h': self.w.h, 'new': self.new, 'op': op, 'res': res,
               'cls': [view(c.properties) for c in self.classes],
               'objs': [view(o.properties) for o in self.objs]}
        self.new = False
        self.w.done()
        self.w.rec(rec)
        return res

    def mro(self, c):
        ids = dict((id(x), i + 1) for i, x in enumerate(self.classes))
        return [ids[id(x)] for x in c.__mro__ if id(x) in ids]

    def bases(self, op):
        return tuple(self.classes[b - 1] for b in op['bases'])

    def perform(self, op):
        o = op['o']
        if o == 'class':
            ps = dict((k, v) for k, v in op['ps'])
            how = op['how']
            if how == 'plain':          # a class statement
                ns = {}
                if op['own']:
                    ns['properties'] = Properties(ps)
                c = type('C', self.bases(op) or (object,), ns)
            elif how == 'prepared':     # the same, with pairs / keywords
                c = type('C', self.bases(op) or (object,),
                         {'properties': Properties(list(ps.items())[:1], **dict((str(k), v) for k, v in list(ps.items())[1:]))})
            elif how == 'element':
                c = String.using(properties=ps)
            elif how == 'using':
                c = self.bases(op)[0].using(properties=ps)
            elif how == 'using_obj':
                c = self.bases(op)[0].using(properties=Properties(ps))
            elif how == 'with':
                if len(ps) > 1:
                    kw = dict([(str(k), v) for k, v in list(ps.items())[1:]])
                    c = self.bases(op)[0].with_properties(dict(list(ps.items())[:1]), **kw)
                else:
                    c = self.bases(op)[0].with_properties(list(ps.items()))
            elif how == 'named':
                c = self.bases(op)[0].named(u'x')
            ps[u'later'] = ps[KEYS[0]] = u'not copied'    # the mapping handed in is the caller's
            self.classes.append(c)
            op['mro'] = self.mro(c)
            return None
        if o == 'inst':
            c = self.classes[op['i'] - 1]
            if op['det']:
                i = c(properties=dict(map(tuple, op['ps'])))
            else:
                i = c()
                for k, v in op['ps']:
                    i.properties[k] = v
            self.objs.append(i)
            return None
        if o == 'assign':
            self.objs[op['i'] - 1].properties = dict(map(tuple, op['ps']))
            return None
        t = (self.classes if op['t'] == 'class' else self.objs)[op['i'] - 1].properties
        k, v = op['k'], op['v']
        if o == 'set':
            t[k] = v
        elif o == 'del':
            del t[k]
        elif o == 'pop':
            return t.pop(k)
        elif o == 'pop2':
            return t.pop(k, v)
        elif o == 'setdefault':
            return t.setdefault(k, v)
        elif o == 'clear':
            return t.clear()
        elif o == 'popitem':
            return t.popitem()
        elif o == 'get':
            return t.get(k)
        elif o == 'get2':
            return t.get(k, v)
        elif o == 'item':
            return t[k]
        elif o == 'update':
            ps = [tuple(p) for p in op['ps']]
            how = op.get('how')
            if how == 'kw':
                return t.update(**dict((str(a), b) for a, b in ps))
            mine = dict(ps) if how == 'dict' else ps
            try:
                return t.update(mine)
            finally:
                if how == 'dict':
                    mine[u'later'] = u'not copied'
        else:
            raise AssertionError(o)


def klass(how, bases, own, ps=()):
    return {'o': 'class', 'how': how, 'bases': bases, 'own': own, 'ps': [list(p) for p in ps], 'mro': []}


def history(w, r):
    s = Session(w)
    n = [0]

    def val():
        n[0] += 1
        return r.choice([u'v%d' % n[0], u'v%d' % n[0], u'', u'0'])

    def some_pairs():
        return [[k, val()] for k in r.sample(KEYS, r.randrange(0, 4))]
    elements = s.elements = r.random() < 0.5
    if elements:
        s.play(klass('element', [], True, some_pairs()))
    else:
        s.play(klass(r.choice(['plain', 'prepared']), [], True, some_pairs()))

    def derive():
        k = len(s.classes)
        single = [r.randrange(k) + 1]
        if elements:
            how = r.choice(['using', 'using_obj', 'with', 'with', 'named', 'plain', 'plain'])
        else:
            how = r.choice(['plain', 'plain', 'plain', 'prepared'])
        own = how in ('using', 'using_obj', 'prepared') or (how == 'plain' and r.random() < 0.2)
        bases = single
        if how in ('plain', 'prepared') and k > 1 and r.random() < 0.5:
            bases = [b + 1 for b in r.sample(range(k), min(k, r.choice([2, 2, 3])))]
            try:
                type('X', tuple(s.classes[b - 1] for b in bases), {})
            except TypeError:
                bases = single
        ps = some_pairs() if own or how == 'with' else []
        s.play(klass(how, bases, own, ps))
    for _ in range(r.randrange(1, 5)):
        derive()
    for _ in range(r.randrange(1, 4)):
        s.play(inst_op(s, r, elements, some_pairs))
    for _ in range(r.randrange(6, 22)):
        x = r.random()
        if x < 0.04 and len(s.classes) < 8:
            derive()
            continue
        if x < 0.08 and len(s.objs) < 6:
            s.play(inst_op(s, r, elements, some_pairs))
            continue
        if x < 0.10:
            s.play({'o': 'assign', 'i': r.randrange(len(s.objs)) + 1, 'ps': some_pairs()})
            continue
        t = r.choice(['class', 'class', 'inst'])
        i = r.randrange(len(s.classes if t == 'class' else s.objs)) + 1
        o = r.choice(['set', 'set', 'set', 'del', 'del', 'pop', 'pop2', 'setdefault', 'setdefault',
                      'update', 'update', 'clear', 'get', 'get2', 'item', 'popitem'])
        if o == 'popitem' and (r.random() < 0.6 or t == 'inst'):
            o = 'set'
        s.play({'o': o, 't': t, 'i': i, 'k': r.choice(KEYS), 'v': val(), 'ps': some_pairs(),
                'how': r.choice(['kw', 'dict', 'pairs'])})


def inst_op(s, r, elements, some_pairs):
    det = elements and r.random() < 0.2
    return {'o': 'inst', 'i': r.randrange(len(s.classes)) + 1, 'det': det, 'ps': some_pairs() if det else []}


def replay_one(w, b):
    s = Session(w)
    for op in b['ops']:
        s.play(op)


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for line in open(prof[1:]):
            guarded(w, replay_one, w, json.loads(line))
    else:
        rng = random.Random(seed * 7919 + shard * 104729)
        while w.n < budget:
            guarded(w, history, w, rng)
    w.close()
