# -*- coding: utf-8 -*-
"""Trees with references (C15)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from flatland import Ref


def leaf_schema(kind, name):
    return {'int': lambda: schema('int', name), 'str': lambda: schema('str', name), 'strn': lambda: schema('str', name, strip=False),
            'bool': lambda: schema('bool', name), 'uint': lambda: schema('int', name, signed=False, w=3),
            'date': lambda: schema('date', name)}[kind]()


BLANK = unschema(schema('str', u'none'))


class World(object):
    def __init__(self, w):
        self.w = w
        w.h += 1
        self.fac = Factory()
        self.paths = {}            # Ref class: the path it was given, the separator in force, its mode

    def leaf(self, kind, name):
        return self.fac.build(leaf_schema(kind, name))

    def start(self, root):
        self.root = root
        self.emit({'o': 'start'}, u'ok')

    def observe(self):
        order, ids = walk(self.root)
        nodes = []

        def read(fn):
            try:
                return fn()
            except RuntimeError:
                raise
            except Exception as e:
                return exc_name(e)
        for el in order:
            kids = [ids[id(c)] + 1 for c in children_of(el)]
            s = self.fac.schema_of(el)
            ref = isinstance(el, Ref)
            n = {'k': 'ref' if ref else 'map' if isinstance(el, dict) else 'seq' if isinstance(el, list) else 'leaf',
                 'kids': kids, 'kn': [], 'sc': unschema(s) if s and not ref else BLANK, 'w': u'True', 'tp': [], 'path': [], 'emp': False,
                 'eq': [], 'target': 0,
                 'val': read(lambda: canon(el.value)), 'u': read(lambda: txt(el.u))}
            if n['k'] == 'map':
                n['kn'] = [txt(k) for k in el.keys()]
            if ref:
                text, sep, mode = self.paths[type(el)]
                n['w'] = txt(str(mode))
                n['tp'] = [txt(p) for p in text] if isinstance(text, list) else []
                n['path'] = [] if isinstance(text, list) else [txt(text), txt(sep)]
                n['emp'] = read(lambda: bool(el.is_empty))
                t = read(lambda: el.target)
                if isinstance(t, Element):
                    n['target'] = ids.get(id(t), -2) + 1
                    n['eq'] = [read(lambda: el == t), read(lambda: el != t)]
            nodes.append(n)
        leaves = [e for e, n in zip(order, nodes) if n['k'] == 'leaf']
        return nodes, sorted(txt(e.flattened_name()) for e in leaves), sorted(txt(k) for k, v in self.root.flatten())

    def emit(self, op, res):
        self.w.doing(op)
        nodes, names, flat = self.observe()
        self.w.done()
        self.w.rec({'h': self.w.h, 'op': op, 'res': res, 'nodes': nodes, 'leafnames': names, 'flat': flat})
        self.nodes = nodes

    def other(self, name, fn):
        self.w.doing(name)
        try:
            fn()
            res = u'ok'
        except (KeyError, TypeError, IndexError, ValueError, AttributeError) as e:
            res = exc_name(e)
        self.emit({'o': name}, res)

    def nodelist(self):
        return walk(self.root)[0]

    def write(self, i, how, x):
        """i: index of the element in preorder"""
        el = self.nodelist()[i - 1]
        item = how == 'item'
        op = {'o': 'write', 'i': i, 'how': 'set' if how in ('item', 'flat') else how, 'x': dict(pv(x), v=canon(x)), 'item': how in ('item', 'flat')}
        self.w.doing(op)
        try:
            if how in ('set',):
                res = u'T' if el.set(x) else u'F'
            elif how == 'item':
                p = el.parent
                p[el.name] = x
                res = u'ok'
            elif how == 'flat':
                self.root.set_flat([(el.flattened_name(), x)])
                res = u'ok'
            elif how == 'value':
                el.value = x
                res = u'ok'
            else:
                el.u = x
                res = u'ok'
        except Exception as e:
            res = exc_name(e)
        self.emit(op, res)


W = [True, True, 'ignore', False]


def history(w, r):
    wd = World(w)

    def ref(name, names, top):
        c = Ref.named(name)
        own, given = r.choice([None, None, None, u'/', u'->']), r.choice([None, None, None, u'.', u'/', u'->'])
        if own is not None:
            c = c.using(sep=own)
        x = r.choice(W + ['default'])
        if x != 'default':
            c = c.using(writable=x)
        sep = given or own or u'.'
        path = names if r.random() < 0.2 else (sep if top else u'') + sep.join(names)
        c = c.to(path) if given is None else c.to(path, sep=given)
        if r.random() < 0.1:
            c = c.using(optional=True)
        wd.paths[c] = path, sep, 'ignore' if x == 'default' else x
        return c
    listed = r.random() < 0.25
    pre = u'0.' if listed else u''
    paths = [u'main', u'other', u'sub.inner', u'lst.0.n', u'lst.-1.n', u'lst.1.n', u'sd.s', u'box', u'box.x', u'nums', u'nums.0', u'r1', u'sub.r', u'lst.0.r', u'sd']

    def path(n=None):
        return (pre + (n or r.choice(paths))).split(u'.'), r.random() < 0.4
    # no reference cycles: r1 points at plain elements, r2 at anything but itself
    plain = [p for p in paths if p not in (u'r1', u'sub.r', u'lst.0.r', u'sd')]
    kinds = ['int', 'str', 'strn', 'bool', 'uint', 'date']

    def mk(name, choices):
        return ref(name, *path(r.choice(choices)))
    member = Dict.of(wd.leaf(r.choice(kinds), u'n'), mk(u'r', plain), wd.leaf('str', u't'))
    fields = [wd.leaf(r.choice(kinds), u'main'), wd.leaf('str', u'other'),
              mk(u'r1', plain), mk(u'r2', plain + [u'r1', u'sub.r', u'lst.0.r', u'gone', u'lst.x', u'main.y']),
              Dict.named(u'sub').of(wd.leaf(r.choice(kinds), u'inner'), mk(u'r', plain)),
              List.named(u'lst').of(member),
              SparseDict.named(u'sd').of(wd.leaf('str', u's'), mk(u'q', plain)),
              Dict.named(u'box').of(wd.leaf('int', u'x'), wd.leaf('str', u'y')),
              List.named(u'nums').of(wd.leaf('int', None))]
    D = Dict.of(*fields)
    if r.random() < 0.5:
        D = D.named(u'top')
    rootcls = List.of(D) if listed else D
    if r.random() < 0.5:
        rootcls = rootcls.named(u'root')
    root = rootcls()
    if listed:
        root.append({})
    wd.start(root)
    main = lambda: root[0] if listed else root
    values = [5, u'7', u' 8 ', u'x', u'', None, -3, u'2004-02-29', True, u'on', datetime.date(2010, 1, 2)]

    def plainvals():
        v = {}
        if r.random() < 0.7:
            v[u'main'] = r.choice(values)
        if r.random() < 0.5:
            v[u'lst'] = [{u'n': r.choice(values)} for _ in range(r.randrange(3))]
        if r.random() < 0.5:
            v[u'sub'] = {u'inner': r.choice(values)}
        if r.random() < 0.5:
            v[u'box'] = {u'x': r.choice(values), u'y': u'why'}
        if r.random() < 0.5:
            v[u'nums'] = [r.choice([1, 2, u'3', u'z']) for _ in range(r.randrange(3))]
        if r.random() < 0.3:
            v[u'sd'] = {u's': u'ess'}
        return v
    for _ in range(r.randrange(4, 16)):
        x = r.random()
        m = main()
        if x < 0.55:
            order = wd.nodelist()
            cand = [i for i, n in enumerate(wd.nodes) if n['k'] in ('leaf', 'ref')]
            refs = [i for i in cand if wd.nodes[i]['k'] == 'ref']
            i = r.choice(refs) if r.random() < 0.7 else r.choice(cand)
            el = order[i]
            how = r.choice(['set', 'set', 'value', 'u', 'item', 'flat'])
            if how == 'item' and not isinstance(el.parent, dict):
                how = 'set'
            if how == 'flat' and (listed or any(isinstance(p, list) for p in el.parents)
                                  or el.flattened_name() in [e.flattened_name() for e in order if e is not el]):
                how = 'set'
            v = r.choice(values)
            if how == 'u':
                v = r.choice([u'text', u'', u'42'])
            if how == 'flat':
                v = r.choice([u'7', u' 8 ', u'x', u'', u'on', u'2004-02-29'])
            wd.write(i + 1, how, v)
        elif x < 0.62:
            v = plainvals()
            wd.other('root set', lambda: root.set([v]) if listed else root.set(v))
        elif x < 0.66:
            wd.other('sub set', lambda: m[u'sub'].set({u'inner': r.choice(values)}))
        elif x < 0.72:
            wd.other('append', lambda: m[u'lst'].append({u'n': r.choice(values)}))
        elif x < 0.76:
            # an element of its own first, read there, then put in the tree
            el = member({u'n': r.choice(values)})
            try:
                el[u'r'].value
            except Exception:
                pass
            wd.other('append element', lambda: m[u'lst'].append(el))
        elif x < 0.79:
            wd.other('pop', lambda: m[u'lst'].pop(r.choice([0, -1])))
        elif x < 0.82:
            wd.other('insert', lambda: m[u'lst'].insert(0, {u'n': r.choice(values)}))
        elif x < 0.84:
            wd.other('reverse', lambda: m[u'lst'].reverse())
        elif x < 0.88:
            wd.other('sparse', lambda: m[u'sd'].pop(u's') if u's' in m[u'sd'] else m[u'sd'].update({u's': u'ess', u'q': u'z'} if r.random() < 0.5 else {u's': u'tee'}))
        elif x < 0.91:
            wd.other('box set', lambda: m[u'box'].set({u'x': r.choice([1, u'2'])}))
        elif x < 0.94:
            wd.other('nums', lambda: m[u'nums'].set([r.choice([1, 2, 3])] * r.randrange(3)))
        elif x < 0.96:
            wd.other('set item', lambda: m[u'nums'].__setitem__(0, wd.fac.by_class and type(m[u'nums'][0])(9)))
        elif x < 0.98:
            wd.other('set_default', lambda: root.set_default())
            if listed and not len(root):
                root.append({})
                wd.emit({'o': 'append'}, u'ok')
        else:
            wd.other('set_flat', lambda: m[u'box'].set_flat([(m[u'box'].name + u'_x', u'77')]))


def replay_one(w, b):
    """Root map: a Integer, b Ref, c Ref, sub map (d String, e Ref)."""
    wd = World(w)

    def ref(name, spec):
        p, perm = spec
        c = Ref.named(name).using(writable={u'True': True, u'False': False, u'ignore': u'ignore'}[perm]).to(p)
        wd.paths[c] = p, u'.', perm
        return c
    sub = Dict.named(u'sub').of(wd.leaf('str', u'd'), ref(u'e', b['refs'][2]))
    fs = {u'a': wd.leaf('int', u'a'), u'b': ref(u'b', b['refs'][0]), u'c': ref(u'c', b['refs'][1]), u'sub': sub}
    root = Dict.of(*[fs[n] for n in (u'a', u'b', u'c', u'sub')])()
    wd.start(root)
    for o in b['ops']:
        if o['o'] == 'write':
            el = root.el(o['at'])
            i = [id(x) for x in wd.nodelist()].index(id(el)) + 1
            x = o['x']
            v = None if x['t'] == 'n' else int(x['s']) if x['t'] == 'i' else x['s']
            wd.write(i, o['how'], v)
        elif o['o'] == 'reset':
            wd.other('root set', lambda: root.set({u'a': 3, u'sub': {u'd': u'new'}}))
        else:
            wd.other('sub set', lambda: root[u'sub'].set({u'd': u'sub'}))


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for line in open(prof[1:]):
            guarded(w, replay_one, w, json.loads(line))
    else:
        rng = random.Random(seed * 7919 + shard * 104729)
        while w.n < budget:
            guarded(w, history, w, rng)
    w.close()
