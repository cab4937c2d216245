# -*- coding: utf-8 -*-
"""Derivations of schema classes, Form statements, instantiations (C09, C16)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from flatland import Form, Ref
from flatland.schema.containers import Container
from flatland.validation import Validator

KINDS = [('String', String), ('Integer', Integer), ('Boolean', Boolean), ('Enum', Enum), ('Ref', Ref),
         ('List', List), ('Array', Array), ('MultiValue', MultiValue), ('JoinedString', JoinedString),
         ('Dict', Dict), ('SparseDict', SparseDict), ('Form', Form), ('DateYYYYMMDD', DateYYYYMMDD)]
COMMON = ['name', 'optional', 'default', 'default_factory', 'ugettext']
ATTRS = {'String': ['strip'], 'Integer': ['signed', 'format'], 'Boolean': ['true', 'false'],
         'Enum': ['child_type', 'valid_values'], 'Ref': ['writable', 'sep', 'target_path'],
         'List': ['prune_empty', 'maximum_set_flat_members', 'member'], 'Array': ['prune_empty', 'member'],
         'MultiValue': ['prune_empty', 'member'], 'JoinedString': ['separator', 'prune_empty', 'member', 'strip'],
         'Dict': ['policy'], 'SparseDict': ['policy', 'minimum_fields'], 'Form': ['policy'],
         'DateYYYYMMDD': ['format', 'strip']}
MAPK = ('Dict', 'SparseDict', 'Form')
SEQK = ('List', 'Array', 'MultiValue', 'JoinedString')

FNS = [(lambda i: (lambda *a: i))(i) for i in range(6)]
VALIDATORS = [(lambda el, st: True), Validator(), (lambda el, st: None), Validator(), (lambda el, st: False), Validator()]


def kind_of(c):
    for n, k in reversed(KINDS):
        if issubclass(c, k) and n not in ('String',):
            if n == 'Dict' and issubclass(c, Form):
                continue
            if n == 'Array' and issubclass(c, (MultiValue, JoinedString)):
                continue
            return n
    return 'String'


class World(object):
    def __init__(self, w, kinds):
        self.w = w
        w.h += 1
        self.classes = [k for n, k in KINDS if n in kinds]
        self.kinds = [n for n, k in KINDS if n in kinds]
        self.objs, self.okinds = [], []
        self.given = []
        self.emit({'o': 'start'}, u'ok')

    # ---- canonical texts
    def nearest(self, c):
        for x in c.__mro__:
            for i, y in enumerate(self.classes):
                if x is y:
                    return i
        return -1

    def canon(self, x):
        if x is None or isinstance(x, bool):
            return txt(str(x))
        if isinstance(x, (int, long)):
            return u'%d' % x
        if isinstance(x, basestring):
            return u's:' + txt(x)
        if isinstance(x, type):
            for i, y in enumerate(self.classes):
                if x is y:
                    return u'#%d' % (i + 1)
            n = self.nearest(x)
            if n >= 0 and self.classes[n] is Dict:
                return u'Dict'
            return u'copy of #%d' % (n + 1) if n >= 0 else u'class ' + txt(x.__name__)
        for i, f in enumerate(FNS):
            if x is f:
                return u'fn%d' % i
        if isinstance(x, (list, tuple)):
            return u'[' + u','.join(self.canon(v) for v in x) + u']'
        return u'o:' + txt(type(x).__name__)

    def vnum(self, v):
        for i, x in enumerate(VALIDATORS):
            if x is v:
                return u'v%d' % i
        return u'?'

    def attr(self, x, kind, n):
        if n == 'name':
            return NONE if x.name is None else txt(x.name)
        if n == 'member':
            return self.canon(x.member_schema)
        if n == 'target_path':
            return u'None' if x.target_path is None else u'|'.join(txt(getattr(p, 'name', p)) for p in x.target_path)
        return self.canon(getattr(x, n))

    def fields(self, fs):
        return [[NONE if f.name is None else txt(f.name), u'#%d' % (self.nearest(f) + 1)] for f in fs]

    def see(self, x, kind):
        return {'kind': kind,
                'a': [[n, self.attr(x, kind, n)] for n in COMMON + ATTRS[kind]],
                'vs': [self.vnum(v) for v in x.validators],
                'ds': [self.vnum(v) for v in x.descent_validators] if kind in MAPK + SEQK + ('DateYYYYMMDD',) else [],
                'ps': [[txt(k), txt(v)] for k, v in x.properties.items()],
                'fs': self.fields(x.field_schema) if kind in MAPK else []}

    def emit(self, op, res, **kw):
        rec = dict({'h': self.w.h, 'op': op, 'res': res, 'args': True, 'sub': [op.get('i', 0), True], 'mf': [],
                    'cls': [self.see(c, k) for c, k in zip(self.classes, self.kinds)],
                    'objs': [self.see(o, k) for o, k in zip(self.objs, self.okinds)]}, **kw)
        self.w.done()
        self.w.rec(rec)

    # ---- operations
    def derive(self, op, fn, args=()):
        """fn() makes the class; args: objects handed over, which must not change."""
        before = [list(a) if isinstance(a, list) else dict(a) for a in args]
        self.w.doing(op)
        parent = self.classes[op['i'] - 1]
        try:
            c = fn(parent)
            res = u'ok'
        except Exception as e:
            c, res = None, exc_name(e)
        same = all(same_objects(a, b) for a, b in zip(args, before))
        extra = {'args': same}
        if c is not None:
            fresh = all(c is not x for x in self.classes)
            extra['sub'] = [self.nearest(c.__mro__[1]) + 1, bool(fresh and isinstance(c, type) and issubclass(c, parent))]
            self.classes.append(c)
            self.kinds.append(self.kinds[op['i'] - 1])
            if op['o'] == 'of' and len(op['l']) > 1 and self.kinds[-1] in SEQK:
                extra['mf'] = [n + u'~' + o for n, o in self.fields(c.member_schema.field_schema)]
        self.emit(op, res, **extra)

    def new(self, op, kw, args=()):
        before = [list(a) if isinstance(a, list) else dict(a) for a in args]
        c = self.classes[op['i'] - 1]
        self.w.doing(op)
        try:
            o = c(**kw)
            res = u'ok'
        except Exception as e:
            o, res = None, exc_name(e)
        extra = {'args': all(same_objects(a, b) for a, b in zip(args, before))}
        if o is not None:
            extra['sub'] = [op['i'], isinstance(o, c)]
            self.objs.append(o)
            self.okinds.append(self.kinds[op['i'] - 1])
        self.emit(op, res, **extra)

    def form(self, op, extra_members=True):
        bases = tuple(self.classes[b - 1] for b in op['bases'])
        ns = {}
        fields = None
        if op['own'] or op.get('empty'):
            fields = [self.classes[i - 1] for i in op['own']]
            if op.get('as_tuple'):
                fields = tuple(fields)
            ns['field_schema'] = fields
        for a, i in op['decl']:
            ns[str(a)] = self.classes[i - 1]
        if extra_members:
            ns['plain'] = 5
            ns['helper'] = lambda self: 1
        before = list(fields or [])
        self.w.doing(op)
        try:
            meta = type(bases[0]) if all(type(b) is type(bases[0]) for b in bases) else type(Form)
            c = meta('F%d' % len(self.classes), bases, ns)
            res = u'ok'
        except Exception as e:
            c, res = None, exc_name(e)
        more = {'left': [], 'keys': []}
        if c is not None:
            same = all(a is b for a, b in zip(fields or [], before)) and len(before) == len(fields or [])
            more['args'] = same and (not extra_members or (c.plain == 5 and 'helper' in c.__dict__))
            more['left'] = [txt(a) for a, i in op['decl'] if a in c.__dict__]
            more['sub'] = [1, True]
            more['keys'] = [txt(k) for k in (c() if usable(c) else c.field_schema_mapping).keys()]
            self.classes.append(c)
            self.kinds.append('Form')
        self.emit(op, res, **more)


def usable(c):
    """Mappings without fields and sequences without members cannot be instantiated."""
    if issubclass(c, (List, Array)):
        return isinstance(c.member_schema, type) and usable(c.member_schema)
    if issubclass(c, Dict):
        return bool(c.field_schema) and all(usable(f) for f in c.field_schema)
    return True


def same_objects(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    return sorted(a) == sorted(b) and all(a[k] is b[k] for k in a)


def given(l=None):
    return {'given': l is not None, 'l': l or []}


def overrides(wd, r, kind, for_new):
    """(op entries, keyword arguments, argument objects)"""
    sets, kw, args = [], {}, []

    def put(n, v, text):
        sets.append([n, text])
        kw[n] = v
    choices = ['name', 'optional', 'default', 'default_factory', 'ugettext'] + [a for a in ATTRS[kind] if a not in ('member', 'target_path')]
    for n in r.sample(choices, r.randrange(0, 4)):
        if n == 'name':
            v = r.choice([u'x', u'y', u'caf\xe9', None])
            put(n, v, NONE if v is None else v)
            continue
        v = {'optional': [True, False], 'default': [None, u'dd', 3, 0], 'default_factory': FNS[:3] + [None], 'ugettext': FNS[3:],
             'strip': [True, False], 'signed': [True, False], 'format': [u'%i', u'%04i'], 'true': [u'yes', u'on'],
             'false': [u'no', u'off'], 'child_type': [c for c, k in zip(wd.classes, wd.kinds) if k in ('String', 'Integer')] or [None],
             'valid_values': [(u'a', u'b'), (u'z',), ()],
             'writable': [True, False, u'ignore'], 'sep': [u'.', u'/'], 'prune_empty': [True, False],
             'maximum_set_flat_members': [3, 1024], 'separator': [u',', u'; '], 'policy': [u'strict', u'subset', u'duck', None],
             'minimum_fields': [u'required', None]}[n]
        if n == 'format' and kind == 'DateYYYYMMDD':
            v = [u'%(year)04i-%(month)02i-%(day)02i']
        v = r.choice(v)
        if n == 'default' and for_new:
            v = None
        put(n, v, wd.canon(v))
    vs = ds = ps = fs = None
    if r.random() < 0.4:
        l = [r.choice(VALIDATORS) for _ in range(r.randrange(0, 3))]
        vs = [wd.vnum(v) for v in l]
        kw['validators'] = l if r.random() < 0.7 else tuple(l)
        if isinstance(kw['validators'], list):
            args.append(l)
            wd.given.append(l)
    if kind in MAPK + SEQK and r.random() < 0.2:
        l = [r.choice(VALIDATORS) for _ in range(r.randrange(0, 3))]
        ds = [wd.vnum(v) for v in l]
        kw['descent_validators'] = l
        args.append(l)
    if r.random() < 0.3:
        d = dict((k, txt(r.randrange(9))) for k in r.sample([u'p', u'q', u'r'], r.randrange(0, 3)))
        ps = [[k, v] for k, v in d.items()]
        kw['properties'] = d
        args.append(d)
        if not for_new:
            wd.given.append(d)
    if kind in MAPK and not for_new and r.random() < 0.15:
        ids = distinct(wd, r, r.randrange(0, 3))
        fs = ids
        kw['field_schema'] = [wd.classes[i - 1] for i in ids]
        args.append(kw['field_schema'])
    op = {'sets': sets, 'vs': given(vs), 'ds': given(ds), 'ps': given(ps), 'fs': given(fs), 'unknown': False}
    return op, kw, args


def distinct(wd, r, n):
    """ids of classes with different names"""
    out, seen = [], set()
    ids = range(1, len(wd.classes) + 1)
    r.shuffle(ids)
    for i in ids:
        c = wd.classes[i - 1]
        if c.name is None or c.name in seen or wd.kinds[i - 1] == 'Ref':
            continue
        seen.add(c.name)
        out.append(i)
        if len(out) >= n:
            break
    return out[:n]


def step(wd, r):
    n = len(wd.classes)
    i = r.randrange(n) + 1 if r.random() < 0.5 else max(1, n - r.randrange(4))
    kind = wd.kinds[i - 1]
    base = {'i': i}
    x = r.choice(['named', 'using', 'using', 'validated_by', 'including_validators', 'including_validators',
                  'descent', 'idescent', 'of', 'of', 'of', 'with_properties', 'valued', 'to', 'subclass', 'new', 'new', 'new',
                  'inst_set', 'mutate', 'form', 'form'])
    if n > 14 and x not in ('new', 'inst_set', 'mutate'):
        x = 'new'
    if x == 'new' and (len(wd.objs) > 5 or kind == 'Enum' or not usable(wd.classes[i - 1])):
        x = 'inst_set'
    if x == 'named':
        name = r.choice([u'x', u'y', u'z', None, 'str', u'caf\xe9', 7])
        op = dict(base, o='named', text=NONE if name is None else txt(name))
        wd.derive(op, lambda c: c.named(name))
    elif x == 'using':
        op, kw, args = overrides(wd, r, kind, False)
        op.update(base, o='using')
        if r.random() < 0.12:
            kw['no_such_attribute'] = 1
            op['unknown'] = True
        wd.derive(op, lambda c: c.using(**kw), args)
    elif x == 'new':
        op, kw, args = overrides(wd, r, kind, True)
        op.update(base, o='new')
        if r.random() < 0.1:
            kw['no_such_attribute'] = 1
            op['unknown'] = True
        if kind == 'Ref':
            kw.pop('value', None)
        wd.new(op, kw, args)
    elif x in ('validated_by', 'descent'):
        if x == 'descent' and kind not in MAPK + SEQK:
            return
        l = [r.choice(VALIDATORS) for _ in range(r.randrange(0, 4))]
        op = dict(base, o='validated_by' if x == 'validated_by' else 'descent_validated_by', l=[wd.vnum(v) for v in l], type=False)
        if r.random() < 0.1:
            l.insert(r.randrange(len(l) + 1), Validator)
            op['type'] = True
        wd.derive(op, lambda c: getattr(c, op['o'])(*l))
    elif x in ('including_validators', 'idescent'):
        if x == 'idescent' and kind not in MAPK + SEQK:
            return
        l = [r.choice(VALIDATORS) for _ in range(r.randrange(0, 4))]
        cur = len(list(wd.classes[i - 1].validators if x == 'including_validators' else wd.classes[i - 1].descent_validators))
        pos = r.choice([-1, -1, 0, 1, 2, 9, -2]) if cur >= 1 else r.choice([-1, 0, 3])
        if pos < -(cur + 1):
            pos = -1
        op = dict(base, o='including_validators' if x == 'including_validators' else 'including_descent_validators',
                  l=[wd.vnum(v) for v in l], pos=pos, unknown=False)
        kw = {} if pos == -1 and r.random() < 0.7 else {'position': pos}
        if r.random() < 0.08:
            kw['pos'] = 1
            op['unknown'] = True
        wd.derive(op, lambda c: getattr(c, op['o'])(*l, **kw))
    elif x == 'of':
        if kind not in MAPK + SEQK:
            return
        if kind in MAPK:
            ids = distinct(wd, r, r.randrange(0, 4))
            if r.random() < 0.15 and ids:
                ids.append(r.choice(ids))
        else:
            k = r.choice([0, 1, 1, 1, 1, 2, 3])
            ids = distinct(wd, r, k) if k > 1 else [r.randrange(n) + 1][:k]
            if kind in ('Array', 'MultiValue', 'JoinedString') and k > 1 and r.random() < 0.5:
                ids = ids[:1]
        objs = [wd.classes[j - 1] for j in ids]
        if r.random() < 0.08 and objs:
            p = r.randrange(len(objs))
            try:
                objs[p] = objs[p]()
                ids = list(ids)
                ids[p] = -1
            except Exception:
                pass
        op = dict(base, o='of', l=ids)
        wd.derive(op, lambda c: c.of(*objs))
    elif x == 'with_properties':
        d = dict((k, txt(r.randrange(9))) for k in r.sample([u'p', u'q', u'r', u's'], r.randrange(0, 4)))
        op = dict(base, o='with_properties', ps=given([[k, v] for k, v in d.items()]))
        how = r.randrange(3)
        if how == 0:
            wd.derive(op, lambda c: c.with_properties(d), [d])
            wd.given.append(d)
        elif how == 1:
            wd.derive(op, lambda c: c.with_properties(**dict((str(k), v) for k, v in d.items())))
        else:
            wd.derive(op, lambda c: c.with_properties(d.items()))
    elif x == 'valued':
        if kind != 'Enum':
            return
        vals = r.sample([u'a', u'b', 3, None], r.randrange(0, 4))
        op = dict(base, o='valued', text=wd.canon(vals))
        wd.derive(op, lambda c: c.valued(*vals))
    elif x == 'to':
        if kind != 'Ref':
            return
        sep = r.choice([u'.', u'/'])
        path = r.choice([u'a', u'a.b', u'.a', u'.', u'/a/b', u'/', u'x/y', u'a.b/c', u'..a'])
        op = dict(base, o='to', text=path, sep=sep)
        explicit = r.random() < 0.5 or wd.classes[i - 1].sep != sep
        wd.derive(op, lambda c: c.to(path, sep=sep) if explicit else c.to(path))
    elif x == 'subclass':
        op = dict(base, o='subclass')
        if kind == 'Form':
            return
        wd.derive(op, lambda c: type(c)('S', (c,), {}))
    elif x == 'inst_set':
        if not wd.objs:
            return
        j = r.randrange(len(wd.objs))
        v = r.choice([u'i%d' % r.randrange(3), None])
        wd.objs[j].name = v
        wd.emit({'o': 'inst_set', 'i': j + 1, 'name': 'name', 'text': NONE if v is None else v}, u'ok')
    elif x == 'mutate':
        if not wd.given:
            return
        g = r.choice(wd.given)
        if isinstance(g, list):
            g.append(VALIDATORS[0])
        else:
            g[u'later'] = u'1'
        wd.emit({'o': 'mutate'}, u'ok')
    elif x == 'form':
        form_step(wd, r)


def form_step(wd, r):
    n = len(wd.classes)
    mine = [j + 1 for j, k in enumerate(wd.kinds) if k == 'Form']
    if not mine:
        return
    dicts = [j + 1 for j, k in enumerate(wd.kinds) if k == 'Dict' and wd.classes[j] is not Dict]
    bases = r.sample(mine, min(len(mine), r.choice([1, 1, 2, 2, 3])))
    if dicts and r.random() < 0.3:
        bases.insert(r.randrange(len(bases) + 1), r.choice(dicts))
    # a base above another one of them would not linearise in that order
    try:
        type(Form)('X', tuple(wd.classes[b - 1] for b in bases), {})
    except TypeError:
        bases = bases[:1] if bases[0] in mine else [r.choice(mine)]
    own = []
    if r.random() < 0.4:
        own = distinct(wd, r, r.randrange(1, 4))
        if r.random() < 0.2 and own:
            k = wd.classes[own[0] - 1].name
            same = [j + 1 for j, c in enumerate(wd.classes) if c.name == k]
            own.append(r.choice(same))
    decl = [[a, r.randrange(n) + 1] for a in r.sample([u'x', u'y', u'z', u'fa', u'fb'], r.randrange(0, 4))]
    decl = [[a, j] for a, j in decl if wd.kinds[j - 1] != 'Ref']
    wd.form({'o': 'form', 'i': bases[0], 'bases': bases, 'own': own, 'decl': decl,
             'as_tuple': r.random() < 0.3, 'empty': r.random() < 0.2}, r.random() < 0.5)


def history(w, r):
    kinds = set(['String', r.choice(['Integer', 'Boolean', 'Enum', 'Ref'])])
    kinds |= set(r.sample(['List', 'Array', 'MultiValue', 'JoinedString'], r.choice([0, 1, 1, 2])))
    kinds |= set(r.sample(['Dict', 'SparseDict'], r.choice([0, 1, 1, 2])))
    kinds.add('Dict')
    if r.random() < 0.7:
        kinds.add('Form')
    if r.random() < 0.2:
        kinds.add('DateYYYYMMDD')
    wd = World(w, kinds)
    for _ in range(r.randrange(8, 26)):
        step(wd, r)


def forms(w, r):
    """Form statements over fields that differ in more than their names."""
    wd = World(w, ['String', 'Integer', 'Dict', 'Form'])
    for _ in range(r.randrange(3, 7)):
        i = r.choice([j + 1 for j, k in enumerate(wd.kinds) if k in ('String', 'Integer')])
        name = r.choice([u'x', u'y', u'z'])
        opt = r.choice([True, True, False])
        op = {'i': i, 'o': 'using', 'sets': [['name', name], ['optional', wd.canon(opt)]], 'vs': given(), 'ds': given(),
              'ps': given(), 'fs': given(), 'unknown': False}
        wd.derive(op, lambda c: c.using(name=name, optional=opt))
    for _ in range(r.randrange(3, 9)):
        if r.random() < 0.15:
            i = r.choice([j + 1 for j, k in enumerate(wd.kinds) if k in ('Dict', 'Form')])
            ids = distinct(wd, r, r.randrange(1, 4))
            objs = [wd.classes[j - 1] for j in ids]
            wd.derive({'i': i, 'o': 'of', 'l': ids}, lambda c: c.of(*objs))
        else:
            form_step(wd, r)


def replay_one(w, b):
    """Form hierarchies: leaves are String (1) and Integer (2), then Dict, Form."""
    wd = World(w, ['String', 'Integer', 'Dict', 'Form'])
    for o in b['ops']:
        if o['o'] == 'form':
            wd.form(dict(o, i=o['bases'][0]), False)
        elif o['o'] == 'named':
            wd.derive({'o': 'named', 'i': o['i'], 'text': o['text']}, lambda c: c.named(o['text']))
        else:
            objs = [wd.classes[j - 1] for j in o['l']]
            wd.derive({'o': 'of', 'i': o['i'], 'l': o['l']}, lambda c: c.of(*objs))


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for line in open(prof[1:]):
            guarded(w, replay_one, w, json.loads(line))
    else:
        rng = random.Random(seed * 7919 + shard * 104729)
        while w.n < budget:
            guarded(w, forms if prof == 'forms' else history, w, rng)
    w.close()
