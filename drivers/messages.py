# -*- coding: utf-8 -*-
"""note_error/note_warning: templates, providers, translators (C20)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from six.moves import builtins
from flatland.validation import Validator


def val(v):
    if isinstance(v, basestring):
        return {'s': txt(v), 'k': u't'}
    if isinstance(v, (int, long)) and not isinstance(v, bool):
        return {'s': u'%d' % v, 'k': u'n'}
    return {'s': txt(str(v)), 'k': u'o'}


def unval(r):
    return {u't': lambda: r['s'], u'n': lambda: int(r['s']), u'o': lambda: None}[r['k']]()


def pairs(d):
    return [[txt(k), val(v)] for k, v in d]


class Ug(object):
    """Stands for gettext: text that is not a numeral is marked."""
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, s):
        if not isinstance(s, basestring) or txt(s).isdigit():
            return s
        return u'%s:%s' % (self.tag, txt(s))


class Ung(Ug):
    def __call__(self, single, plural, n):
        return u'%s[%s]%s' % (self.tag, n, single if n == 1 else plural)


TRANS = {'ug': ('ugettext', Ug), 'ung': ('ungettext', Ung)}


class Obj(object):
    pass


class Old:
    pass


class Both(object):
    err = KeyError

    def __init__(self, items):
        self._items = items

    def __getitem__(self, k):
        if k in self._items:
            return self._items[k]
        raise self.err(k)


class BothIndex(Both):
    err = IndexError


class Sub(dict):
    pass


class Numbered(Both):
    """Wants another kind of key."""
    err = TypeError


def make_state(c, tr):
    s = c['state']
    items = dict((str(k) if n % 2 else k, unval(v)) for n, (k, v) in enumerate(s['items']))
    attrs = dict((str(k), unval(v)) for k, v in s['attrs'])
    for which in ('ug', 'ung'):
        name, cls = TRANS[which]
        if c[which]['sa']:
            attrs[name] = cls(c[which]['sa'])
        if c[which]['si']:
            items[name] = cls(c[which]['si'])
    k = s['k']
    if k == 'none':
        return None
    if k == 'dict':
        return items
    if k == 'list':
        return [u'zero']
    if k == 'tuple':
        return ()
    if k == 'str':
        return u'zero'
    if k == 'num':
        return 0
    if k == 'sub':
        o = Sub(items)
    elif k in ('both', 'index', 'numbered'):
        o = {'both': Both, 'index': BothIndex, 'numbered': Numbered}[k](items)
    elif k == 'old':
        o = Old()
    else:
        o = Obj()
    for n, v in attrs.items():
        setattr(o, n, v)
    return o


def state_holds(k):
    """(items, attrs) a state of this kind can hold."""
    return {'dict': (1, 0), 'sub': (1, 1), 'both': (1, 1), 'index': (1, 1), 'numbered': (1, 1),
            'old': (0, 1), 'obj': (0, 1)}.get(k, (0, 0))


STATES = ['none', 'none', 'dict', 'dict', 'sub', 'both', 'index', 'numbered', 'old', 'obj', 'obj',
          'list', 'tuple', 'str', 'num']


def place(rng_pick, el_or_cls, which, tag):
    name, cls = TRANS[which]
    setattr(el_or_cls, name, None if tag == 'nil' else cls(tag))


def build(depth, kinds, tr, onclass, name, label, value, leaf):
    """A chain of containers with the element at its end; tr[which][i] is for
    the element's i-th ancestor (0: itself)."""
    def dress(cls, i):
        o = {}
        for which in ('ug', 'ung'):
            t = tr[which][i]
            if t and onclass[i]:
                o[TRANS[which][0]] = None if t == 'nil' else staticmethod(TRANS[which][1](t))
        return cls.using(**o) if o else cls
    cls = String if leaf == 's' else (Dict.of(String.named(u'qq')) if leaf == 'd' else List.of(String.named(u'qq')))
    if name:
        cls = cls.named(name)
    if label:
        cls = cls.using(label=label)
    cls = dress(cls, 0)
    for i in range(1, depth):
        cls = Dict.of(cls) if kinds[i] == 'd' else List.of(cls)
        cls = dress(cls.named(u'c%d' % i), i)
    root = cls()
    chain = [root]
    for i in reversed(range(1, depth)):
        here = chain[-1]
        if kinds[i] == 'd':
            chain.append(here[name if i == 1 else u'c%d' % (i - 1)])
        else:
            here.append(here.member_schema())
            chain.append(here[0])
    chain.reverse()
    el = chain[0]
    if leaf == 's' and value is not None:
        el.set(value)
    for which in ('ug', 'ung'):
        for i in range(depth):
            t = tr[which][i]
            if t and not onclass[i]:
                place(None, chain[i], which, t)
    return el, chain


def pymsg(m):
    x = m['a'] if m['f'] == 's' else (m['a'], m['b'], m['key'])
    if m['call']:
        return lambda el, state: x
    return x


class World(object):
    def __init__(self, w, spec):
        """spec: depth, kinds, ug/ung el lists, onclass, name, label, value, leaf, eattrs"""
        self.w = w
        self.el, self.chain = build(*spec)
        w.rec({'h': w.h, 'op': {'o': 'new'}, 'res': 'ok'})

    def note(self, c, kind, via, own, msg, through):
        """through: call note_* directly or by way of element.validate()."""
        el = self.el
        state = make_state(c, None)
        kw = dict((str(k), unval(v)) for k, v in c['kw'])
        vcls = type('V', (Validator,), dict((str(k), unval(v)) for k, v in c['vattrs']))
        x = pymsg(msg)
        seen = []

        def run(self, element, st):
            seen.append(st is state)
            fn = element_note(self, kind)
            if via == 'key':
                return fn(element, st, 'own', **kw)
            if via == 'keyword':
                return fn(element, st, key='own', message=x, **kw)
            return fn(element, st, 'own', x, **kw)
        vcls.validate = run
        vcls.own = staticmethod(pymsg(own)) if own['call'] else pymsg(own)
        v = vcls()
        bs = [(TRANS[k][0], TRANS[k][1](c[k]['b'])) for k in ('ug', 'ung') if c[k]['b']]
        for n, f in bs:
            setattr(builtins, n, f)
        try:
            if through:
                el.validators = [v]
                el.optional = False
                r = el.validate(state, recurse=False)
            else:
                r = v(el, state)
            res = txt(repr(r)) if seen == [True] else u'state lost'
        except Exception as e:
            res = exc_name(e)
        finally:
            for n, f in bs:
                delattr(builtins, n)
        self.w.rec({'h': self.w.h, 'op': {'o': 'note', 'kind': kind, 'via': 'key' if via == 'key' else 'msg',
                                          'own': own, 'msg': msg, 'c': c, 'through': through},
                    'res': res, 'errors': [txt(e) for e in el.errors], 'warnings': [txt(e) for e in el.warnings]})


def element_note(v, kind):
    return v.note_error if kind == 'error' else v.note_warning


def make(w, cls, kw):
    w.h += 1
    k = type('K', (Validator,), dict((str(a), unval(b)) for a, b in cls))
    inst = []
    try:
        o = k(**dict((str(a), unval(b)) for a, b in kw))
        k()
        inst = [[a, val(getattr(o, a))] for a, b in cls]
        res = u'ok'
    except Exception as e:
        res = exc_name(e)
    w.rec({'h': w.h, 'op': {'o': 'make', 'cls': cls, 'kw': kw}, 'res': res, 'inst': inst,
           'after': [[a, val(getattr(k, a))] for a, b in cls]})


# --------------------------------------------------------------------------
NAMES = [u'alpha', u'beta', u'label', u'name', u'size', u'values', u'items', u'minimum', u'hint', u'get']
TEXTS = [u'plain', u'a%(alpha)s', u'%(alpha)s %(beta)s', u'100%% of %(label)s', u'%(label)s: %(values)s', u'%(items)s!', u'%(size)d of %(alpha)s',
         u'%(name)s', u'%(minimum)s%(minimum)i', u'%(beta)s%(beta)s', u'\u20ac %(label)s', u'%(hint)s', u'%(nobody)s', u'%(get)s', u'%%(alpha)s']


def rand_val(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice([0, 1, 2, 3, 17])
    if r < 0.45:
        return rng.choice([u'1', u'2', u'-1', u'+1', u'01'])
    if r < 0.52:
        return None
    return rng.choice([u'one', u'v\xe9', u'', u'%(alpha)s', u'a b', u'X', u'Y', u'Z', u'W'])


def rand_pairs(rng, n, names=NAMES):
    return pairs((k, rand_val(rng)) for k in rng.sample(names, rng.randint(0, min(n, len(names)))))


def rand_msg(rng):
    m = {'f': u's', 'a': rng.choice(TEXTS), 'b': u'', 'key': u'', 'call': rng.random() < 0.15}
    if rng.random() < 0.35:
        m.update(f=u't', b=rng.choice([u'%(alpha)s many', u'%(size)s', u'plural', u'P %(label)s']), a=rng.choice([u'one %(alpha)s', u'single', u'S %(label)s']),
                 key=rng.choice([u'alpha', u'beta', u'size', u'minimum', u'values', u'nobody']))
    elif rng.random() < 0.06:
        m['a'] = u''
        m['call'] = False
    return m


def history(w, rng):
    w.h += 1
    depth = rng.randint(1, 4)
    leaf = rng.choice('sssdl')
    kinds = [None] + [rng.choice('dl') for _ in range(depth)]
    style = rng.random()
    tr = {}
    tagn = [0]

    def tag(p):
        if rng.random() < p:
            tagn[0] += 1
            return rng.choice([u'T%d', u'%%(label)s%d', u'T%d', u'nil'] if p else [u'']) .replace(u'%d', str(tagn[0])).replace(u'%%', u'%')
        return u''
    p1 = rng.choice([0, 0, 0.2, 0.5])
    p2 = rng.choice([0, 0, 0.2, 0.5])
    for k, p in (('ug', p1), ('ung', p2)):
        tr[k] = [tag(p) for _ in range(depth)]
    onclass = [rng.random() < 0.5 for _ in range(depth)]
    name = rng.choice([u'nm', u'field', u'nm'])
    label = rng.choice([u'', u'', u'The Label', u'L%'])
    value = rng.choice([None, u'text', u'1'])
    spec = (depth, kinds, tr, onclass, name, label, value, leaf)
    wd = World(w, spec)
    eattrs = [[u'name', val(name)], [u'label', val(label or name)]]
    if rng.random() < 0.3:
        wd.el.hint = u'hinted'
        eattrs.append([u'hint', val(u'hinted')])
    if rng.random() < 0.2:
        wd.el.minimum = 4
        eattrs.append([u'minimum', val(4)])
    texts = [rand_msg(rng) for _ in range(2)]
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(STATES)
        hi, ha = state_holds(k)
        names = [n for n in NAMES if not (k == 'sub' and n in (u'values', u'items', u'get'))]
        c = {'kw': rand_pairs(rng, 3), 'vattrs': rand_pairs(rng, 5),
             'eattrs': eattrs,
             'state': {'k': k, 'items': rand_pairs(rng, 4, names) if hi else [], 'attrs': rand_pairs(rng, 4, names) if ha else []}}
        # a name only a dict subclass answers for by its methods
        for which in ('ug', 'ung'):
            p = 0.3 if rng.random() < 0.4 else 0
            g = lambda yes, q=p: u'T%d' % rng.randint(20, 99) if yes and rng.random() < q else u''
            c[which] = {'sa': g(ha), 'si': g(hi), 'el': tr[which], 'b': g(True, 0.12)}
        msgs = texts + [rand_msg(rng)]
        own, msg = rng.choice(msgs), rng.choice(msgs)
        if (k == 'sub' or leaf == 'd') and any(n in own['a'] + own['b'] + msg['a'] + msg['b'] + own['key'] + msg['key'] for n in (u'values', u'items', u'get')):
            continue
        through = rng.random() < 0.4
        wd.note(c, rng.choice(['error', 'error', 'warning']), rng.choice(['key', 'key', 'message', 'keyword']), own, msg, through)
    if rng.random() < 0.15:
        cls = rand_pairs(rng, 5) + [[u'zz', val(1)]]
        make(w, cls, [[k, val(rand_val(rng))] for k in rng.sample([k for k, _ in cls], rng.randint(0, len(cls)))] +
             ([[u'other', val(1)]] if rng.random() < 0.2 else []))


def replay(w, b):
    w.h += 1
    el = b['depth']
    c = b['c']
    tr = {'ug': c['ug']['el'], 'ung': c['ung']['el']}
    wd = World(w, (el, [None] + ['d', 'l'] * 3, tr, [w.h % 2 == 0, w.h % 3 == 0, w.h % 5 == 0], u'nm', u'', u'text', 's'))
    for k, v in c['eattrs']:
        if k not in (u'name', u'label'):
            setattr(wd.el, k, unval(v))
    for n, s in enumerate(b['notes']):
        wd.note(c, s['kind'], 'message', s['msg'], s['msg'], (w.h + n) % 2 == 0)


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for line in open(prof[1:]):
            guarded(w, replay, w, json.loads(line))
    else:
        rng = random.Random('messages-%s-%d-%d' % (prof, seed, shard))
        while w.n < budget:
            guarded(w, history, w, rng)
    w.close()
