# -*- coding: utf-8 -*-
"""Validators of values and of containers (C21)."""
import operator
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from flatland import validation


def cls(name):
    return getattr(validation, name)


def typed(v):
    if v is None:
        return {'k': u'none', 'n': 0, 's': u''}
    if isinstance(v, bool):
        return {'k': u'bool', 'n': int(v), 's': u''}
    if isinstance(v, basestring):
        return {'k': u'str', 'n': 0, 's': txt(v)}
    return {'k': u'int', 'n': int(v), 's': u''}


def untyped(r):
    return {u'none': None, u'bool': bool(r['n']), u'int': r['n'], u'str': r['s']}[r['k']]


def facts_of(el, deep=True):
    return {'v': typed(el.value if deep else None), 'u': txt(el.u) if deep else u'',
            'name': txt(el.name or u''), 'label': txt(el.label)}


TRANSFORMS = {
    'value': operator.attrgetter('value'), 'u': operator.attrgetter('u'),
    'nocase': lambda el: el.u.lower(), 'length': lambda el: len(el.u)}
COMPARE = {
    'value': lambda a, b: a.value == b.value, 'u': lambda a, b: a.u == b.u,
    'nocase': lambda a, b: a.u.lower() == b.u.lower(), 'length': lambda a, b: len(a.u) == len(b.u),
    'longer': lambda a, b: len(a.u) > len(b.u), 'never': lambda a, b: False, 'always': lambda a, b: True}


def pymsg(m):
    return m['a'] if m['f'] == 's' else (m['a'], m['b'], m['key'])


def options(kind, opts):
    vals = [untyped(o) for o in opts]
    return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset,
            'dict': lambda x: dict((k, 0) for k in x)}[kind](vals)


def construct(name, cf, msgs, style):
    """style: how the validator gets its configuration: positional arguments,
    keywords or a subclass."""
    kw = dict((str(k), pymsg(m)) for k, m in msgs)
    args = ()
    K = cls(name)
    given = {}
    if name == 'ValueIn':
        given['valid_options'] = options(cf['how'], cf['options'])
        order = ['valid_options']
    elif name in ('ShorterThan', 'NoLongerThan'):
        given['maxlength'] = cf['hi']
        order = ['maxlength']
    elif name == 'LongerThan':
        given['minlength'] = cf['lo']
        order = ['minlength']
    elif name == 'LengthBetween':
        given.update(minlength=cf['lo'], maxlength=cf['hi'])
        order = ['minlength', 'maxlength']
    elif name in ('ValueLessThan', 'ValueGreaterThan'):
        given['boundary'] = untyped(cf['bound'])
        order = ['boundary']
    elif name == 'ValueAtMost':
        given['maximum'] = untyped(cf['max'])
        order = ['maximum']
    elif name == 'ValueAtLeast':
        given['minimum'] = untyped(cf['min'])
        order = ['minimum']
    elif name == 'ValueBetween':
        given.update(minimum=untyped(cf['min']), maximum=untyped(cf['max']))
        order = ['minimum', 'maximum']
        if not cf['inclusive']:
            kw['inclusive'] = False
    elif name == 'HasAtLeast':
        given['minimum'] = cf['lo']
        order = []
    elif name == 'HasAtMost':
        given['maximum'] = cf['hi']
        order = []
    elif name == 'HasBetween':
        given.update(minimum=cf['lo'], maximum=cf['hi'])
        order = []
    else:
        order = []
    if name == 'NotDuplicated' and cf['cmp'] != 'eq':
        kw['comparator'] = COMPARE[cf['cmp']]
    if name in ('MapEqual', 'ValuesEqual', 'UnisEqual'):
        if name == 'MapEqual' and cf['cmp'] != 'eq':
            kw['transform'] = TRANSFORMS[cf['cmp']]
        if style == 'sub':
            if 'transform' in kw:
                kw['transform'] = staticmethod(kw['transform'])
            return type('Sub', (K,), dict(kw, field_paths=tuple(cf['paths'])))()
        return K(*cf['paths'], **kw)
    if style == 'pos':
        args = [given.pop(k) for k in order]
    if style == 'sub' and name not in ('ValueLessThan', 'ValueGreaterThan', 'ValueAtMost', 'ValueAtLeast', 'ValueBetween'):
        if 'comparator' in kw:
            kw['comparator'] = staticmethod(kw['comparator'])
        kw.update(given)
        return type('Sub', (K,), kw)()
    kw.update(given)
    return K(*args, **kw)


def everything(el):
    root = el.root
    return [root] + list(root.all_children)


def quiet_but(el):
    return all(not e.errors and not e.warnings for e in everything(el) if e is not el) and not el.warnings


def judge(w, name, cf, msgs, style, through, el, e):
    res = u'?'
    try:
        v = construct(name, cf, msgs, style)
        if through:
            el.validators = [v]
            res = txt(repr(el.validate(recurse=False)))
        else:
            res = txt(repr(v(el, None)))
    except Exception as x:
        res = exc_name(x)
    w.rec({'h': w.h, 'op': {'o': 'check', 'v': name, 'cf': cf, 'e': e, 'msgs': msgs},
           'res': res, 'errors': [txt(m) for m in el.errors], 'quiet': quiet_but(el)})


# --------------------------------------------------------------------------
CF = {'lo': 0, 'hi': 0, 'min': typed(None), 'max': typed(None), 'bound': typed(None), 'options': [], 'how': 'list',
      'inclusive': True, 'cmp': u'eq', 'paths': []}
TEXTS = [u'', u'a', u'b', u'A', u'ab', u'aB', u'abc', u'xyx', u'0', u'1', u'12', u'\xe9', u' a', u'a ', u' ', u'3a', u'\u2603\u2603']
PLAIN = [u'a', u'b', u'ab', u'abc', u'0', u'1', u'10', u'9', u'zz', u'b0', u'ba', u'']
INTS = [-2, -1, 0, 1, 2, 3, 10, 100, 2000000]


def scalar_el(rng, kind, value):
    c = {'s': String, 'S': String.using(strip=False), 'i': Integer, 'b': Boolean}[kind]
    c = c.named(rng.choice([u'nm', u'field']))
    if rng.random() < 0.3:
        c = c.using(label=rng.choice([u'The Label', u'100%']))
    if rng.random() < 0.3:
        root = List.of(c)() if rng.random() < 0.5 else Dict.of(c, String.named(u'other'))()
        if isinstance(root, list):
            root.append(None)
            root.append(None)
            el = root[0]
        else:
            el = root[c.name]
    else:
        el = c()
    if value is not None:
        el.set(value)
    return el


MESSAGES = [u'%(label)s!', u'no', u'%(value)s/%(u)s', u'%(name)s %%']


def scalar_case(w, rng):
    w.h += 1
    name = rng.choice(['Present', 'IsTrue', 'IsFalse', 'ValueIn', 'Converted', 'ShorterThan', 'NoLongerThan', 'LongerThan',
                       'LengthBetween', 'ValueLessThan', 'ValueAtMost', 'ValueGreaterThan', 'ValueAtLeast', 'ValueBetween', 'ValueBetween'])
    cf = dict(CF)
    kind = rng.choice('sSib')
    if name.startswith('Value') and name != 'ValueIn':
        kind = rng.choice('si')
        pool = INTS if kind == 'i' else PLAIN
        value = rng.choice(pool)
        near = [value, value + 1, value - 1] if kind == 'i' else [value]
        pick = lambda: typed(rng.choice(near + [rng.choice(pool)]))
        cf.update(min=pick(), max=pick(), bound=pick(), inclusive=rng.random() < 0.5)
    else:
        value = {'s': lambda: rng.choice(TEXTS + [None]), 'S': lambda: rng.choice(TEXTS + [None]), 'i': lambda: rng.choice(INTS + [None, u'x', u'', u' 7']),
                 'b': lambda: rng.choice([True, False, None, u'maybe', u'on', u''])}[kind]()
        pool = [untyped(t) for t in map(typed, INTS[:6] + [True, False, None])] if kind in 'ib' else TEXTS
        cf['options'] = [typed(rng.choice(pool)) for _ in range(rng.randint(0, 5))]
        cf['how'] = rng.choice(['list', 'tuple', 'set', 'frozenset', 'dict'])
        n = len(txt(value)) if value is not None else 0
        cf.update(lo=max(0, n + rng.randint(-1, 1)), hi=max(0, n + rng.randint(-1, 1)))
    el = scalar_el(rng, kind, value)
    msgs = []
    if rng.random() < 0.3:
        for m in DEFAULT_NAMES[name]:
            msgs.append([m, {'f': u's', 'a': rng.choice(MESSAGES), 'b': u'', 'key': u''}])
    judge(w, name, cf, msgs, rng.choice(['pos', 'kw', 'sub']), rng.random() < 0.4, el, facts_of(el))


DEFAULT_NAMES = {
    'Present': ['missing'], 'IsTrue': ['false'], 'IsFalse': ['true'], 'ValueIn': ['fail'], 'Converted': ['incorrect'],
    'ShorterThan': ['exceeded'], 'NoLongerThan': ['exceeded'], 'LongerThan': ['short'], 'LengthBetween': ['breached'],
    'ValueLessThan': ['failure'], 'ValueAtMost': ['failure'], 'ValueGreaterThan': ['failure'], 'ValueAtLeast': ['failure'],
    'ValueBetween': ['failure_inclusive', 'failure_exclusive'], 'HasAtLeast': ['failure'], 'HasAtMost': ['failure'],
    'HasBetween': ['range', 'exact'], 'NotDuplicated': ['failure'], 'MapEqual': ['unequal'], 'ValuesEqual': ['unequal'], 'UnisEqual': ['unequal']}

FIELDS = Dict.named(u'form').of(
    String.named(u'a'), String.named(u'b').using(label=u'Bee', strip=False), Integer.named(u'n'), Boolean.named(u'f'),
    Dict.named(u'sub').of(String.named(u'c'), Integer.named(u'm'), String.named(u'a').using(label=u'sub a')))
PATHS = {'': [u'a', u'b', u'n', u'f', u'sub/c', u'sub/m', u'sub/a', u'/a', u'./b', u'sub/../n', u'/sub/c'],
         'sub': [u'c', u'm', u'a', u'../a', u'../b', u'/n', u'../f', u'/sub/c', u'./m', u'../sub/a']}


def map_case(w, rng):
    w.h += 1
    root = FIELDS()
    few = rng.sample([u'a', u'b', u'ab', u'A', u'1', u'2', u'', u'x', u'AB', u'0'], rng.choice([1, 2, 3, 4]))
    val = lambda: rng.choice(few)
    data = {u'a': val(), u'b': val(), u'n': val(), u'f': val(), u'sub': {u'c': val(), u'm': val(), u'a': val()}}
    root.set(data)
    where = rng.choice(['', '', 'sub'])
    el = root[u'sub'] if where else root
    paths = [rng.choice(PATHS[where]) for _ in range(rng.randint(2, 4))]
    name = rng.choice(['MapEqual', 'ValuesEqual', 'UnisEqual'])
    cf = dict(CF, paths=paths, cmp=rng.choice([u'eq', u'value', u'u', u'nocase', u'length']))
    fields = [facts_of(el.find(p, single=True)) for p in paths]
    msgs = [[u'unequal', {'f': u's', 'a': rng.choice([u'%(labels)s/%(last_label)s of %(label)s', u'x']), 'b': u'', 'key': u''}]] if rng.random() < 0.3 else []
    judge(w, name, cf, msgs, rng.choice(['kw', 'sub']), rng.random() < 0.4, el, dict(facts_of(el, False), fields=fields))


def sequence(kind, label, child, values, member='s', nest=False):
    c = {'s': String, 'i': Integer, 'd': Dict.of(String.named(u'k'), String.named(u'z'))}[member]
    c = c.named(child[0])
    if child[1]:
        c = c.using(label=child[1])
    K = {'list': List, 'array': Array, 'mv': MultiValue, 'joined': JoinedString}[kind]
    if kind == 'joined':
        s = K.using(member_schema=c, prune_empty=False)
    else:
        s = K.of(c)
    s = s.named(u'seq')
    if label:
        s = s.using(label=label)
    if nest:
        root = Dict.of(s, String.named(u'other'))()
        el = root[u'seq']
    else:
        el = s()
    for v in values:
        if kind == 'joined' or member == 'd':
            m = el.member_schema()
            m.set(v)
            el.append(m)
        else:
            el.append(v)
    return el


SEQ_MSGS = {
    'f': [[u'failure', {'f': u's', 'a': u'%(label)s %(child_label)s', 'b': u'', 'key': u''}]],
    'r': [[u'range', {'f': u't', 'a': u'one %(child_label)s', 'b': u'%(minimum)s-%(maximum)s %(child_label)ss', 'key': u'minimum'}]],
    'e': [[u'exact', {'f': u's', 'a': u'%(minimum)i', 'b': u'', 'key': u''}]]}


def count_case(w, rng):
    w.h += 1
    kind = rng.choice(['list', 'list', 'array', 'mv', 'joined'])
    member = rng.choice('si') if kind != 'list' else rng.choice('sid')
    n = rng.choice([0, 0, 1, 1, 2, 3, 4, 7])
    one = {'s': lambda: rng.choice([u'', u'a', u'abc', u'a,b', u'zz']), 'i': lambda: rng.choice([0, 1, 77, u'x', None]),
           'd': lambda: {u'k': rng.choice([u'', u'v']), u'z': u''}}[member]
    child = (rng.choice([u'wish', u'c']), rng.choice([None, None, u'A Child']))
    el = sequence(kind, rng.choice([None, u'The Seq']), child, [one() for _ in range(n)], member, rng.random() < 0.4)
    name = rng.choice(['HasAtLeast', 'HasAtMost', 'HasBetween'])
    cf = dict(CF, lo=max(0, n + rng.randint(-1, 1)), hi=max(0, n + rng.randint(-1, 2)))
    if rng.random() < 0.3:
        cf['lo'] = rng.randint(0, 2)
        cf['hi'] = rng.randint(0, 2)
    if name == 'HasBetween' and cf['lo'] > cf['hi']:
        cf['lo'], cf['hi'] = cf['hi'], cf['lo']
    msgs = []
    if rng.random() < 0.3:
        msgs = SEQ_MSGS['f'] if name != 'HasBetween' else SEQ_MSGS[rng.choice('re')]
    e = dict(facts_of(el, False), members=[facts_of(c, member != 'd') for c in el.children], child=child[1] or child[0])
    judge(w, name, cf, msgs, rng.choice(['kw', 'sub']), rng.random() < 0.4, el, e)
    if rng.random() < 0.15:
        lo, hi = rng.randint(-2, 3), rng.randint(-2, 3)
        try:
            if rng.random() < 0.5:
                validation.HasBetween(minimum=lo, maximum=hi)
            else:
                type('Sub', (validation.HasBetween,), {'minimum': lo, 'maximum': hi})()
            res = u'ok'
        except Exception as x:
            res = exc_name(x)
        w.rec({'h': w.h, 'op': {'o': 'make', 'lo': lo, 'hi': hi}, 'res': res})


def dup_facts(c, member):
    if member != 'd':
        return facts_of(c)
    # one text stands for the whole value
    return {'v': typed(canon(c.value)), 'u': txt(c.u), 'name': txt(c.name or u''), 'label': txt(c.label)}


def duplicates(w, el, cf, msgs, style, through, label, member):
    kids = list(el.children)
    es = [dup_facts(c, member) for c in kids]
    base = dict(members=es, container=label)
    v = construct('NotDuplicated', cf, msgs, style)
    res = []
    if through:
        for c in kids:
            c.validators = [v]
        try:
            el.validate()
            res = [txt(repr(c.valid)) for c in kids]
        except Exception as x:
            res = [exc_name(x)] * len(kids)
    else:
        for c in kids:
            try:
                res.append(txt(repr(v(c, None))))
            except Exception as x:
                res.append(exc_name(x))
    others = [x for x in everything(el) if all(x is not c for c in kids)]
    quiet = all(not x.errors for x in others) and all(not x.warnings for x in everything(el))
    for i, c in enumerate(kids):
        w.rec({'h': w.h, 'op': {'o': 'check', 'v': 'NotDuplicated', 'cf': cf, 'e': dict(es[i], at=i + 1, **base), 'msgs': msgs},
               'res': res[i], 'errors': [txt(m) for m in c.errors], 'quiet': quiet})


def dup_case(w, rng):
    w.h += 1
    if rng.random() < 0.03:
        try:
            v = validation.NotDuplicated()
            v(String.named(u'x')(u'y'), None)
            res = u'ok'
        except Exception as x:
            res = exc_name(x)
        w.rec({'h': w.h, 'op': {'o': 'orphan'}, 'res': res})
        return
    kind = rng.choice(['list', 'list', 'array', 'mv', 'joined'])
    member = rng.choice('si') if kind != 'list' else rng.choice('sid')
    few = {'s': [u'a', u'A', u'ab', u'', u'aB', u'b'], 'i': [1, 2, u'x', u'y', None, 0],
           'd': [{u'k': u'1', u'z': u''}, {u'k': u'', u'z': u'1'}, {u'k': u'1', u'z': u'1'}, {u'k': u'', u'z': u''}]}[member]
    few = rng.sample(few, rng.randint(1, len(few)))
    n = rng.randint(1, 6)
    label = rng.choice([None, u'The Seq'])
    el = sequence(kind, label, (u'wish', rng.choice([None, u'A Wish'])), [rng.choice(few) for _ in range(n)], member, rng.random() < 0.4)
    # histories: the order counts, so shuffle the container around
    if kind == 'list' and rng.random() < 0.5:
        for _ in range(rng.randint(1, 3)):
            o = rng.choice(['reverse', 'insert', 'pop', 'sort', 'slice'])
            if o == 'reverse':
                el.reverse()
            elif o == 'insert' and member != 'd':
                el.insert(rng.randint(0, len(el)), rng.choice(few))
            elif o == 'pop' and len(el) > 1:
                el.pop(rng.randrange(len(el)))
            elif o == 'sort' and member == 's':
                el.sort(key=lambda x: (x.element if hasattr(x, 'element') else x).u)
            elif o == 'slice' and len(el) > 2:
                del el[1:2]
    cf = dict(CF, cmp=rng.choice([u'eq', u'eq', u'value', u'u', u'nocase', u'length', u'longer', u'never', u'always']))
    if member == 'd' and cf['cmp'] in (u'nocase', u'length', u'longer'):
        cf['cmp'] = u'eq'
    msgs = [[u'failure', {'f': u's', 'a': rng.choice([u'%(label)s %(position)s', u'%(position)i of %(container_label)s', u'x']), 'b': u'', 'key': u''}]] if rng.random() < 0.5 else []
    duplicates(w, el, cf, msgs, rng.choice(['kw', 'sub']), rng.random() < 0.5, label or u'seq', member)


def replay(w, n, b):
    """A case the specification chose."""
    w.h += 1
    cf = dict(CF, **b['cf'])
    name = b['v']
    style = ['pos', 'kw', 'sub'][n % 3]
    if name in ('HasAtLeast', 'HasAtMost', 'HasBetween', 'NotDuplicated'):
        kind = ['list', 'array', 'mv', 'joined'][n % 4]
        el = sequence(kind, None, (u'wish', None), [untyped(v) for v in b['values']], 's', n % 5 == 0)
        if name == 'NotDuplicated':
            duplicates(w, el, cf, [], style, n % 7 < 3, u'seq', 's')
        else:
            e = dict(facts_of(el, False), members=[facts_of(c) for c in el.children], child=u'wish')
            judge(w, name, cf, [], style, n % 7 < 3, el, e)
    elif name in ('MapEqual', 'ValuesEqual', 'UnisEqual'):
        names = u'abcdefg'[:len(b['values'])]
        fs = [(Integer if v['k'] == u'int' else String).named(c) for c, v in zip(names, b['values'])]
        el = Dict.named(u'form').of(*fs)()
        el.set(dict((c, untyped(v)) for c, v in zip(names, b['values'])))
        cf['paths'] = list(names)
        fields = [facts_of(el[c]) for c in names]
        judge(w, name, cf, [], style, n % 7 < 3, el, dict(facts_of(el, False), fields=fields))
    else:
        v = untyped(b['values'][0])
        c = (Boolean if isinstance(v, bool) else Integer if isinstance(v, int) else String.using(strip=False)).named(u'nm')
        el = c() if v is None else c(v)
        judge(w, name, cf, [], style, n % 7 < 3, el, facts_of(el))


CASES = [scalar_case, scalar_case, scalar_case, map_case, count_case, dup_case]

if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for n, line in enumerate(open(prof[1:])):
            guarded(w, replay, w, n, json.loads(line))
    else:
        rng = random.Random('rules-%s-%d-%d' % (prof, seed, shard))
        while w.n < budget:
            guarded(w, rng.choice(CASES), w, rng)
    w.close()
