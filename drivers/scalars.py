# -*- coding: utf-8 -*-
"""Histories of single scalar elements (C05)."""
from __future__ import with_statement
import datetime
import decimal
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from flatland import Constrained
from flatland.util import Unspecified

PREDS = {
    'even': lambda el, v: isinstance(v, (int, long)) and not isinstance(v, bool) and v % 2 == 0,
    'short': lambda el, v: v is not None and len(canon(v)) <= 5,
    'notnone': lambda el, v: v is not None,
    'always': lambda el, v: True,
    'never': lambda el, v: False}


class Thing(object):
    def __init__(self, text, truth=True):
        self.text, self.truth = text, truth

    def __unicode__(self):
        return self.text

    def __str__(self):
        return self.text.encode('ascii', 'replace')

    def __nonzero__(self):
        return self.truth


class SubStr(unicode):
    pass


class SubInt(int):
    pass


class SubDate(datetime.date):
    pass


TEXTS = [u'', u' ', u'a', u' a ', u'abc', u'1', u'0', u'12', u' 12 ', u'-3', u'+4', u'-0', u'007', u'-0.5', u'-.25', u'\t\n', u'1.5', u' -2.50 ', u'1e3',
         u'1_000', u'1,5', u'0x10', u'12L', u'--1', u'- 1', u'\u0661\u0662', u'\uff11', u'99999999999999999999', u'nan', u'NaN',
         u'sNaN', u'-nan', u'inf', u'-Infinity', u'1e400', u'.5', u'5.', u'.', u'on', u'off', u'true', u'True', u'TRUE',
         u'false', u'False', u'yes', u'no', u' on', u'1 ', u'None', u'\u2003x\u2003', u'\xa05\xa0', u'caf\xe9', u'\x00', u'\U0001d54f',
         u'2020-02-29', u'2021-02-29', u'2000-02-29', u'1900-02-29', u'2020-13-01', u'2020-00-01', u'2020-12-31', u'2020-1-1',
         u' 2020-02-28 ', u'2020-02-28\n', u'0001-01-01', u'0000-01-01', u'9999-12-31', u'20200101', u'2020-02-28x', u'x2020-02-28',
         u'2020-06-31', u'2020-06-30', u'12:34:56', u'24:00:00', u'23:59:59', u'23:60:00', u'00:00:00', u'23:59:60', u' 01:02:03\t',
         u'1:2:3', u'12:34', u'12:34:56.7', u'2020-02-29 12:34:56', u'2021-02-29 12:34:56', u'2020-02-29T12:34:56',
         u'2020-02-29 24:00:00', u'2020-02-29  12:34:56', u'2020-02-29', u'2020-02-29 12:34', u' 2020-01-01 00:00:00 ',
         u'\u0662\u0660\u0662\u0660-01-01', u'2020\u201301-01', u'2020-02-28 \n', u'12:34:56\n', u'12:34:56Z', u'-020-01-01', u'+020-01-01']


def value(r):
    k = r.randrange(12)
    if k < 6:
        x = r.choice(TEXTS)
        c = r.random()
        if c < 0.15:
            return x + r.choice([u' ', u'\n', u'\t', u'\u2003', u'\x1c', u'a', u'0'])
        if c < 0.3:
            return r.choice([u' ', u'\n', u'-', u'0', u'\u2003']) + x
        if c < 0.4 and all(ord(q) < 256 for q in x):
            return x.encode('latin-1')
        if c < 0.45:
            return SubStr(x)
        return x
    if k == 6:
        return r.choice([0, 1, -1, 7, 12, -40, 123456, 2 ** 31, -2 ** 40, True, False, SubInt(6)])
    if k == 7:
        return r.choice([0.0, 1.0, -1.5, -0.5, 2.75, 1e20, float('inf'), float('nan'), 0.1])
    if k == 8:
        return decimal.Decimal(r.choice(['0', '1', '-2.5', '-0.75', '1E+3', 'NaN', 'Infinity', '0.10']))
    if k == 9:
        return r.choice([datetime.date(2020, 2, 29), datetime.date(1, 1, 1), datetime.time(1, 2, 3), datetime.time(4, 5, 6, 789),
                         datetime.datetime(2020, 2, 29, 1, 2, 3), datetime.datetime(1999, 12, 31, 23, 59, 59, 1), SubDate(2010, 3, 4)])
    if k == 10:
        return r.choice([None, None, [], [1], {}, {u'a': 1}, (), (1, 2), '\xff', 'a\xe9', '\xa05'])
    return r.choice([Thing(u'5'), Thing(u' x '), Thing(u'', False), Thing(u'2020-01-01'), Thing(u'caf\xe9'), object])


def fitting(r, s):
    """Often a word the element has been told about."""
    words = []
    if s['k'] == 'bool':
        words = [s['true'], s['false']] + list(s['tsyn']) + list(s['fsyn'])
    elif s['k'] == 'enum':
        words = [v.split(u':', 1)[1] for v in s['vals']]
        if s['kids'][0]['k'] == 'bool':
            return fitting(r, s['kids'][0])
    if not words or r.random() < 0.5:
        return value(r)
    x = r.choice(words)
    return r.choice([x, x, x, x, x + u' ', u' ' + x, x.upper(), SubStr(x)])


FMTS = [None, None, u'%.2f', u'%e', u'%.0f', u'%010.3f']


def some_schema(r):
    k = r.choice(['str', 'int', 'int', 'long', 'bool', 'bool', 'float', 'dec', 'date', 'date', 'time', 'datetime', 'enum', 'enum', 'constr', 'constr'])
    return scalar_schema(r, k)


def scalar_schema(r, k, name=None):
    kw = {}
    if k in ('str', 'date', 'time', 'datetime'):
        kw['strip'] = r.random() < 0.6
    if k in ('int', 'long', 'float', 'dec'):
        kw['signed'] = r.random() < 0.6
    if k in ('int', 'long'):
        kw['w'] = r.choice([0, 0, 2, 4])
    if k in ('float', 'dec'):
        kw['fmt'] = r.choice(FMTS) or u''
    if k == 'bool' and r.random() < 0.5:
        kw['true'], kw['false'] = r.choice([(u'yes', u'no'), (u'1', u'0'), (u'true', u''), (u'on', u'None'), (u'a', u'abc'), (u'1', u'1')])
        if r.random() < 0.6:
            kw['tsyn'], kw['fsyn'] = r.choice([([], []), ([u'TRUE', u' on'], [u'0', u'']), ([u'1', u'caf\xe9'], [u'no']), ([u'a'], [u'a', u'']), ([u'1', u'on', u'12'], [u'12', u'0', u'on', u'true'])])
    if k == 'enum':
        c = r.choice(['str', 'str', 'int', 'date', 'bool'])
        vals = {'str': [[u's:a', u's:abc'], [u's:', u's:1', u'n:'], [u's: a ', u's:12'], []],
                'int': [[u'i:1', u'i:12', u'i:-3'], [u'i:0', u'n:'], [u'i:7']],
                'date': [[u'date:2020-02-29', u'date:2020-12-31']], 'bool': [[u'b:1'], [u'b:0', u'b:1']]}
        return schema(k, name, [scalar_schema(r, c)], vals=r.choice(vals[c]))
    if k == 'constr':
        c = r.choice(['str', 'int', 'int', 'date', 'float', 'bool', 'time', 'dec'])
        pred = r.choice(['even', 'short', 'notnone', 'always', 'never', 'even' if c == 'int' else 'short'])
        return schema(k, name, [scalar_schema(r, c)], pred=pred)
    return schema(k, name, **kw)


def options(s):
    k, o = s['k'], {}
    if k in ('str', 'date', 'time', 'datetime') and not s['strip']:
        o['strip'] = False
    if k in ('int', 'long', 'float', 'dec') and not s['signed']:
        o['signed'] = False
    if k in ('int', 'long') and s['w']:
        o['format'] = u'%0' + txt(s['w']) + u'i'
    if k in ('float', 'dec') and s.get('fmt'):
        o['format'] = s['fmt']
    if k == 'bool':
        o.update(true=s['true'], false=s['false'], true_synonyms=tuple(s['tsyn']), false_synonyms=tuple(s['fsyn']))
    if k == 'enum':
        o.update(child_type=build(s['kids'][0]), valid_values=tuple(native(v) for v in s['vals']))
    if k == 'constr':
        o.update(child_type=build(s['kids'][0]))
        if s['pred'] != 'never':
            o.update(valid_value=PREDS[s['pred']])
    return o


def native(v):
    kind, rest = v.split(u':', 1)
    if kind == u'date':
        return datetime.date(*[int(x) for x in rest.split(u'-')])
    if kind == u'b':
        return rest == u'1'
    return uncanon(v)


def base(s):
    return Constrained if s['k'] == 'constr' else CLASSES[s['k']]


def build(s):
    cls = base(s)
    if s['name'] != NONE:
        cls = cls.named(s['name'])
    o = options(s)
    if s['k'] == 'enum':
        return cls.using(child_type=o['child_type']).valued(*o['valid_values'])
    return cls.using(**o) if o else cls


def leaf_fmt(s):
    while s['kids']:
        s = s['kids'][0]
    return s.get('fmt') or None


def state(el):
    u = safe(lambda: el.u)
    return {'emp': ask(lambda: el.is_empty), 'v': safe(lambda: canon(el.value)), 'u': txt(u), 'utype': isinstance(u, unicode) and not txt(u).startswith(u'exc:')}


def ask(fn):
    try:
        x = fn()
    except Exception as e:
        return exc_name(e)
    return u'T' if x is True else u'F' if x is False else u'?' + txt(repr(x))


class One(object):
    def __init__(self, w, s, how):
        self.w, self.s, self.how = w, s, how
        self.fmt = leaf_fmt(s)
        w.h += 1
        self.sc = unschema(s)
        self.el = None

    def rec(self, op, ret, raw, **kw):
        r = dict({'h': self.w.h, 'op': op, 'sc': self.sc, 'ret': ret, 'raw': raw, 'pv': pv(None)}, **kw)
        r.update(state(self.el))
        self.w.done()
        self.w.rec(r)

    def new(self, init=(), default=()):
        kw = options(self.s) if self.how == 'ctor' else {}
        if default:
            kw['default'] = default[0]
        cls = build(self.s) if self.how == 'class' else base(self.s)
        if self.how == 'ctor' and self.s['name'] != NONE:
            kw['name'] = self.s['name']
        self.w.doing(('new', repr(self.s), repr(init)))
        if init:
            p = pv(init[0], True, self.fmt)
            self.el = cls(init[0], **kw)
            self.rec('new', u'', self.el.raw is init[0], init=True, pv=p)
        else:
            self.el = cls(**kw)
            self.rec('new', u'', True, init=False)

    def set(self, x):
        p = pv(x, True, self.fmt)
        self.w.doing(('set', repr(x), repr(self.s)))
        ret = ask(lambda: self.el.set(x))
        self.rec('set', ret, self.el.raw is x, pv=p)

    def again(self):
        x = self.el.value
        self.w.doing(('again', repr(x), repr(self.s)))
        ret = ask(lambda: self.el.set(x))
        self.rec('again', ret, self.el.raw is x)

    def flat(self, pairs):
        ps = [pv(b, True, self.fmt) for a, b in pairs]
        self.w.doing(('flat', repr(pairs), repr(self.s)))
        ret = ask(lambda: self.el.set_flat(pairs))
        if ret == u'?None':
            ret = u''
        self.rec('flat', ret, True, pairs=[list(p) for p in pairs], pvs=ps)

    def ser(self, x):
        """serialize() of any value; the element itself stays as it is"""
        p = pv(x, True, self.fmt)
        if isinstance(x, Thing) and any(ord(c) > 127 for c in p['s']):
            return                     # Jython goes by str() in subclasses of unicode
        if p['t'] == 'y' or type(x) in (bool, long, SubInt, SubStr, SubDate) or u'?' in (p['fl'].get('fmt'), p['dec'].get('fmt')):
            return
        self.w.doing(('serialize', repr(x), repr(self.s)))
        try:
            ret = self.el.serialize(x)
            if not isinstance(ret, unicode):
                ret = u'?' + repr(ret)
        except Exception as e:
            ret = exc_name(e)
        self.rec('ser', ret, True, pv=p)

    def default(self, d):
        self.w.doing(('default', repr(self.s)))
        ret = ask(lambda: self.el.set_default())
        if ret == u'?None':
            ret = u''
        if d:
            self.rec('default', ret, True, has=True, pv=pv(d[0], True, self.fmt))
        else:
            self.rec('default', ret, True, has=True)


def history(w, r, shard):
    s = some_schema(r)
    nm = r.choice([None, u'n', u'n'])
    s['name'] = nm or NONE
    one = One(w, s, r.choice(['class', 'class', 'ctor']))
    d = ()
    if r.random() < 0.3:
        d = (value(r),)
    one.new((value(r),) if r.random() < 0.3 else (), d)
    for _ in range(r.choice([3, 6, 10])):
        k = r.randrange(10)
        if k < 6:
            one.set(fitting(r, s))
            if r.random() < 0.2:
                one.ser(value(r))
        elif k < 8:
            one.again()
        elif k == 8:
            ks = [u'n', u'', u'm', u'n_', u'N']
            one.flat([(r.choice(ks), unicode(r.choice(TEXTS))) for _ in range(r.randrange(4))])
        else:
            one.default(d)


def replay_one(w, b):
    s = b['sc']
    one = One(w, s, 'class')
    one.new()
    for x in b['inputs']:
        one.set(rebuild(x))
        one.again()


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for line in open(prof[1:]):
            guarded(w, replay_one, w, json.loads(line))
    else:
        rng = random.Random(seed * 7919 + shard * 104729)
        while w.n < budget:
            guarded(w, history, w, rng, shard)
    w.close()
