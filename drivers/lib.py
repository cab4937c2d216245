# -*- coding: utf-8 -*-
"""Shared parts of the conformance drivers (Python 2.7 / Jython).

A driver plays histories of public operations on the real library and writes
one JSON record per operation: the operation, its result and the complete
projection of the state reachable through the public API.  It never judges;
the TLA+ trace specifications do.
"""
import copy
import datetime
import decimal
import json
import os
import random
import re
import sys
import threading
import time
import traceback

from flatland import (
    Array, Boolean, Date, DateTime, DateYYYYMMDD, Decimal, Dict, Element, Enum,
    Float, Integer, JoinedString, List, Long, MultiValue, SparseDict, String,
    Time)
from flatland.schema.base import Slot
from flatland.util import Unspecified

NONE = u'~'


def txt(x):
    if isinstance(x, unicode):
        return x
    if isinstance(x, str):
        return x.decode('latin-1')
    return unicode(x)


# --------------------------------------------------------------------------
# output, with a watchdog for calls that never return

class Writer(object):
    def __init__(self, path, limit=60):
        self.f = open(path, 'w')
        self.n = 0
        self.h = 0
        self.pending = None
        self.since = time.time()
        self.limit = limit
        self.lock = threading.Lock()
        t = threading.Thread(target=self._watch)
        t.setDaemon(True)
        t.start()

    def _watch(self):
        while True:
            time.sleep(2)
            p = self.pending
            if p is not None and time.time() - self.since > self.limit:
                with self.lock:
                    self.f.write(json.dumps(
                        {'h': self.h, 'hang': True, 'doing': repr(p)[:2000]}) + '\n')
                    self.f.flush()
                os._exit(77)

    def doing(self, what):
        self.since = time.time()
        self.pending = what

    def done(self):
        self.pending = None

    def rec(self, r):
        with self.lock:
            self.f.write(json.dumps(r) + '\n')
            self.n += 1

    def close(self):
        self.pending = None
        with self.lock:
            self.f.close()


# --------------------------------------------------------------------------
# canonical values

def canon(v, schema=None):
    if v is None:
        return u'n:'
    if isinstance(v, bool):
        return u'b:1' if v else u'b:0'
    if isinstance(v, basestring):
        return u's:' + txt(v)
    if isinstance(v, (int, long)):
        return u'i:%d' % v
    if isinstance(v, float):
        return u'f:' + txt(repr(v))
    if isinstance(v, decimal.Decimal):
        return u'c:' + txt(str(v))
    if isinstance(v, datetime.datetime):
        return u'dt:' + txt(v.isoformat(' '))
    if isinstance(v, datetime.date):
        return u'date:' + txt(v.isoformat())
    if isinstance(v, datetime.time):
        return u'time:' + txt(v.isoformat())
    if isinstance(v, (list, tuple)):
        kid = schema['kids'][0] if schema and schema['kids'] else None
        return u'[' + u','.join(canon(x, kid) for x in v) + u']'
    if isinstance(v, dict):
        kids = dict((k['name'], (i, k)) for i, k in enumerate(schema['kids'])) if schema else {}
        ks = sorted(v, key=lambda k: (kids[k][0] if k in kids else 999, k))
        return u'{' + u','.join(
            txt(k) + u'=' + canon(v[k], kids[k][1] if k in kids else None) for k in ks) + u'}'
    return u'o:' + txt(type(v).__name__)


def exc_name(e):
    return u'exc:' + txt(type(e).__name__)


def facts(x, fmt1=None):
    """What Python's own parsers say about x (used for Float/Decimal/int())."""
    out = {}
    if isinstance(x, basestring):
        try:
            out['st'] = unicode(x).strip()
        except UnicodeDecodeError:
            pass
    fmt1 = fmt1 or u'%f'
    s = x.strip() if isinstance(x, basestring) else x
    for name, fn, fmt in (('ii', int, None), ('fl', float, fmt1),
                          ('dec', decimal.Decimal, fmt1)):
        try:
            y = fn(s)
        except (ValueError, TypeError, ArithmeticError):
            out[name] = {'ok': False, 'v': u'', 'neg': False, 'fmt': u''}
            continue
        try:
            f = (fmt % y) if fmt else u''
        except Exception:
            f = u'?'
        try:
            neg = bool(y < 0)
        except Exception:
            neg = True          # not a number that could be called unsigned
        v = canon(y)
        out[name] = {'ok': True, 'v': v[v.index(u':') + 1:], 'neg': neg, 'fmt': f}
    return out


def pv(x, deep=False, fmt=None):
    """A Python input as the specification sees it."""
    r = {'ks': [], 'l': [], 'tr': False, 'full': u''}
    try:
        r['tr'] = bool(x)
    except Exception:
        pass
    if x is None:
        r.update(t='n', s=u'None')
    elif isinstance(x, bool):
        r.update(t='b', s=txt(str(x)))
    elif isinstance(x, str) and any(ord(c) > 127 for c in x):
        r.update(t='y', s=unicode(x, errors='replace'))
    elif isinstance(x, basestring):
        r.update(t='s', s=txt(x))
    elif isinstance(x, (int, long)):
        r.update(t='i', s=u'%d' % x)
    elif isinstance(x, float):
        r.update(t='f', s=txt(str(x)))
    elif isinstance(x, decimal.Decimal):
        r.update(t='c', s=txt(str(x)))
    elif isinstance(x, datetime.datetime):
        r.update(t='dt', s=txt(str(x)), full=txt(x.isoformat(' ')))
    elif isinstance(x, datetime.date):
        r.update(t='date', s=txt(str(x)), full=txt(x.isoformat()))
    elif isinstance(x, datetime.time):
        r.update(t='time', s=txt(str(x)), full=txt(x.isoformat()))
    elif isinstance(x, (list, tuple)):
        r.update(t='l', s=txt(str(x)), l=[pv(i, deep) for i in x])
    elif isinstance(x, dict):
        ks = list(x)
        r.update(t='d', s=txt(str(x)), ks=[txt(k) for k in ks], l=[pv(x[k], deep) for k in ks])
    else:
        r.update(t='o', s=txt(x))
    if deep or r['t'] in ('f', 'c', 'dt', 'date', 'time', 'o'):
        r.update(facts(x, fmt))
    return r


# --------------------------------------------------------------------------
# schemas

CLASSES = {
    'str': String, 'int': Integer, 'long': Long, 'bool': Boolean,
    'float': Float, 'dec': Decimal, 'date': Date, 'time': Time,
    'datetime': DateTime, 'enum': Enum, 'list': List, 'array': Array,
    'mv': MultiValue, 'joined': JoinedString, 'dict': Dict,
    'sdict': SparseDict, 'date3': DateYYYYMMDD}
SCALARS = set(['str', 'int', 'long', 'bool', 'float', 'dec', 'date', 'time', 'datetime', 'enum'])
SEQS = set(['list', 'array', 'mv', 'joined'])
MAPS = set(['dict', 'sdict', 'date3'])


def schema(k, name=None, kids=(), **kw):
    s = {'k': k, 'name': NONE if name is None else name, 'kids': list(kids),
         'strip': True, 'opt': False, 'prune': True, 'max': 1024, 'min': 'none',
         'pol': 'subset', 'dk': 'none', 'dv': pv(None), 'signed': True, 'w': 0,
         'true': u'1', 'false': u'', 'tsyn': [u'on', u'true', u'True', u'1'],
         'fsyn': [u'off', u'false', u'False', u'0', u''], 'vals': [],
         'jsep': u',', 'jre': False}
    if k == 'date3' and len(kids) < 3:
        s['parts'] = len(kids)
        s['kids'] = list(kids) + [schema('int', u'year', w=4, opt=kw.get('opt', False)),
                     schema('int', u'month', w=2, opt=kw.get('opt', False)),
                     schema('int', u'day', w=2, opt=kw.get('opt', False))][len(kids):]
    elif k == 'date3':
        s['parts'] = 3
    raw = kw.pop('default', None)
    s.update(kw)
    if s['dk'] in ('val', 'fac'):
        s['dv'] = pv(raw)
        s['_d'] = raw
    return s


def unschema(s):
    """The record without driver-private entries."""
    out = dict((k, v) for k, v in s.items() if not k.startswith('_'))
    out['kids'] = [unschema(k) for k in s['kids']]
    return out


def rebuild(pvr):
    """The Python value a pv record describes (plain kinds only)."""
    t = pvr['t']
    if t == 'n':
        return None
    if t == 's':
        return pvr['s']
    if t == 'i':
        return int(pvr['s'])
    if t == 'b':
        return pvr['tr']
    if t == 'l':
        return [rebuild(x) for x in pvr['l']]
    if t == 'd':
        return dict((k, rebuild(x)) for k, x in zip(pvr['ks'], pvr['l']))
    raise ValueError(t)


class Factory(object):
    """Builds element classes and remembers which schema each one has."""

    def __init__(self):
        self.by_class = {}

    def build(self, s):
        k = s['k']
        cls = CLASSES[k]
        if s['name'] != NONE:
            cls = cls.named(s['name'])
        o = {}
        if s['opt']:
            o['optional'] = True
        if k in ('str', 'date', 'time', 'datetime', 'date3') and not s['strip']:
            o['strip'] = False
        if k in ('int', 'long', 'float', 'dec') and not s['signed']:
            o['signed'] = False
        if k in ('int', 'long') and s['w']:
            o['format'] = u'%0' + txt(s['w']) + u'i'
        if k == 'bool':
            o.update(true=s['true'], false=s['false'],
                     true_synonyms=tuple(s['tsyn']), false_synonyms=tuple(s['fsyn']))
        if k in SEQS and not s['prune']:
            o['prune_empty'] = False
        if k == 'list' and s['max'] != 1024:
            o['maximum_set_flat_members'] = s['max']
        if k == 'sdict' and s['min'] == 'required':
            o['minimum_fields'] = 'required'
        if k in ('dict', 'sdict') and s['pol'] != 'subset':
            o['policy'] = s['pol']
        if k == 'joined':
            o['separator'] = s['jsep']
            if s['jre']:
                o['separator_regex'] = re.compile(
                    u'\\s*' + re.escape(s['jsep']) + u'\\s*', re.UNICODE)
        if s['dk'] == 'unspec':
            o['default'] = Unspecified
        elif s['dk'] == 'val':
            o['default'] = s['_d'] if '_d' in s else rebuild(s['dv'])
        elif s['dk'] == 'fac':
            o['default_factory'] = lambda el: copy.deepcopy(s['_d']) if '_d' in s else rebuild(s['dv'])
            if k in SCALARS or k == 'list':
                o['default'] = 3 if k == 'list' else u'2'  # the factory decides
        elif s['dk'] == 'facname':
            o['default_factory'] = lambda el: (el.name or u'') + u'!'
        if o:
            cls = cls.using(**o)
        if k == 'enum':
            child = self.build(s['kids'][0])
            cls = cls.using(child_type=child).valued(*[uncanon(v) for v in s['vals']])
        elif k in SEQS:
            cls = cls.of(self.build(s['kids'][0]))
        elif k in ('dict', 'sdict'):
            cls = cls.of(*[self.build(x) for x in s['kids']])
        elif k == 'date3':
            # the parts not given are made by the class itself
            given = s.get('parts', 0)
            if given:
                cls = cls.using(field_schema=[self.build(x) for x in s['kids'][:given]])
            for f, n in list(zip(s['kids'], (u'year', u'month', u'day')))[given:]:
                assert f['name'] == n
        self.by_class[cls] = s
        return cls

    def schema_of(self, el):
        return self.by_class.get(type(el))


def uncanon(v):
    kind, rest = v.split(u':', 1)
    return {'s': lambda: rest, 'i': lambda: int(rest), 'n': lambda: None}[kind]()


# --------------------------------------------------------------------------
# observing a tree through its public interface

def children_of(el):
    return list(el.children)


def walk(root, cap=3000):
    """Preorder ids of everything reachable through .children."""
    order, ids = [], {}
    stack = [root]
    while stack:
        el = stack.pop()
        if id(el) in ids:
            continue
        ids[id(el)] = len(order)
        order.append(el)
        if len(order) > cap:
            raise RuntimeError('tree too large')
        stack.extend(reversed(children_of(el)))
    return order, ids


def safe(fn):
    try:
        return fn()
    except Exception as e:
        return exc_name(e)


def observe(root, sep, fac, kinds=None):
    order, ids = walk(root)
    schemas = {0: fac.schema_of(root)}

    def num(el):
        return ids.get(id(el), -1)

    def find(base, path):
        try:
            return num(base.el(path))
        except Exception:
            return -2

    nodes = []
    for i, el in enumerate(order):
        s = schemas.get(i)
        kids = children_of(el)
        k = s['k'] if s else '?'
        if s:
            for c in kids:
                if k in MAPS:
                    m = [x for x in s['kids'] if x['name'] == c.name]
                    cs = m[0] if m else None
                elif k in SEQS:
                    cs = s['kids'][0]
                else:
                    cs = None
                schemas.setdefault(num(c), cs)
        fq = safe(el.fq_name)
        n = {'k': k, 'u': txt(safe(lambda: el.u)),
             'val': safe(lambda: canon(el.value, s)),
             'opt': safe(lambda: u'T' if el.optional else u'F'),
             'emp': safe(lambda: u'T' if el.is_empty else u'F'),
             'flat': safe(lambda: el.flattened_name(sep)), 'fq': fq,
             'name': NONE if el.name is None else txt(el.name),
             'el': [find(el, fq), find(root, fq)],
             'anc': [num(p) for p in el.parents if not isinstance(p, Slot)],
             'root': num(el.root),
             'path': [num(p) for p in el.path if not isinstance(p, Slot)],
             'all': [num(c) for c in el.all_children],
             'kids': [num(c) for c in kids]}
        if isinstance(el, dict):
            by = dict((id(el[key]), key) for key in el.keys())
            n['kn'] = [txt(by.get(id(c), u'?')) for c in kids]
            n['idx'] = [num(el[key]) if key != u'?' else -1 for key in n['kn']]
            n['it'] = [num(el[by[id(c)]]) if id(c) in by else -1 for c in kids]
        elif isinstance(el, list):
            n['kn'] = []
            n['idx'] = [num(el[j]) for j in range(len(el))]
            n['it'] = [num(c) for c in el]
        else:
            n['kn'], n['idx'], n['it'] = [], [], []
        nodes.append(n)
    flat = safe(lambda: [[txt(a), txt(b)] for a, b in root.flatten(sep)])
    if not isinstance(flat, list):
        flat = [[flat, flat]]
    return {'nodes': nodes, 'flatten': flat}


def guarded(w, fn, *args):
    """Run one history; what the library does not survive is a record too."""
    try:
        return fn(*args)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        w.done()
        w.rec({'h': w.h, 'crash': txt(traceback.format_exc())[-3000:]})


def main_args():
    """driver.py <profile> <out> <seed> <shard> <budget>"""
    prof, out, seed, shard, budget = sys.argv[1:6]
    return prof, out, int(seed), int(shard), int(budget)
