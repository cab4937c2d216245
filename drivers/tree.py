# -*- coding: utf-8 -*-
"""Histories of element-tree operations (C01-C04, C10, C12, C13, C14, C23)."""
import collections
import datetime
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa

SEPS = [u'_', u'_', u'_', u'.', u'__', u'-', u'|', u'^', u'$', u'*', u'+', u'[', u')', u'?', u'\\', u':', u' ']
NAMES = [u'a', u'b', u'ab', u'a1', u'x', u'abc', u'l', u'0', u'12', u'x(', u'$n', u'A', u'n*']


# values a default may have that are false but not None
FALSE_DEFAULTS = {'str': [u''], 'int': [0, u'', u'0'], 'long': [0], 'bool': [False], 'array': [[]], 'mv': [[]], 'list': [[]],
                  'joined': [u'', []], 'dict': [{}], 'sdict': [{}], 'date': [u''], 'time': [u''], 'date3': [u'']}


class AsDict(object):
    """A record that is no tuple."""
    def __init__(self, pairs):
        self.pairs = pairs

    def _asdict(self):
        return collections.OrderedDict(self.pairs)


class Posted(object):
    """What a web framework may hand over: no dict, but with items()."""
    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return list(self.pairs)


class Keyed(object):
    """The least that dict.update() takes for a mapping."""
    def __init__(self, pairs):
        self.d = collections.OrderedDict(pairs)

    def keys(self):
        return list(self.d)

    def __getitem__(self, key):
        return self.d[key]


def shaped(val, form):
    """The same mapping as another dict-like object."""
    if form == 'keyed':
        return Keyed(val)
    if form == 'asdict':
        return AsDict(val.items())
    if form == 'ordered':
        return collections.OrderedDict(val)
    if form == 'named':
        return collections.namedtuple('Given', [str(k) for k in val])(**dict((str(k), v) for k, v in val.items()))
    return val


def some_form(g, op, val, s):
    if isinstance(val, dict):
        forms = ['', 'keyed', 'ordered', 'asdict']
        if val and s['k'] == 'dict' and all(re.match('^[a-zA-Z]+$', k) for k in val):
            forms.append('named')
        op['form'] = g.pick(forms)


class Gen(object):
    def __init__(self, rng, **kw):
        self.r = rng
        self.scalars = kw.get('scalars', ['str', 'str', 'str', 'int', 'int', 'bool', 'date', 'enum', 'long', 'time', 'datetime'])
        self.containers = kw.get('containers', ['list', 'list', 'dict', 'dict', 'sdict', 'array', 'joined', 'mv', 'date3'])
        self.default_rate = kw.get('default_rate', 0.1)
        self.names = kw.get('names', NAMES)
        self.prune = kw.get('prune', 0.6)
        self.small_max = kw.get('small_max', 0.15)
        self.policies = kw.get('policies', False)

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    # ---- values
    TEXTS = [u'', u'a', u'b', u' b ', u'xy', u'x,y', u"q'", u'"', u'\\', u't\t', u'0', u'12', u'on', u'a b', u'l_0', u'<&>']

    def value(self, s, ok=False, depth=0):
        """A Python value for an element of schema s; ok: never raises."""
        r, k = self.r, s['k']
        if k == 'str':
            return self.pick(self.TEXTS + [None, 5, True, u'v%d' % r.randrange(4)])
        if k in ('int', 'long'):
            return self.pick([r.randrange(-3, 30), r.randrange(5), u'%d' % r.randrange(30), u' 7 ', u'x', None, u'', u'007', u'+4', u'-2', True, u'1.5'])
        if k == 'bool':
            return self.pick([True, False, u'on', u'off', u'maybe', None, 0, 1, u'', u'1', u'True', u'x'])
        if k == 'date':
            return self.pick([u'2020-02-29', u'2021-02-29', u' 1999-12-31 ', u'2020-1-1', u'x', u'', None, 5,
                              datetime.date(2020, 1, 2), datetime.date(99, 3, 4), u'0000-01-01', u'2020-13-01'])
        if k == 'time':
            return self.pick([u'10:20:30', u'24:00:00', u'1:2:3', u'', None, 4, datetime.time(1, 2, 3)])
        if k == 'datetime':
            return self.pick([u'2020-02-29 10:20:30', u'2020-02-30 10:20:30', u'2020-02-29', u'', None, datetime.datetime(2001, 2, 3, 4, 5, 6)])
        if k == 'enum':
            vals = [uncanon(v) for v in s['vals']]
            return self.pick(vals + vals + [u'nope', None, 9, u' a '])
        if k == 'date3':
            return self.pick([u'2020-02-29', u'2021-02-29', u'', None, u'x', 7, datetime.date(2020, 1, 2), u'1999-12-31', u'0031-01-01'])
        if k in ('list', 'array', 'mv'):
            if not ok and self.chance(0.06):
                return self.pick([None, 5, u'ab', u'', True])
            if self.chance(0.03) and s['kids'][0]['k'] in SCALARS:
                return u'ab'
            n = self.pick([0, 1, 1, 2, 2, 3, 4]) if depth < 2 else r.randrange(3)
            if self.chance(0.03) and s['kids'][0]['k'] in SCALARS:
                n = r.randrange(11, 14)
            return [self.value(s['kids'][0], ok, depth + 1) for _ in range(n)]
        if k == 'joined':
            if self.chance(0.6):
                return self.pick([u'', u'a', s['jsep'].join([u'a', u'b']), s['jsep'].join([u'a', u'', u'b']),
                                  s['jsep'], u' a ' + s['jsep'] + u' b', u' ' + s['jsep'], s['jsep'].join(u'12345')])
            return [self.value(s['kids'][0]) for _ in range(r.randrange(4))]
        # mappings
        fields = [f for f in s['kids'] if self.chance(0.7)]
        if s['pol'] == 'strict' and (ok or self.chance(0.7)):
            fields = list(s['kids'])
        d = dict((f['name'], self.value(f, ok, depth + 1)) for f in fields)
        if not ok and self.chance(0.08 if s['pol'] != 'duck' else 0.4):
            d[self.pick([u'zz', u'', u'a_b'])] = u'1'
            if len(d) > 1 and s['pol'] != 'duck':
                return [[u'zz', u'1']]
        if ok and s['pol'] == 'duck' and self.chance(0.3):
            d[u'zz'] = u'1'
        if self.chance(0.25):
            pairs = [[kk, vv] for kk, vv in d.items()]
            if pairs and self.chance(0.3):
                again = self.pick(pairs)[0]
                f = [f for f in s['kids'] if f['name'] == again]
                if f:
                    pairs.append([again, self.value(f[0], ok, depth + 1)])
            return pairs
        return d

    # ---- schemas
    def scalar(self, name):
        k = self.pick(self.scalars)
        kw = {}
        if k in ('str', 'date', 'time', 'datetime') and self.chance(0.2):
            kw['strip'] = False
        if k in ('int', 'long'):
            if self.chance(0.2):
                kw['signed'] = False
            if self.chance(0.2):
                kw['w'] = self.pick([2, 4])
        if k == 'bool' and self.chance(0.3):
            kw.update(self.pick([{'true': u'yes', 'false': u'no'}, {'tsyn': [u'si'], 'fsyn': [u'0']}]))
        if self.chance(0.3):
            kw['opt'] = True
        kids = []
        if k == 'enum':
            if self.chance(0.6):
                kids = [schema('str')]
                kw['vals'] = [u's:a', u's:b', u's:l']
            else:
                kids = [schema('int')]
                kw['vals'] = [u'i:1', u'i:2', u'i:7']
        s = schema(k, name, kids, **kw)
        return self.defaulted(s)

    def defaulted(self, s):
        if not self.chance(self.default_rate):
            return s
        how = self.pick(['val', 'val', 'fac', 'unspec', 'facname'])
        if how == 'facname' and s['k'] not in ('str',):
            how = 'val'
        if how == 'unspec':
            s['dk'] = 'unspec'
            return s
        if how == 'facname':
            s['dk'] = 'facname'
            return s
        if s['k'] == 'list' and self.chance(0.5):
            v = self.r.randrange(4)
        elif self.chance(0.15) and s['k'] in FALSE_DEFAULTS and s['pol'] != 'strict':
            v = self.pick(FALSE_DEFAULTS[s['k']])
        else:
            v = self.value(s, ok=True)
            if s['k'] in ('date', 'time', 'datetime', 'date3') and not isinstance(v, (basestring, type(None))):
                v = u'2020-02-29'
            if s['k'] in MAPS and not isinstance(v, (dict, basestring)):
                v = dict((a, b) for a, b in v) if s['k'] != 'date3' else u'2020-02-29'
            if s['k'] in ('array', 'mv', 'list') and not isinstance(v, list):
                v = [v]
        s['dk'] = how
        v = plain(v)
        s['_d'] = v
        s['dv'] = pv(v)
        return s

    def any(self, depth, name, allow=None):
        if depth <= 0 or self.chance(0.4):
            return self.scalar(name)
        return self.container(depth, name)

    def container(self, depth, name, k=None):
        k = k or self.pick(self.containers)
        kw = {}
        if self.chance(0.3):
            kw['opt'] = True
        anon = lambda: self.pick([None, None, self.pick(self.names)])
        if k in ('list', 'array', 'mv', 'joined'):
            kw['prune'] = self.chance(self.prune)
            if k == 'list':
                if self.chance(self.small_max):
                    kw['max'] = self.pick([1, 2, 3, 4])
                kids = [self.any(depth - 1, anon())]
            elif k == 'joined':
                kids = [self.scalar(anon()) if self.chance(0.4) else schema('str', anon())]
                kids[0]['dk'] = 'none'
                kw['jsep'] = self.pick([u',', u', ', u'|', u';'])
                if kw['jsep'] in (u',', u'|') and self.chance(0.4):
                    kw['jre'] = True
            else:
                kids = [self.scalar(anon())]
                kids[0]['dk'] = 'none'
            return self.defaulted(schema(k, name, kids, **kw))
        if k == 'date3':
            kids = []
            if self.chance(0.35):
                names = [n for n in self.names if n not in (u'year', u'month', u'day')]
                self.r.shuffle(names)
                for i in range(self.r.randrange(1, 4)):
                    part = schema('int', names[i], w=self.pick([0, 2, 4, (4, 2, 2)[i]]), opt=self.chance(0.4))
                    if self.chance(0.2):
                        part.update(dk='val', _d=3 + i, dv=pv(3 + i))
                    kids.append(part)
            if self.chance(0.15):
                kw['strip'] = False
            return self.defaulted(schema(k, name, kids, **kw))
        n = self.r.randrange(1, 4) if depth > 1 else self.r.randrange(1, 5)
        names = list(self.names)
        self.r.shuffle(names)
        kids = [self.any(depth - 1, names[i]) for i in range(min(n, 4))]
        if k == 'sdict' and self.chance(0.5):
            kw['min'] = 'required'
        if self.policies:
            kw['pol'] = self.pick(['subset', 'subset', 'strict', 'duck'])
        return self.defaulted(schema(k, name, kids, **kw))


def plain(v):
    if isinstance(v, tuple):
        return [plain(x) for x in v]
    return v


# --------------------------------------------------------------------------

class Session(object):
    def __init__(self, w, s, sep, fac=None, note=u''):
        self.w, self.s, self.sep = w, s, sep
        self.fac = fac or Factory()
        self.cls = self.fac.build(s)
        self.root = self.cls()
        w.h += 1
        self.emit({'o': 'start', 'at': [], 'note': note}, u'ok', extra={'schema': unschema(s)})

    def emit(self, op, res, extra=None, el=None):
        r = {'h': self.w.h, 'op': op, 'res': res, 'sep': self.sep}
        r.update(observe(el if el is not None else self.root, self.sep, self.fac))
        if extra:
            r.update(extra)
        self.w.rec(r)
        self.w.done()

    def locate(self, at):
        el = self.root
        for step in at:
            el = el[step] if isinstance(el, dict) else el[int(step)]
        return el

    def places(self):
        """[(at, element, schema)] for the whole tree."""
        out = []

        def go(at, el, s):
            out.append((at, el, s))
            if len(out) > 400:
                return
            if s['k'] in MAPS:
                for f in s['kids']:
                    if f['name'] in el:
                        go(at + [f['name']], el[f['name']], f)
            elif s['k'] in SEQS:
                for i in range(len(el)):
                    go(at + [txt(i)], el[i], s['kids'][0])
        go([], self.root, self.s)
        return out

    def run(self, op, val=None):
        """Perform op; returns False when the history must stop."""
        self.w.doing(op)
        if op['o'] in ('fresh', 'from_defaults', 'from_flat'):
            res = self.renew(op)
        elif op['o'] == 'compare':
            res = compare(self.locate(op['at']), self.locate(op['at2']), op)
        else:
            res = perform(self.locate(op['at']), op, val, self.fac)
        self.emit(op, res)
        return not (res.startswith(u'exc:') and op['o'] in ('set', 'mset', 'update'))

    def renew(self, op):
        """Another element of the same class; the old one is left behind."""
        try:
            if op['o'] == 'fresh':
                self.root = self.cls()
            elif op['o'] == 'from_defaults':
                self.root = self.cls.from_defaults()
            else:
                pairs = [tuple(p) for p in op['pairs']]
                if op['sep'] == u'_':
                    self.root = self.cls.from_flat(pairs)
                else:
                    self.root = self.cls()
                    self.root.set_flat(pairs, op['sep'])
            return u'ok'
        except Exception as e:
            return exc_name(e)

    def roundtrip(self, rng, as_dict):
        pairs = self.root.flatten(self.sep)
        keys = [k for k, _ in pairs]
        slots = list(range(len(pairs)))
        rng.shuffle(slots)
        # keep equal keys in their relative order
        queue = {}
        for k, v in pairs:
            queue.setdefault(k, []).append(v)
        pairs = [(keys[i], queue[keys[i]].pop(0)) for i in slots]
        given = pairs
        if as_dict and len(set(keys)) == len(keys):
            given = Posted(pairs) if rng.random() < 0.3 else dict(pairs)
        op = {'o': 'roundtrip', 'at': [], 'sep': self.sep, 'pairs': [[txt(a), txt(b)] for a, b in pairs]}
        self.w.doing(op)
        try:
            el = self.cls()
            el.set_flat(given, self.sep)
            res = u'ok'
        except Exception as e:
            res = exc_name(e)
        self.emit(op, res, el=el)


def flags(eq, ne):
    return u'ok:' + (u'T' if eq is True else u'F' if eq is False else u'?') + (
        u'T' if ne is True else u'F' if ne is False else u'?')


def compare(a, b, op):
    try:
        return flags(a == b, a != b)
    except Exception as e:
        return exc_name(e)


class Lookalike(object):
    value = None


def perform(el, op, val, fac):
    o = op['o']
    if op.get('form'):
        val = shaped(val, op['form'])
    S = lambda: slice(*[(x[1] if x[0] else None) for x in (op['a'], op['b'], op['c'])])

    def member(v):
        """wrap as an element of the member type when the op says so"""
        if op.get('el') == 'twin':
            # a class of its own that was made to the same schema
            return fac.build(fac.schema_of(el)['kids'][0])(v)
        if op.get('el'):
            return el.member_schema(v)
        return v
    try:
        if o == 'noop':
            return u'ok'
        if o == 'set':
            return u'T' if el.set(val) else u'F'
        if o == 'mset':
            return u'T' if (el.set(val, policy=op['pol']) if op['pol'] else el.set(val)) else u'F'
        if o == 'set_flat':
            pairs = [(a if a != NONE else None, b) for a, b in op['pairs']]
            if len(set(k for k, _ in pairs)) == len(pairs):
                # one key each: any form of a mapping will do as well
                form = (len(pairs) + sum(len(v) for _, v in pairs)) % 4
                pairs = [pairs, tuple(pairs), collections.OrderedDict(pairs), Posted(pairs)][form]
            el.set_flat(pairs, op['sep'])
            return u'ok'
        if o == 'set_default':
            el.set_default()
            return u'ok'
        if o == 'default_value':
            d = el.default_value
            return u'ok:unspec' if d is Unspecified else u'ok:' + canon(d)
        if o == 'compare_other':
            other = {'int': 5, 'text': u'a', 'none': None, 'value': el.value, 'u': el.u,
                     'object': object(), 'valueonly': Lookalike(),
                     'list': list(el) if isinstance(el, list) else [1],
                     'dict': dict(el) if isinstance(el, dict) else {}}[op['other']]
            return flags(el == other, el != other)
        if o == 'hash':
            hash(el)
            return u'ok'
        if o == 'append':
            el.append(member(val))
        elif o == 'extend':
            el.extend([member(v) for v in val])
        elif o == 'iadd':
            el += [member(v) for v in val]
        elif o == 'insert':
            el.insert(op['i'], member(val))
        elif o == 'setitem':
            if isinstance(el, dict):
                if op.get('el'):
                    f = [c for c in el.field_schema if c.name == op['key']]
                    val = f[0](val)
                el[op['key']] = val
            else:
                el[op['i']] = member(val)
        elif o == 'setslice':
            if op.get('two'):
                lo = op['a'][1] if op['a'][0] else 0
                hi = op['b'][1] if op['b'][0] else sys.maxint
                el[lo:hi] = [member(v) for v in val]
            else:
                el[S()] = [member(v) for v in val]
        elif o == 'delitem':
            del el[op['key'] if isinstance(el, dict) else op['i']]
        elif o == 'delslice':
            if op.get('two'):
                lo = op['a'][1] if op['a'][0] else 0
                hi = op['b'][1] if op['b'][0] else sys.maxint
                del el[lo:hi]
            else:
                del el[S()]
        elif o == 'pop':
            if isinstance(el, dict):
                x = el.pop(op['key'])
            elif op.get('bare'):
                x = el.pop()
            else:
                x = el.pop(op['i'])
            return u'ok:' + canon(x.value, fac.schema_of(x))
        elif o == 'remove':
            el.remove(member(val))
        elif o == 'reverse':
            el.reverse()
        elif o == 'sort':
            by = op['by']
            if by == 'len':
                key = lambda m: len(m.u)
            elif by == 'int':
                key = lambda m: m.value or 0
            else:
                key = lambda m: m[by].value or 0
            el.sort(key=key, reverse=op['rev'])
        elif o == 'clear':
            if isinstance(el, dict):
                el.clear()
            else:
                del el[:]
        elif o == 'index':
            return u'ok:%d' % el.index(member(val))
        elif o == 'count':
            return u'ok:%d' % el.count(member(val))
        elif o == 'contains':
            r = (op['key'] if isinstance(el, dict) else member(val)) in el
            return u'ok:T' if r else u'ok:F'
        elif o == 'getitem':
            x = el[op['key'] if isinstance(el, dict) else op['i']]
            return u'ok:' + canon(x.value, fac.schema_of(x))
        elif o == 'getslice':
            return u'ok:[' + u','.join(canon(x.value, fac.schema_of(x)) for x in el[S()]) + u']'
        elif o == 'setvalue':
            el.value = val
        elif o == 'setu':
            el.u = val
        elif o == 'bool':
            return u'ok:T' if el else u'ok:F'
        elif o == 'update':
            if op.get('kw') == 'both':
                # keywords are applied after the mapping or the pairs
                given = val[:op['n']]
                given = (list, collections.OrderedDict, Keyed)[len(val) % 3](given)
                el.update(given, **dict((str(k), v) for k, v in val[op['n']:]))
            elif op.get('kw'):
                el.update(**dict((str(k), v) for k, v in val.items()))
            else:
                el.update(val)
        elif o == 'popitem':
            el.popitem()
        elif o == 'setdefault':
            
            was = op['key'] in el and not el[op['key']].is_empty
            r = el.setdefault(op['key'], val)
            return (u'ok:' + canon(r, fac.schema_of(el[op['key']]))) if was else u'ok'
        elif o == 'get':
            x = el.get(op['key'])
            return u'ok:' + canon(x.value, fac.schema_of(x))
        elif o == 'may':
            return u'ok:T' if el.may_contain(op['key']) else u'ok:F'
        else:
            raise AssertionError(o)
        return u'ok'
    except Exception as e:
        return exc_name(e)


# --------------------------------------------------------------------------
# random operations

def seq_op(g, el, s, at):
    r, n, m = g.r, len(el), s['kids'][0]
    o = g.pick(['append', 'append', 'append', 'extend', 'iadd', 'insert', 'insert', 'setitem', 'setitem', 'setslice',
                'setslice', 'delitem', 'delslice', 'pop', 'remove', 'remove', 'reverse', 'sort', 'sort', 'set', 'clear',
                'index', 'count', 'contains', 'getitem', 'getslice', 'set_default', 'bool'])
    op = {'o': o, 'at': at}
    val = None
    mv = lambda: g.value(m, ok=True, depth=1)
    if r.random() < 0.25 and m['k'] != 'x':
        op['el'] = g.pick([True, 'twin'])
    if o in ('append', 'insert') and m['k'] in ('dict', 'sdict') and r.random() < 0.1:
        val = g.value(m)
        op['pv'] = pv(val)
    elif o in ('append', 'insert', 'setitem'):
        val = mv()
        op['pv'] = pv(val)
    elif o in ('remove', 'index', 'count', 'contains'):
        if o == 'contains' and m['k'] == 'date3' and any(x.u == u'' and any(p.u for p in x.children) for x in el):
            # Jython's list compares a dict by its items here, not by its __eq__
            op['o'] = 'count'
        val = mv()
        if n and r.random() < 0.75 and m['k'] in SCALARS:
            val = el[r.randrange(n)].value
        if r.random() < 0.3:
            op['el'] = g.pick([True, 'twin'])
        op['pv'] = pv(val)
    elif o in ('extend', 'iadd', 'setslice'):
        val = [mv() for _ in range(g.pick([0, 1, 2, 2, 3]))]
        op['pv'] = pv(val)
    if o in ('insert', 'setitem', 'delitem', 'pop', 'getitem'):
        op['i'] = g.pick([0, -1, n - 1, n, -n, -n - 1, r.randrange(-2, n + 2), r.randrange(-2, n + 2)])
        if o == 'pop' and r.random() < 0.3:
            op['i'], op['bare'] = -1, True
    if o in ('setslice', 'delslice', 'getslice'):
        end = lambda: g.pick([[False, 0], [True, r.randrange(-n - 2, n + 3)], [True, r.randrange(0, n + 1)]])
        op['a'], op['b'] = end(), end()
        c = g.pick([1, 1, 1, 2, -1, -2, 3])
        # Jython's list takes an explicit step of 1 for an extended slice
        op['c'] = [c != 1, c]
        if op['c'][1] == 1 and r.random() < 0.6 and not (op['a'][0] and op['a'][1] < 0) and not (op['b'][0] and op['b'][1] < 0):
            op['two'] = True
        if o == 'setslice' and op['c'][1] != 1 and r.random() < 0.6:
            k = len(range(*slice(*[(x[1] if x[0] else None) for x in (op['a'], op['b'], op['c'])]).indices(n)))
            val = [mv() for _ in range(k)]
            op['pv'] = pv(val)
    if o == 'sort':
        by = 'len'
        if m['k'] in ('int', 'long'):
            # a value written directly need not be a number
            if all(x.value is None or isinstance(x.value, (int, long)) for x in el):
                by = g.pick(['len', 'int', 'int'])
        elif m['k'] == 'dict':
            f = [x['name'] for x in m['kids'] if x['k'] in ('int', 'long')]
            f = [x for x in f if all(e[x].value is None or isinstance(e[x].value, (int, long)) for e in el)]
            if f:
                by = g.pick(f)
            else:
                op['o'] = 'reverse'
        elif m['k'] in ('list', 'array', 'sdict'):
            op['o'] = 'reverse'
        op['by'], op['rev'] = by, r.random() < 0.5
    if o == 'set':
        val = g.value(s)
        if s['k'] == 'joined' and not isinstance(val, (list, basestring)):
            val = u'a'
        op['pv'] = pv(val)
    if o == 'set_default' and s['dk'] == 'none' and r.random() < 0.8:
        op = {'o': 'noop', 'at': at}
    if s['k'] == 'mv' and r.random() < 0.25:
        op = {'o': g.pick(['setvalue', 'setu', 'bool']), 'at': at}
        val = g.pick([u'q', u'', u'12'])
        op['pv'] = pv(val)
    return op, val


def map_op(g, el, s, at):
    r = g.r
    names = [f['name'] for f in s['kids']]
    o = g.pick(['mset', 'mset', 'setitem', 'setitem', 'setitem', 'update', 'delitem', 'delitem', 'pop', 'popitem',
                'clear', 'setdefault', 'setdefault', 'get', 'getitem', 'contains', 'may', 'set_default'])
    if s['k'] == 'date3':
        o = g.pick(['set', 'set', 'setitem', 'setitem', 'update', 'delitem', 'pop', 'clear', 'getitem', 'contains', 'set_default'])
    op = {'o': o, 'at': at}
    val = None
    key = g.pick(names + names + [u'zz', u''])
    f = [x for x in s['kids'] if x['name'] == key]
    if o in ('setitem', 'setdefault'):
        op['key'] = key
        val = g.value(f[0], ok=True) if f else u'1'
        if f and f[0]['k'] == 'joined' and not isinstance(val, (list, basestring)):
            val = u'a'
        if o == 'setitem' and f and s['k'] == 'sdict' and f[0]['k'] != 'x' and r.random() < 0.2:
            op['el'] = True
        op['pv'] = pv(val)
    elif o in ('delitem', 'pop', 'get', 'getitem', 'contains', 'may'):
        op['key'] = key
    elif o == 'set':
        val = g.value(s)
        op['pv'] = pv(val)
        if s['k'] != 'date3':
            some_form(g, op, val, s)
    elif o == 'mset':
        val = g.value(s)
        op['pol'] = g.pick(['', '', 'strict', 'subset', 'duck'])
        if op['pol'] == 'duck' and isinstance(val, dict) and r.random() < 0.5:
            val[u'zz'] = u'1'
        if op['pol'] == 'strict' and r.random() < 0.7:
            val = dict((x['name'], g.value(x, ok=True, depth=1)) for x in s['kids'])
        op['pv'] = pv(val)
        some_form(g, op, val, s)
    elif o == 'update':
        val = dict((x['name'], g.value(x, ok=True, depth=1)) for x in s['kids'] if r.random() < 0.6)
        if s['k'] == 'sdict' or r.random() < 0.9:
            pass
        if r.random() < 0.1:
            val = {u'zz': u'1'}
        if r.random() < 0.3:
            val = [[k, v] for k, v in val.items()]
        elif r.random() < 0.3 and all(re.match('^[a-zA-Z]+$', k) and k in el for k in val):
            op['kw'] = True
            if r.random() < 0.5:
                more = [[x['name'], g.value(x, ok=True, depth=1)] for x in s['kids'] if r.random() < 0.6 and x['name'] in el]
                val, op['kw'], op['n'] = more + [[k, v] for k, v in val.items()], 'both', len(more)
        elif s['k'] != 'date3':
            some_form(g, op, val, s)
        op['pv'] = pv(val)
    if o == 'set_default' and r.random() < 0.5:
        op = {'o': 'noop', 'at': at}
    return op, val


def scalar_op(g, el, s, at):
    if g.chance(0.1):
        return {'o': 'set_default', 'at': at}, None
    val = g.value(s)
    return {'o': 'set', 'at': at, 'pv': pv(val)}, val


def flat_names(root, s, sep):
    """Flat keys that exist in the tree, and the key pieces of its schema."""
    keys = [k for k, _ in root.flatten(sep)]
    bits = set()

    def go(x):
        if x['name'] != NONE:
            bits.add(x['name'])
        for k in x['kids']:
            go(k)
    go(s)
    return keys, sorted(bits)


def schema_key(g, s, sep):
    """A flat key the schema recognises (random member indexes)."""
    parts = []
    while True:
        if s['name'] != NONE:
            parts.append(s['name'])
        if s['k'] == 'list':
            parts.append(g.pick([u'0', u'1', u'2', u'3', u'00', u'03', u'10', u'7', u'12', u'9']))
            s = s['kids'][0]
        elif s['k'] in ('array', 'mv'):
            s = s['kids'][0]
        elif s['k'] in MAPS:
            s = g.pick(s['kids'])
        else:
            break
    return sep.join(parts)


def flat_pairs(g, root, s, sep):
    r = g.r
    keys, bits = flat_names(root, s, sep)
    n = g.pick([0, 1, 2, 3, 4, 5, 6, 8, 12, 20])
    vals = [u'', u'', u'a', u'b', u'1', u'2', u'7', u'x', u' c ', u'2020-02-29', u'on', u'x,y', u'12']
    pool = [schema_key(g, s, sep) for _ in range(max(2, n // 2))]
    if g.chance(0.5):
        pool += keys[:12]
    out = []
    for _ in range(n):
        k = g.pick(pool) if pool else u''
        t = r.random()
        if t < 0.25:
            # damage it
            what = r.randrange(12)
            if what == 0:
                k = k + sep
            elif what == 1:
                k = sep + k
            elif what == 2:
                k = k.replace(sep, sep + sep, 1)
            elif what == 3:
                i = r.randrange(len(k) + 1)
                k = k[:i] + g.pick([u'x', u'0', u'-1', u'+2', u' ', u'\n', sep]) + k[i:]
            elif what == 4:
                k = k[:r.randrange(len(k) + 1)]
            elif what == 5:
                k = k + g.pick([u'\n', u' ', u'x', u'0', sep + u'0', sep + u'zz', u'_a', u'.b'])
            elif what == 6:
                k = u''
            elif what == 7:
                k = re.sub(u'[0-9]+', lambda m: g.pick([u'1023', u'1024', u'99999999999999999999', u'10000000003', u'20000000001', u'-1', u'1e1', u'0x1', u' 1', u'01', u'3']), k, 1)
            elif what == 8:
                k = sep.join(r.sample(bits, min(len(bits), r.randrange(1, 4)))) if bits else u'q'
            elif what == 9:
                k = sep
            elif what == 10:
                k = k.upper()
            else:
                k = k.split(sep)[0]
        out.append([k, g.pick(vals)])
    return out


def too_big(s, pairs):
    """Would a non-pruning list with a large bound be filled far? (cost guard)"""
    return any(re.search(u'[0-9]{3,}', k) for k, _ in pairs)


def bounded(s):
    """Lower the bound of non-pruning lists so that huge indexes stay cheap."""
    s = dict(s)
    s['kids'] = [bounded(k) for k in s['kids']]
    return s


def cap_lists(g, s, top=True):
    if s['k'] == 'list' and not s['prune'] and s['max'] > 40:
        s['max'] = g.pick([1, 2, 3, 5, 8, 13])
    for k in s['kids']:
        cap_lists(g, k, False)
    return s


# --------------------------------------------------------------------------
# profiles

def random_history(g, w, s, sep, steps, mix):
    ses = Session(w, s, sep)
    for _ in range(steps):
        places = ses.places()
        if len(places) > 150:
            return
        kind = g.pick(mix)
        if kind == 'local':
            cand = [p for p in places if p[2]['k'] not in SCALARS] if g.chance(0.8) else places
            at, el, es = g.pick(cand or places)
            if es['k'] in SEQS:
                op, val = seq_op(g, el, es, at)
            elif es['k'] in MAPS:
                op, val = map_op(g, el, es, at)
            else:
                op, val = scalar_op(g, el, es, at)
        elif kind == 'seq':
            cand = [p for p in places if p[2]['k'] in SEQS]
            if not cand:
                kind = 'set'
            else:
                at, el, es = g.pick(cand)
                op, val = seq_op(g, el, es, at)
        elif kind == 'map':
            cand = [p for p in places if p[2]['k'] in MAPS]
            at, el, es = g.pick(cand)
            op, val = map_op(g, el, es, at)
        if kind == 'set':
            at, el, es = g.pick(places)
            val = g.value(es, ok=g.chance(0.9))
            op = {'o': 'set', 'at': at, 'pv': pv(val)}
        elif kind == 'rootset':
            val = g.value(s, ok=True)
            op = {'o': 'set', 'at': [], 'pv': pv(val)}
        elif kind == 'flat':
            val = None
            op = {'o': 'set_flat', 'at': [], 'sep': sep, 'pairs': flat_pairs(g, ses.root, s, sep)}
        elif kind == 'default':
            at, el, es = g.pick(places) if g.chance(0.5) else places[0]
            val = None
            op = {'o': 'set_default', 'at': at}
        elif kind == 'renew':
            val = None
            op = {'o': g.pick(['fresh', 'from_defaults', 'from_defaults', 'from_flat']), 'at': []}
            if op['o'] == 'from_flat':
                op.update(sep=sep, pairs=flat_pairs(g, ses.root, s, sep))
        elif kind == 'dv':
            at, el, es = g.pick(places)
            val = None
            op = {'o': 'default_value', 'at': at}
        elif kind == 'compare':
            val = None
            what = g.pick(['compare', 'compare', 'compare', 'compare_other', 'hash'])
            at, el, es = g.pick(places)
            op = {'o': what, 'at': at}
            if what == 'compare':
                same = [p for p in places if p[1].u == el.u and p[0] != at]
                kin = [p for p in places if p[2]['k'] == es['k'] and p[0] != at]
                op['at2'] = g.pick(g.pick([x for x in (same, kin, places) if x]))[0]
            elif what == 'compare_other':
                op['other'] = g.pick(['int', 'text', 'none', 'value', 'u', 'object', 'valueonly', 'list', 'dict'])
        elif kind == 'round':
            ses.roundtrip(g.r, g.chance(0.3))
            continue
        if op['o'] == 'set_flat' and isinstance(op['pairs'], list):
            op['pairs'] = [list(p) for p in op['pairs']]
        if not ses.run(op, val):
            return


def long_history(g, w, s, sep, steps, rounds):
    """A list with about ten members, where its indexes gain a digit."""
    ses = Session(w, s, sep)
    for i in range(steps):
        if rounds and g.chance(0.3):
            ses.roundtrip(g.r, False)
            continue
        at, el, es = ses.places()[0]
        if i == 0 or len(el) < 7:
            val = [g.value(s['kids'][0], ok=True, depth=2) for _ in range(g.r.randrange(8, 13))]
            op = {'o': 'set', 'at': [], 'pv': pv(val)}
        else:
            op, val = seq_op(g, el, es, at)
        if len(el) > 16 or not ses.run(op, val):
            return


def profile(name, w, rng, budget):
    while w.n < budget:
        if name in ('C01', 'C03') and rng.random() < 0.06:
            g = Gen(rng, default_rate=0.0, names=[u'a', u'b', u'c', u'd', u'e'])
            s = schema('list', rng.choice([None, u'r', u'l']), [g.scalar(rng.choice([None, u'm'])) if rng.random() < 0.8 else g.container(1, u'm', 'dict')])
            s['prune'] = rng.random() < 0.5
            guarded(w, long_history, g, w, s, u'_', rng.choice([6, 12]), name == 'C03')
            continue
        sep = SEPS[rng.randrange(len(SEPS))] if rng.random() < 0.5 else u'_'
        depth = rng.choice([1, 2, 2, 3])
        root_name = rng.choice([None, u'r', u'l', u'f'])
        if name == 'C01':
            g = Gen(rng, containers=['list', 'list', 'list', 'dict', 'array', 'sdict', 'joined', 'date3'])
            s = g.container(depth, root_name, 'list' if rng.random() < 0.7 else None)
            guarded(w, random_history, g, w, cap_lists(g, s), sep, rng.choice([8, 14, 25]), ['seq'] * 8 + ['set', 'flat', 'default', 'rootset'])
        elif name == 'C02':
            g = Gen(rng, default_rate=0.2)
            s = g.container(rng.choice([2, 3, 3]), root_name)
            guarded(w, random_history, g, w, cap_lists(g, s), sep, rng.choice([6, 12, 20]), ['local'] * 4 + ['set', 'rootset', 'flat', 'default'])
        elif name == 'C03':
            g = Gen(rng, small_max=0.05)
            names = [n for n in NAMES if not set(n) & set(sep)]
            g.names = names
            s = g.container(rng.choice([1, 2, 3, 3]), root_name)
            guarded(w, random_history, g, w, s, sep, rng.choice([4, 8]), ['rootset', 'round', 'round', 'local', 'round', 'set'])
        elif name == 'C04':
            g = Gen(rng, small_max=0.4, names=NAMES + [u'a_b', u'l_0', u'0_a', u'a__b', u'-', u'_'])
            if sep != u'.' and rng.random() < 0.2:
                # names that begin alike, some across the separator
                g.names = [u'a', u'a' + sep + u'b', u'a' + sep + u'c', u'a' + sep, u'ab', sep + u'a']
                g.containers = ['sdict', 'sdict', 'dict', 'list']
            s = cap_lists(g, g.container(depth, root_name))
            guarded(w, random_history, g, w, s, sep, rng.choice([3, 6, 10]), ['flat'] * 6 + ['rootset', 'default', 'renew'])
        elif name == 'C10':
            g = Gen(rng, policies=True)
            s = g.container(rng.choice([1, 1, 2]), root_name, rng.choice(['dict', 'sdict', 'sdict']))
            guarded(w, random_history, g, w, cap_lists(g, s), sep, rng.choice([8, 14, 25]), ['map'] * 8 + ['flat', 'default', 'set'])
        elif name == 'C12':
            g = Gen(rng, containers=['array', 'mv', 'joined', 'list', 'dict'])
            k = rng.choice(['array', 'mv', 'mv', 'joined', 'joined', 'list', 'dict'])
            s = g.container(1 if k in ('array', 'mv', 'joined') else 2, root_name or u'r', k)
            guarded(w, random_history, g, w, cap_lists(g, s), sep, rng.choice([8, 14, 25]), ['seq'] * 8 + ['set', 'flat', 'flat', 'default', 'rootset'])
        elif name == 'C13':
            g = Gen(rng, default_rate=0.6)
            s = g.container(rng.choice([1, 2, 3]), root_name) if rng.random() < 0.9 else g.scalar(u's')
            guarded(w, random_history, g, w, cap_lists(g, s), sep, rng.choice([3, 6, 9]), ['default', 'default', 'local', 'set', 'flat', 'renew', 'renew', 'dv'])
        elif name == 'C14':
            g = Gen(rng, default_rate=0.15, scalars=['str', 'int'])
            if rng.random() < 0.4:
                s = g.container(1, root_name or u'd', 'date3')
            else:
                g.containers = ['date3', 'date3', 'dict', 'list']
                s = g.container(2, root_name, rng.choice(['dict', 'list']))
            guarded(w, random_history, g, w, cap_lists(g, s), sep, rng.choice([6, 12]), ['local'] * 5 + ['set', 'flat', 'default'])
        else:
            g = Gen(rng, default_rate=0.15)
            s = g.container(rng.choice([1, 2, 2, 3]), root_name) if rng.random() < 0.9 else g.scalar(u's')
            guarded(w, random_history, g, w, cap_lists(g, s), sep, rng.choice([6, 12, 20]), ['local'] * 4 + ['set', 'set', 'rootset', 'flat', 'default', 'compare', 'compare', 'compare'])


def replay(w, path):
    """Play spec-generated behaviours: a json file of {schema, sep, ops}."""
    for line in open(path):
        b = json.loads(line)
        guarded(w, replay_one, w, b)


def replay_one(w, b):
    ses = Session(w, b['schema'], b.get('sep', u'_'))
    for op in b['ops']:
        val = rebuild(op['pv']) if 'pv' in op else None
        if op['o'] == 'roundtrip':
            ses.roundtrip(random.Random(1), False)
            continue
        if not ses.run(op, val):
            break


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        replay(w, prof[1:])
    else:
        rng = random.Random(seed * 7919 + shard * 104729 + sum(ord(c) for c in prof) * 31)
        profile(prof, w, rng, budget)
    w.close()
