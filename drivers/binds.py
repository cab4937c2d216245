# -*- coding: utf-8 -*-
"""Elements and filters for the markup drivers."""
from lib import *  # noqa
from flatland.out.generic import Markup


# ---- filters, as the specification knows them
def f_donut(tagname, attributes, contents, context, bind):
    attributes[u'donut'] = u'a&"b<'
    return contents


def f_mark(tagname, attributes, contents, context, bind):
    if not isinstance(contents or u'', unicode):
        return contents
    return (contents or u'') + u'!' + tagname


def f_strip(tagname, attributes, contents, context, bind):
    attributes.pop(u'name', None)
    return contents


def f_seen(tagname, attributes, contents, context, bind):
    attributes[u'seen'] = unicode(len(attributes))
    return contents


def f_body(tagname, attributes, contents, context, bind):
    return Markup(u'<b>&amp;</b>')


def f_clear(tagname, attributes, contents, context, bind):
    attributes[u'tabindex'] = u'9'
    return None


def f_bare(tagname, attributes, contents, context, bind):
    for k in (u'name', u'class', u'title', u'id', u'value'):
        attributes.pop(k, None)
    return contents


f_mark.tags = ('input', 'label')
f_strip.tags = (u'button', u'select', u'div')
f_seen.tags = ()
FILTERS = {u'donut': f_donut, u'mark': f_mark, u'strip': f_strip, u'seen': f_seen, u'body': f_body, u'clear': f_clear, u'bare': f_bare}
FNAMES = dict((f, n) for n, f in FILTERS.items())


# ---- binds
def bind_record(el):
    if el is None:
        return {'t': 'none', 'name': u'', 'u': u'', 'true': u'', 'mk': 'str', 'ms': []}
    r = {'t': 'one', 'name': el.flattened_name(), 'u': el.u, 'true': u'', 'mk': 'str', 'ms': []}
    if isinstance(el, Boolean):
        r['t'] = 'bool'
        r['true'] = el.true
    elif isinstance(el, Array):
        r['t'] = 'array'
        r['mk'] = 'int' if issubclass(el.member_schema, Integer) else 'str'
        r['ms'] = [[canon(m.value), m.u] for m in el]
    return r


NASTY = [u'', u'a', u'abc', u'<', u'&', u'"', u"'", u'a<b>&"c"', u'&amp;', u'&lt;b&gt;', u' x ', u'é☃', u'1', u'01', u'x y', u'-->', u'\n', u']]>',
         u'a=b', u'/', u'f_1', u'on', u'12', u'</textarea>', u'&#38;', u'&#x3c;q', u'\n tail\t', u'XyZ', u'A-b.C:d_e']


def make_bind(d):
    """An element from its description."""
    k, name, v = d['k'], d['name'], d['v']
    nm = (lambda c: c.named(name) if name is not None else c)
    if k == 'none':
        return None
    if k in ('str', 'int'):
        c = nm({'str': String, 'int': Integer}[k])
        return (c.using(strip=False) if d.get('raw') else c)(v)
    if k == 'bool':
        return nm(Boolean).using(true=d['true'], true_synonyms=(d['true'],))(v)
    if k in ('array', 'mv', 'joined'):
        return nm({'array': Array, 'mv': MultiValue, 'joined': JoinedString}[k]).of(
            {'str': String, 'int': Integer}[d['m']])(v)
    if k == 'list':
        return nm(List).of(String)(v)
    if k == 'date3':
        return nm(DateYYYYMMDD)(v)
    if k == 'member':
        el = nm(Array).of(String)(v)
        return el[0] if len(el) else el
    if k == 'field':
        return nm(Dict).of(String.named(u'f'), Array.named(u'g').of(String), Boolean.named(u'b'))({u'f': v[0], u'g': v[1], u'b': v[2]})[d['at']]
    if k == 'form':
        return nm(Dict).of(String.named(u'f'))({u'f': v})
    raise ValueError(k)


def rand_bind(rng):
    k = rng.choice(['none', 'none', 'str', 'str', 'str', 'int', 'bool', 'bool', 'array', 'array', 'mv', 'joined', 'list', 'date3', 'member', 'field', 'field', 'form'])
    d = {'k': k, 'name': rng.choice([u'nm', u'nm', u'a_b', u'n&m', u'n"<', u'é', u'Nm', None]), 'v': rng.choice(NASTY)}
    few = lambda: [rng.choice(NASTY) for _ in range(rng.randint(0, 3))]
    if k == 'str' and rng.random() < 0.4:
        d['raw'] = True
    if k == 'int':
        d['v'] = rng.choice([1, u'12', u'01', u'x', None, u''])
    elif k == 'bool':
        d['true'] = rng.choice([u'1', u'on', u'y&n', u'"', u'', u'Yes'])
        d['v'] = rng.choice([True, False, None, u'?', u''])
    elif k in ('array', 'mv', 'joined'):
        d['m'] = rng.choice(['str', 'str', 'int'])
        d['v'] = few() if d['m'] == 'str' else [rng.choice([1, 12, u'x', u'']) for _ in range(rng.randint(0, 3))]
    elif k in ('list', 'member'):
        d['v'] = few()
    elif k == 'date3':
        d['v'] = rng.choice([u'2020-02-29', u'', u'x'])
    elif k == 'field':
        d['v'] = [rng.choice(NASTY), few(), rng.choice([True, False])]
        d['at'] = rng.choice([u'f', u'g', u'b'])
    return d
