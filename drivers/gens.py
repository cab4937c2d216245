# -*- coding: utf-8 -*-
"""Renderings of Genshi templates with the flatland directives (C24).

Genshi's own reader of XML and its compiler of expressions do not work on
this Jython (no Xerces, a different ast); the driver reads templates with the
parser of the JDK and evaluates expressions with eval() instead.
"""
import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from binds import *  # noqa
from genshi.core import (
    Attrs, COMMENT, END, END_NS, Markup as GenshiMarkup, QName, START, START_NS, Stream, TEXT)
from genshi.template import MarkupTemplate
from genshi.template import eval as genshi_eval
from flatland.out.genshi import setup
from java.io import StringReader
from java.lang import String as Chars
from javax.xml.parsers import SAXParserFactory
from org.xml.sax import InputSource
from org.xml.sax.ext import DefaultHandler2

factory = SAXParserFactory.newInstance()
factory.setNamespaceAware(True)
NOWHERE = (None, -1, -1)


class Reader(DefaultHandler2):
    def __init__(self):
        self.events, self.text = [], []

    def add(self, kind, data):
        if self.text:
            self.events.append((TEXT, u''.join(self.text), NOWHERE))
            self.text = []
        self.events.append((kind, data, NOWHERE))

    def startElement(self, uri, local, q, attrs):
        full = lambda u, l: QName(u'{%s}%s' % (u, l) if u else unicode(l))
        self.add(START, (full(uri, local), Attrs(
            [(full(attrs.getURI(i), attrs.getLocalName(i)), unicode(attrs.getValue(i)))
             for i in range(attrs.getLength())])))

    def endElement(self, uri, local, q):
        self.add(END, QName(u'{%s}%s' % (uri, local) if uri else unicode(local)))

    def characters(self, ch, s, n):
        self.text.append(unicode(Chars(ch, s, n).toString()))

    def startPrefixMapping(self, p, u):
        self.add(START_NS, (unicode(p), unicode(u)))

    def endPrefixMapping(self, p):
        self.add(END_NS, unicode(p))

    def comment(self, ch, s, n):
        self.add(COMMENT, unicode(Chars(ch, s, n).toString()))


def parse(text):
    h = Reader()
    r = factory.newSAXParser().getXMLReader()
    r.setContentHandler(h)
    r.setProperty('http://xml.org/sax/properties/lexical-handler', h)
    r.parse(InputSource(StringReader(text)))
    return h.events


class Names(object):
    def __init__(self, data):
        self.data = data

    def __getitem__(self, k):
        if k not in self.data:
            raise KeyError(k)
        return self.data.get(k)


def expression(self, source, filename=None, lineno=-1, lookup='strict', xform=None):
    self.source = source
    self.code = compile(source.strip() if isinstance(source, basestring) else source, '<expression>', 'eval')


genshi_eval.Expression.__init__ = expression
genshi_eval.Expression.evaluate = lambda self, data: eval(self.code, {}, Names(data))


# ---- from nodes to a template
def esc(s):
    return s.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>', u'&gt;').replace(u'"', u'&quot;').replace(u'$', u'$$')


class Text(object):
    """The text of a template, and the variables it uses."""

    def __init__(self, nodes, binds, ns):
        self.vars = {'T': True, 'F': False}
        self.binds = binds
        self.text = (u'<div%s xmlns:form="http://ns.discorporate.us/flatland/genshi" xmlns:py="http://genshi.edgewall.org/"'
                     u' xmlns:z="zz"><py:def function="d()"><b py:if="T">lumpy.</b></py:def>%s</div>'
                     % (u' xmlns="http://www.w3.org/1999/xhtml"' if ns else u'', self.nodes(nodes)))

    def var(self, v):
        n = 'v%d' % len(self.vars)
        self.vars[n] = v
        return n

    def expr(self, p):
        t, s = p['t'], p['s']
        if t == 'x':
            return 'x'
        if t == 'd':
            return 'd()'
        if t == 'n':
            return self.var([] if p.get('list') else None)
        if t == 'h':
            return self.var(GenshiMarkup(s) if p.get('own') else Markup(s))
        if t == 'l':
            return self.var([s[:1], s[1:]] if s else [u'', u''])
        return self.var(s)

    def part(self, p):
        return esc(p['s']) if p['t'] == 's' else u'${%s}' % self.expr(p)

    def attrs(self, as_, prefix=u''):
        return u''.join(u' %s%s="%s"' % (prefix, k, u''.join(map(self.part, ps))) for k, ps in as_)

    def nodes(self, ns, extra=u''):
        return u''.join(self.node(n, extra) for n in ns)

    def node(self, n, extra=u''):
        k = n['k']
        if k == 'text':
            return self.part(n)
        if k == 'note':
            return u'<!--%s-->' % n['s']
        if k in ('if', 'for'):
            if k == 'if':
                attr, val = 'test', 'T' if n['cond'] else 'F'
            else:
                items = self.var([])
                self.vars[items].extend((o['x'], o['b']) for o in n['over'])
                attr, val = 'each', 'x, el in ' + items
            kids = n['kids']
            inner = kids[0]['k'] if len(kids) == 1 else ''
            if n['style'] == 'attr' and (inner in ('tag', 'with', 'set') or
                                         (k == 'for' and inner == 'if' and kids[0]['style'] == 'attr' and not extra and
                                          len(kids[0]['kids']) == 1 and kids[0]['kids'][0]['k'] in ('tag', 'with', 'set'))):
                if 'py:%s=' % k not in extra and not (k == 'for' and extra):
                    return self.node(kids[0], u'%s py:%s="%s"' % (extra, k, val))
            assert not extra, extra
            return u'<py:%s %s="%s">%s</py:%s>' % (k, attr, val, self.nodes(kids), k)
        if k in ('with', 'set'):
            sets = u''
            for key, v in n['sets']:
                if key == 'filters':
                    v = u'[%s]' % u', '.join(self.var(FILTERS[f]) for f in v)
                sets += u' %s="%s"' % (key.replace('_', '-'), esc(unicode(v)))
            return u'<form:%s%s%s>%s</form:%s>' % (k, extra, sets, self.nodes(n['kids']), k)
        as_, more = n['attrs'], []
        if n.get('pyattrs'):
            for a in as_:
                if len(a[1]) == 1 and a[1][0]['t'] == 'e' and a[1][0]['s'].strip() == a[1][0]['s'] != u'':
                    more.append(a)
            as_ = [a for a in as_ if a not in more]
        s = u'<' + n['tag'] + extra + self.attrs(as_) + self.attrs(n['ns'], u'z:') + self.attrs(n['ctl'], u'form:').replace(u'_', u'_')
        if more:
            s += u' py:attrs="%s"' % self.var(dict((str(k), ps[0]['s']) for k, ps in more))
        if n['bind'] == 'el':
            s += u' form:bind="%s"' % ('binds[el - 1]' if n['b'] == 0 else 'binds[%d]' % (n['b'] - 1))
        elif n['bind'] == 'no':
            s += u' form:bind=""'
        kids = n['kids']
        if n.get('content') and len(kids) == 1 and kids[0]['k'] == 'text' and kids[0]['t'] not in ('s',):
            s += u' py:content="%s"' % self.expr(kids[0])
            kids = []
        return s + (u'>%s</%s>' % (self.nodes(kids), n['tag']) if kids or n.get('open') else u'/>')


def spec_nodes(ns):
    """As the specification knows them: controls by the names of settings."""
    out = []
    for n in ns:
        n = dict(n)
        if 'ctl' in n:
            n['ctl'] = [[k.replace('-', '_'), ps] for k, ps in n['ctl']]
            n['ns'] = [['z:' + k, ps] for k, ps in n['ns']]
        if 'kids' in n:
            n['kids'] = spec_nodes(n['kids'])
        out.append(n)
    return out


def events(text):
    out = []
    for kind, data, _ in parse(text):
        if kind == START:
            out.append([u's', data[0].localname, [[(u'z:' if a.namespace == 'zz' else u'?:' if a.namespace else u'') + a.localname, v]
                                                  for a, v in data[1]]])
        elif kind == END:
            out.append([u'e', data.localname])
        elif kind == COMMENT:
            out.append([u'c', data])
        elif kind == TEXT:
            if out and out[-1][0] == u't':
                out[-1][1] += data
            elif data:
                out.append([u't', data])
    return out[1:-1]        # the div around it


def render(w, nodes, binds, ns, times):
    """One template, rendered with each list of binds."""
    w.h += 1
    t = Text(nodes, binds, ns)
    said = spec_nodes(nodes)
    template = None
    for ds in binds[:times]:
        els = [make_bind(d) for d in ds]
        rec = {'o': 'render', 'nodes': said, 'binds': [bind_record(e) for e in els]}
        out, text = [], u''
        w.doing(('genshi', t.text[:2000]))
        try:
            if template is None:
                template = MarkupTemplate(Stream(parse(t.text)))
                setup(template)
            text = template.generate(binds=els, **t.vars).render('xml', cache=False, strip_whitespace=False)
            text = text if isinstance(text, unicode) else text.decode('utf-8')
            out = events(text)
            res = u'ok'
        except Exception as e:
            res = exc_name(e)
        finally:
            w.done()
        w.rec({'h': w.h, 'op': rec, 'res': res, 'out': out, 'template': t.text, 'text': text})


# ---- random templates
KINDS = ['form', 'input', 'textarea', 'button', 'select', 'label', 'div', 'p', 'INPUT']
KEYS = [u'name', u'value', u'id', u'for', u'tabindex', u'checked', u'selected', u'class', u'title', u'data', u'type']
TROOLS = [u'on', u'off', u'auto', u'on', u'off', u'1', u'0', u'yes', u'TRUE', u'nil', u'bogus', u'', u'true', u'false', u'no', u't', u'False', u'Auto', u' on', u'off ']
AUTOS = ['auto-name', 'auto-value', 'auto-domid', 'auto-for', 'auto-tabindex', 'auto-filter']
SAFE = [s for s in NASTY if u'\n' not in s]
HTML = [u'<i>x</i>', u'&amp;', u'a', u'<b>&lt;</b>y', u'abc']


def part(rng, loop, s=None, attr=False):
    t = rng.choice(['s', 's', 's', 's', 'e', 'e', 'l', 'h', 'n'] + (['x', 'x', 'x'] if loop else []))
    if t in ('n', 'x'):
        return {'t': t, 's': u'', 'list': rng.random() < 0.3}
    if t == 'h':
        return {'t': 'h', 's': rng.choice(HTML), 'own': rng.random() < 0.5}
    return {'t': t, 's': rng.choice(SAFE) if s is None else s}


def parts(rng, loop, s=None):
    ps = [part(rng, loop, s)]
    if rng.random() < 0.2:
        ps.append(part(rng, loop))
    if len(ps) > 1:
        ps = [p for p in ps if p['t'] != 's' or p['s']]
    return ps or [{'t': 's', 's': u''}]


def a_tag(rng, tag, loop, binds, depth, select):
    n = {'k': 'tag', 'tag': tag, 'attrs': [], 'ns': [], 'ctl': [], 'bind': u'', 'b': 0, 'kids': [],
         'open': rng.random() < 0.3, 'content': rng.random() < 0.3, 'pyattrs': rng.random() < 0.2}
    r = rng.random()
    if tag == 'option' and select:
        r += 0.45
    if r < 0.6:
        n['bind'] = u'el'
        n['b'] = 0 if loop and rng.random() < 0.4 else rng.randint(1, 2)
    elif r < 0.68:
        n['bind'] = u'no'
    d = binds[0][n['b'] - 1]
    for k in rng.sample(KEYS, rng.randint(0, 3)):
        if k == u'type':
            v = rng.choice([u'text', u'radio', u'checkbox', u'checkbox', u'password', u'hidden', u'other'])
        else:
            v = None
            if k == u'value' and rng.random() < 0.6:
                vs = d.get('v')
                vs = vs if isinstance(vs, list) else [vs]
                v = vs[0] if vs and isinstance(vs[0], unicode) and u'\n' not in vs[0] else None
        n['attrs'].append([k, parts(rng, loop, v)])
    if tag in ('input',) and rng.random() < 0.4 and not [a for a in n['attrs'] if a[0] == u'type']:
        n['attrs'].append([u'type', [{'t': 's', 's': rng.choice([u'radio', u'checkbox'])}]])
    if rng.random() < 0.1:
        n['ns'].append([rng.choice([u'name', u'q']), parts(rng, loop)])
    for k in AUTOS:
        if rng.random() < 0.12:
            n['ctl'].append([k, [{'t': rng.choice(['s', 's', 'e', 'h']), 's': rng.choice(TROOLS)}]])
    if tag == 'input' or rng.random() < 0.2:
        pass
    elif tag == 'select':
        n['kids'] = nodes(rng, depth - 1, loop, binds, True, rng.randint(0, 3))
    elif tag == 'option' or rng.random() < 0.5:
        for _ in range(rng.randint(1, 2)):
            n['kids'].append(text(rng, loop, d if tag == 'option' else None))
        n['kids'] = [x for x in n['kids'] if x['t'] != 's' or x['s']]
        if tag == 'option' and depth > -2 and rng.random() < 0.12:
            n['kids'].insert(rng.randint(0, len(n['kids'])), a_tag(rng, 'option', loop, binds, depth - 1, select))
    else:
        n['kids'] = nodes(rng, depth - 1, loop, binds, select, rng.randint(0, 2))
    return n


def text(rng, loop, d=None):
    s = None
    if d is not None and rng.random() < 0.6:
        vs = d.get('v')
        vs = vs if isinstance(vs, list) else [vs]
        if vs and isinstance(vs[0], unicode):
            s = rng.choice([u'', u' ']) + vs[0]
    p = part(rng, loop, s)
    p['k'] = 'text'
    if rng.random() < 0.05:
        p['t'] = 'd'
    return p


def rand_sets(rng):
    out = []
    for k in rng.sample(AUTOS + ['domid-format', 'tabindex', 'filters', 'auto-tabindex', 'auto-filter'], rng.randint(0, 3)):
        if k in [o[0] for o in out]:
            continue
        if k == 'domid-format':
            v = rng.choice([u'f_%s', u'-%s-', u'%s', u'<%s>&'])
        elif k == 'tabindex':
            v = rng.choice([-2, -1, 0, 1, 1, 2, 9, 100])
        elif k == 'filters':
            v = [rng.choice(sorted(FILTERS)) for _ in range(rng.randint(0, 3))]
        else:
            v = rng.choice(TROOLS)
        out.append([k, v])
    names = [k for k, _ in out]
    if 'auto-tabindex' in names and 'tabindex' not in names and rng.random() < 0.6:
        out.append(['tabindex', rng.choice([1, 5])])
    if 'auto-filter' in names and 'filters' not in names and rng.random() < 0.6:
        out.append(['filters', [rng.choice(sorted(FILTERS))]])
    if rng.random() < 0.01:
        out.append(['xyzzy', u'on'])
    return [[k.replace('-', '_'), v] for k, v in out]


def nodes(rng, depth, loop, binds, select, count):
    out = []
    for _ in range(count):
        r = rng.random()
        style = rng.choice(['attr', 'attr', 'el'])
        few = lambda l=loop: nodes(rng, depth - 1, l, binds, select, rng.randint(1, 2))
        one = lambda l=loop: [n for n in few(l)][:1] if style == 'attr' else few(l)
        if depth <= 0 or r < 0.45:
            kinds = ['option', 'option', 'option', 'optgroup'] if select else KINDS + ['input', 'input', 'select']
            out.append(a_tag(rng, rng.choice(kinds), loop, binds, depth, select))
        elif r < 0.55:
            n = text(rng, loop)
            if n['t'] != 's' or n['s']:
                out.append(n)
        elif r < 0.58:
            out.append({'k': 'note', 's': rng.choice([u' n ', u'x'])})
        elif r < 0.72:
            out.append({'k': 'with', 'sets': rand_sets(rng), 'kids': few()})
        elif r < 0.82:
            out.append({'k': 'set', 'sets': rand_sets(rng), 'kids': few() if rng.random() < 0.2 else []})
        elif r < 0.9:
            out.append({'k': 'if', 'cond': rng.random() < 0.7, 'style': style, 'kids': one()})
        else:
            over = [{'x': rng.choice(SAFE + [u'v', u'abc']), 'b': rng.randint(1, 2)} for _ in range(rng.randint(0, 3))]
            out.append({'k': 'for', 'over': over, 'style': style, 'kids': one(True)})
    return out


def safe_bind(rng):
    while True:
        d = rand_bind(rng)
        if d['k'] != 'none' and u'\n' not in repr(d) and '\\n' not in repr(d):
            return d


MISUSE = [u'<form:bind/>', u'<form:auto-name/>', u'<form:auto-filter/>', u'<div form:with="x"/>', u'<div form:set="x"/>',
          u'<form:bogus/>', u'<div form:bogus="x"/>', u'<form:auto-value>x</form:auto-value>']


def misuse(w, rng):
    w.h += 1
    s = rng.choice(MISUSE)
    try:
        t = MarkupTemplate(Stream(parse(u'<div xmlns:form="http://ns.discorporate.us/flatland/genshi">%s</div>' % s)))
        setup(t)
        res = txt(t.generate().render('xml'))
    except Exception as e:
        res = exc_name(e)
    w.rec({'h': w.h, 'op': {'o': 'misuse', 'nodes': s}, 'res': res})


def random_template(w, rng):
    binds = [[safe_bind(rng) for _ in range(2)] for _ in range(2)]
    ns = nodes(rng, rng.choice([1, 2, 2, 3]), False, binds, False, rng.randint(1, 4))
    render(w, ns, binds, rng.random() < 0.5, rng.choice([1, 1, 2]))
    if rng.random() < 0.01:
        misuse(w, rng)


def replay(w, n, b):
    ds = b['binds']
    render(w, b['nodes'], [ds, list(reversed(ds)) if b.get('swap') else ds], n % 2 == 0, 1 + n % 2)


def main():
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for n, line in enumerate(open(prof[1:])):
            guarded(w, replay, w, n, json.loads(line))
    else:
        rng = random.Random('genshi-%s-%d-%d' % (prof, seed, shard))
        while w.n < budget:
            guarded(w, random_template, w, rng)
    w.close()
    os._exit(0)


main()
