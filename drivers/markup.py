# -*- coding: utf-8 -*-
"""Histories of markup generators and their tags (C17, C18, C19)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from binds import *  # noqa
from flatland import Form
from flatland.out.generic import Markup
from flatland.out.markup import Generator
from flatland.util import Maybe

NAMES = ['auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex', 'auto_filter',
         'domid_format', 'tabindex', 'filters', 'ordered_attributes', 'markup_wrapper']


class Wrap(unicode):
    """another markup class"""
    def __html__(self):
        return self


class Html(object):
    """something that knows its markup without being text"""
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s


WRAPS = {u'Markup': Markup, u'Wrap': Wrap}


def trool_text(v):
    return u'auto' if v is Maybe else unicode(v)


def given(r):
    """An attribute or contents value from its record."""
    if r['t'] == 'n':
        return None
    if r['t'] == 'h':
        return Html(r['s']) if r.get('raw') else Markup(r['s'])
    if r['t'] == 'b':
        return r['s'] == u'True'
    if r['t'] == 'm':
        return Maybe
    return r['s']


def shown(r):
    return {'k': r['k'], 't': {'b': 's', 'm': 's'}.get(r['t'], r['t']), 's': u'auto' if r['t'] == 'm' else r['s']}


class World(object):
    def __init__(self, w):
        self.w = w
        w.h += 1
        self.gens, self.held = [], []
        self.emit({'o': 'start'}, u'ok')

    def settings(self):
        out = []
        for g in self.gens:
            r = {}
            for n in NAMES:
                v = safe(lambda: g[n])
                if n.startswith('auto_') or n == 'ordered_attributes':
                    v = trool_text(v)
                elif n == 'filters':
                    v = [FNAMES.get(f, u'?') for f in v]
                elif n == 'markup_wrapper':
                    v = txt(v.__name__)
                elif n == 'tabindex':
                    v = v if isinstance(v, int) else -999
                else:
                    v = txt(v)
                r[n] = v
            out.append(r)
        return out

    def emit(self, op, res, **kw):
        r = {'h': self.w.h, 'op': op, 'res': res if isinstance(res, unicode) else txt(res), 'wrap': u'', 'contents': u'', 'tag': 0}
        if isinstance(res, unicode):
            r['wrap'] = txt(type(res).__name__)
            r['res'] = unicode.__str__(res) if False else u'' + res[:]
        r.update(kw)
        r['settings'] = self.settings()
        self.w.rec(r)

    def attempt(self, fn):
        self.w.doing(('markup', self.w.h))
        try:
            return fn()
        except Exception as e:
            return exc_name(e)
        finally:
            self.w.done()

    def sets(self, sets):
        """the keyword arguments, and what the specification is told"""
        kw, said = {}, []
        for k, v in sets:
            if k == 'filters':
                kw[k] = [FILTERS[n] for n in v]
            elif k == 'markup_wrapper':
                kw[k] = WRAPS[v]
            elif k == 'ordered_attributes':
                kw[k] = v == u'True'
            elif k.startswith('auto_'):
                kw[k] = {'True': True, 'False': False, 'auto-object': Maybe, 'none-object': None}.get(v, v)
                v = u'auto' if v in ('auto-object', 'none-object') else v
            else:
                kw[k] = v
            said.append([k, v])
        return kw, said

    def new(self, markup, sets):
        kw, said = self.sets(sets)
        res = self.attempt(lambda: Generator(markup, **kw))
        if isinstance(res, Generator):
            self.gens.append(res)
            self.held.append([])
            self.emit({'o': 'new', 'markup': markup, 'sets': said}, u'ok')
        else:
            self.emit({'o': 'new', 'markup': markup, 'sets': said}, res)

    def settle(self, o, g, sets):
        gen = self.gens[g - 1]
        kw, said = self.sets(sets)
        if o == 'update':
            def fn():
                for k in kw:
                    gen[k] = kw[k]
                return u'ok'
        else:
            fn = lambda: getattr(gen, o)(**kw)
        self.emit({'o': o, 'g': g, 'sets': said}, self.attempt(fn))

    def number(self, g, tag):
        for i, t in enumerate(self.held[g - 1]):
            if t is tag:
                return i + 1
        self.held[g - 1].append(tag)
        return len(self.held[g - 1])

    def get(self, g, name, by):
        gen = self.gens[g - 1]
        tag = self.attempt(lambda: gen.tag(name) if by else getattr(gen, name))
        if isinstance(tag, unicode):
            self.emit({'o': 'get', 'g': g, 'tag': name}, tag)
            return 0
        n = self.number(g, tag)
        self.emit({'o': 'get', 'g': g, 'tag': txt(name)}, u'ok', tag=n, contents=txt(tag.contents or u''))
        return n

    def op(self, o, g, tag, name, bind, attrs, contents, by=False):
        """call, open: the tag numbered tag, or one by name"""
        gen = self.gens[g - 1]
        el = make_bind(bind) if isinstance(bind, dict) else bind
        kw = dict((str(a['k']), given(a)) for a in attrs)
        if contents['t'] != 'n' or contents.get('say'):
            kw['contents'] = given(contents)
        op = {'o': o, 'g': g, 'tag': tag, 'name': txt(name), 'bind': bind_record(el),
              'attrs': [shown(a) for a in attrs], 'contents': {'t': contents['t'], 's': contents['s']}}
        if tag:
            t = self.held[g - 1][tag - 1]
            if o == 'open':
                fn = lambda: t.open(el, **kw)
            else:
                fn = lambda: t(el, **kw) if (el is not None or kw or not by) else t.__html__()
        elif by or not hasattr(Generator, name):
            def fn():
                x = gen.tag(name, el, **kw)
                return x if isinstance(x, unicode) else x()
        else:
            fn = lambda: getattr(gen, name)(el, **kw)
        res = self.attempt(fn)
        self.emit(op, res, contents=txt(self.held[g - 1][tag - 1].contents or u'') if tag else u'')

    def escaped(self, bind):
        el = make_bind(bind)
        get = lambda a: txt(safe(lambda: getattr(el, a)))
        self.emit({'o': 'escaped', 'u': get('u'), 'x': get('x'), 'xa': get('xa')}, u'ok')

    def close(self, g, tag):
        self.emit({'o': 'close', 'g': g, 'tag': tag}, self.attempt(self.held[g - 1][tag - 1].close))


# ---- random histories
KINDS = ['form', 'input', 'textarea', 'button', 'select', 'option', 'label']
OTHER = ['div', 'squiznart', 'INPUT', 'Option', 'p', 'FooBar']
TROOLS = [u'True', u'False', u'auto-object', u'none-object', u'on', u'off', u'auto', u'1', u'0', u'yes', u'no', u'TRUE', u'nil', u'bogus', u't', u'', u'true', u'false', u'FALSE', u'No', u'Auto', u'T', u' on', u'off ']
KEYS = [u'name', u'value', u'id', u'for_', u'tabindex', u'checked', u'selected', u'class_', u'title', u'data', u'type', u'id_', u'class__', u'Alpha', u'Name', u'zZ', u'data-x']


def rand_sets(rng, n=None, unknown=True):
    out = []
    for k in rng.sample(NAMES, rng.randint(0, 3) if n is None else n):
        if k == 'domid_format':
            v = rng.choice([u'f_%s', u'-%s-', u'%s', u'<%s>&'])
        elif k == 'tabindex':
            v = rng.choice([-2, -1, 0, 1, 1, 2, 9, 100])
        elif k == 'filters':
            v = [rng.choice(sorted(FILTERS)) for _ in range(rng.randint(0, 3))]
        elif k == 'ordered_attributes':
            v = rng.choice([u'True', u'True', u'False'])
        elif k == 'markup_wrapper':
            v = rng.choice(sorted(WRAPS))
        else:
            v = rng.choice(TROOLS)
        out.append([k, v])
    if unknown and rng.random() < 0.08:
        out.insert(rng.randint(0, len(out)), [rng.choice(['xyzzy', 'auto_id', 'Auto_name', 'name']), u'on'])
    return out


def rand_attrs(rng, bound):
    out, seen = [], set()
    for k in rng.sample(KEYS, rng.randint(0, 4)):
        key = k.rstrip(u'_')
        if key in seen:
            continue
        seen.add(key)
        if key == u'type':
            v = rng.choice([u'text', u'radio', u'checkbox', u'checkbox', u'password', u'file', u'image', u'hidden', u'submit', u'other'])
            out.append({'k': k, 't': 's', 's': v})
            continue
        t = rng.choice(['s', 's', 's', 's', 'h', 'n'])
        if key == u'value' and t != 's':
            t = rng.choice(['s', 'h'])
        if t == 'n' and key == u'name':
            t = 's'
        s = rng.choice(NASTY)
        if key == u'value' and isinstance(bound, dict) and rng.random() < 0.5:
            vs = bound.get('v')
            vs = vs if isinstance(vs, list) else [vs]
            if vs and isinstance(vs[0], unicode):
                s = vs[0]
            elif vs and isinstance(vs[0], int):
                s = unicode(vs[0])
        a = {'k': k, 't': t, 's': u'' if t == 'n' else s}
        if t == 'h':
            a['s'] = rng.choice([u'&amp;', u'&lt;i&gt;', u'x', u'&#33;', u"<i k='v'>&", u"'"])
            if key == u'title':
                a['raw'] = True
        out.append(a)
    if rng.random() < 0.2 and not seen & set([u'type', u'value', u'checked']):
        # a choice: its value may be among what is bound
        out.append({'k': u'type', 't': 's', 's': rng.choice([u'radio', u'checkbox'])})
        if rng.random() < 0.75:
            vs = bound.get('v')
            vs = [x for x in (vs if isinstance(vs, list) else [vs]) if isinstance(x, unicode)]
            out.append({'k': u'value', 't': 's', 's': rng.choice(vs or [u'', u'1', u'on'])})
        if rng.random() < 0.4:
            out.append({'k': u'checked', 't': 's', 's': u'checked'})
    for k in NAMES[:6]:
        if rng.random() < 0.22:
            v = rng.choice(TROOLS)
            out.append({'k': k, 't': {'True': 'b', 'False': 'b', 'auto-object': 'm', 'none-object': 'n'}.get(v, 's'),
                        's': u'' if v == u'none-object' else v})
    rng.shuffle(out)
    return out


def directed(rng):
    """A tag whose transforms have something to decide about its bind."""
    d = rand_bind(rng)
    while d['k'] == 'none' or (d['k'] == 'int' and rng.random() < 0.5):
        d = rand_bind(rng)
    name = rng.choice(['input', 'input', 'input', 'option', 'textarea', 'label', 'button', 'select', 'form'])
    if name == 'textarea' or rng.random() < 0.15:
        d = {'k': 'str', 'raw': True, 'name': d['name'], 'v': rng.choice([u'', u' ', u'\n']) + rng.choice(NASTY) + rng.choice([u'', u' ', u'\n', u'\t\t'])}
    A = lambda k, v, t='s': attrs.append({'k': k, 't': t, 's': v})
    attrs, c = [], {'t': 'n', 's': u'', 'say': False}
    vs = d.get('v')
    vs = [x if isinstance(x, unicode) else unicode(x) for x in (vs if isinstance(vs, list) else [vs]) if x is not None and not isinstance(x, (list, bool))]
    vs = vs + [d['true']] if d['k'] == 'bool' else vs
    value = lambda: rng.choice(vs) if vs and rng.random() < 0.6 else rng.choice(NASTY)
    if name == 'input':
        kind = rng.choice([u'radio', u'checkbox', u'checkbox', u'text', u'password', u'hidden', u'file'])
        A(u'type', kind)
        if rng.random() < 0.65:
            A(u'value', value())
        if rng.random() < 0.4:
            A(u'checked', u'checked')
    elif name == 'option':
        if rng.random() < 0.4:
            A(u'value', value())
        if rng.random() < 0.7:
            c = {'t': 's', 's': rng.choice([u'', u' ', u'\n']) + value() + rng.choice([u'', u' '])}
        if rng.random() < 0.4:
            A(u'selected', u'selected')
    elif name in ('button', 'textarea') and rng.random() < 0.3:
        A(u'value', value())
    for k, known in ((u'id', 'auto_domid'), (u'name', 'auto_name'), (u'for', 'auto_for'), (u'tabindex', 'auto_tabindex')):
        if rng.random() < 0.12:
            A(k + (u'_' if k == u'for' else u''), rng.choice(NASTY))
        if rng.random() < 0.45:
            A(known, rng.choice([u'on', u'on', u'off', u'auto']))
    if rng.random() < 0.35:
        A(u'auto_value', rng.choice([u'on', u'on', u'off', u'auto']))
    rng.shuffle(attrs)
    return name, d, attrs, c


def rand_contents(rng):
    t = rng.choice(['n', 'n', 's', 'h'])
    if t == 'n':
        return {'t': 'n', 's': u'', 'say': rng.random() < 0.3}
    return {'t': t, 's': rng.choice([u'', u'a', u' abc ', u'x', u'1', u' 12\n', u'text'] if t == 's' else [u'<i>x</i>', u'&amp;', u'a', u''])}


def random_history(w, rng, scoped):
    world = World(w)
    # few names, much opening and closing: several tags of one name are open
    few = scoped and rng.random() < 0.4
    kinds = rng.sample(KINDS, rng.choice([1, 1, 2])) if few else KINDS
    other = rng.sample(OTHER, 1) if few else OTHER
    p_get, p_close, p_held = (0.55, 0.72, 0.9) if few else (0.42, 0.5, 0.25)
    world.new(rng.choice([u'xhtml', u'html', u'xml']), rand_sets(rng, unknown=False))
    for _ in range(rng.randint(4, 25)):
        r = rng.random()
        g = rng.randint(1, len(world.gens)) if world.gens else 0
        if not g or (r < 0.04 and len(world.gens) < 3):
            world.new(rng.choice([u'xhtml', u'html', u'xml', u'html5', u'']), rand_sets(rng))
        elif r < 0.06 and not scoped:
            d = rand_bind(rng)
            if d['k'] != 'none':
                world.escaped(d)
        elif r < 0.12:
            world.settle('begin', g, rand_sets(rng))
        elif r < 0.22:
            world.settle('set', g, rand_sets(rng))
        elif r < 0.25:
            world.settle('update', g, rand_sets(rng, 1)[:1])
        elif r < 0.33:
            world.settle('end', g, [])
        elif r < p_get:
            if rng.random() < 0.6:
                world.get(g, rng.choice(kinds), False)
            else:
                world.get(g, rng.choice(kinds + other), True)
        elif r < p_close and world.held[g - 1]:
            n = len(world.held[g - 1])
            world.close(g, rng.randint(max(1, n - 3 - 3 * few), n))
        elif not few and rng.random() < 0.4:
            name, d, attrs, c = directed(rng)
            world.op('call', g, 0, name, d, attrs, c, rng.random() < 0.3)
        else:
            d = rand_bind(rng)
            attrs, c = rand_attrs(rng, d), rand_contents(rng)
            n = len(world.held[g - 1])
            how = rng.random()
            if how < p_held and n:
                world.op(rng.choice(['open', 'open', 'call']), g, rng.randint(max(1, n - 3 - 3 * few), n), u'', d, attrs, c, rng.random() < 0.5)
            elif how < 0.7 or (d['k'] == 'none' and not attrs and c['t'] == 'n'):
                named = set(a['k'] for a in attrs)
                world.op('call', g, 0, 'input' if u'checked' in named and u'type' in named and not few else rng.choice(kinds + ([] if few else ['input', 'input', 'option'])), d, attrs, c)
            else:
                world.op('call', g, 0, rng.choice(kinds + other), d, attrs, c, True)


def replay(w, n, b):
    world = World(w)
    for op in b['ops']:
        o = op['o']
        if o == 'new':
            world.new(op['markup'], op['sets'])
        elif o in ('begin', 'set', 'end', 'update'):
            world.settle(o, 1, op['sets'])
        elif o == 'get':
            world.get(1, op['name'], True)
        elif o == 'close':
            world.close(1, op['tag'])
        else:
            world.op(o, 1, op['tag'], op['name'], op['bind'], op['attrs'], op['contents'], op['by'])


def main():
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for n, line in enumerate(open(prof[1:])):
            guarded(w, replay, w, n, json.loads(line))
    else:
        rng = random.Random('markup-%s-%d-%d' % (prof, seed, shard))
        while w.n < budget:
            guarded(w, random_history, w, rng, prof == 'C18')
    w.close()
    os._exit(0)


main()
