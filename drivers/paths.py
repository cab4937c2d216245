# -*- coding: utf-8 -*-
"""Lookups by path in generated trees (C07)."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from tree import Gen, Session, cap_lists, seq_op, map_op

PLAIN = [u'a', u'b', u'ab', u'l', u'x', u'0', u'12', u'-1', u'item']
ODD = [u'x/y', u'/', u'.', u'..', u'x[1]', u'[:]', u'[0]', u'a.b', u'...', u'1:2', u'a]', u'[', u'.a', u'caf\xe9', u'a b', u'x\\y', u'..x', u'a..', u' a', u'a ', u' ']


def escape(r, name):
    """A path segment for this name."""
    out = u''
    for i, c in enumerate(name):
        if c in u'/[':
            out += u'\\' + c
        elif c == u'.' and (name in (u'.', u'..') or r.random() < 0.3):
            out += u'\\' + c
        elif c == u']' and r.random() < 0.4:
            out += u'\\' + c
        else:
            out += c
    return out


def snapshot(root):
    order, ids = walk(root)
    nodes = []
    for el in order:
        kids = list(el.children)
        if isinstance(el, dict):
            k = 'dict'
            by = dict((id(el[key]), key) for key in el.keys())
            kn = [txt(by.get(id(c), u'?')) for c in kids]
        elif isinstance(el, list):
            k, kn = 'list', []
        else:
            k, kn = 'leaf', []
        nodes.append({'k': k, 'kids': [ids[id(c)] for c in kids], 'kn': kn})
    return order, ids, nodes


class Look(object):
    def __init__(self, w, root):
        self.w, self.root = w, root
        w.h += 1
        self.refresh()

    def refresh(self):
        self.order, self.ids, self.nodes = snapshot(self.root)
        self.w.rec({'h': self.w.h, 'op': 'tree', 'nodes': self.nodes})

    def emit(self, op, res, exc, **kw):
        ids = []
        if exc == u'':
            if isinstance(res, list) and not (id(res) in self.ids):
                ids = [self.ids.get(id(x), -9) for x in res]
            elif res is not None:
                ids = [self.ids.get(id(res), -9)]
        self.w.done()
        self.w.rec(dict({'h': self.w.h, 'op': op, 'ids': ids, 'exc': exc}, **kw))

    def find(self, at, path, single=False, strict=True):
        el = self.order[at]
        self.w.doing(('find', path))
        res, exc = None, u''
        try:
            res = el.find(path, single=single, strict=strict)
            if not single:
                res = list(res)
        except Exception as e:
            exc = exc_name(e)
        if exc == u'' and not single:
            ids = [self.ids.get(id(x), -9) for x in res]
            self.w.done()
            self.w.rec({'h': self.w.h, 'op': 'find', 'ids': ids, 'exc': u'', 'at': at, 'path': path, 'single': single, 'strict': strict})
        else:
            ids = [] if res is None else [self.ids.get(id(res), -9)]
            self.w.done()
            self.w.rec({'h': self.w.h, 'op': 'find', 'ids': ids, 'exc': exc, 'at': at, 'path': path, 'single': single, 'strict': strict})

    def el(self, at, path, sep):
        el = self.order[at]
        self.w.doing(('el', path))
        res, exc = None, u''
        try:
            res = el.el(path) if sep == u'.' else el.el(path, sep)
        except Exception as e:
            exc = exc_name(e)
        names = isinstance(path, list)
        ids = [] if res is None else [self.ids.get(id(res), -9)]
        self.w.done()
        self.w.rec({'h': self.w.h, 'op': 'el', 'ids': ids, 'exc': exc, 'at': at, 'names': names,
                    'path': u'' if names else path, 'list': [txt(p) for p in path] if names else [], 'sep': sep})


def chain(look, a):
    """[(id, name or index)] from the root down to a."""
    up = {}
    for i, n in enumerate(look.nodes):
        for j, c in enumerate(n['kids']):
            up[c] = (i, n['kn'][j] if n['kn'] else j)
    out = []
    while a in up:
        p, name = up[a]
        out.insert(0, (p, name))
        a = p
    return out


def step(r, look, parent, name):
    """one segment (with its separator) for going down"""
    if isinstance(name, int):
        n = len(look.nodes[parent]['kids'])
        i = r.random()
        if i < 0.3:
            return u'[%d]' % name
        if i < 0.4:
            return u'[%d]' % (name - n)
        if i < 0.5:
            return u'/%d' % name
        if i < 0.55:
            return u'/%d' % (name - n)
        if i < 0.6:
            return u'[%d:%d]' % (name, name + 1)
        if i < 0.94:
            return r.choice([u'[:]', u'[::]', u'[::-1]', u'[:%d]' % (name + 1), u'[%d:]' % name, u'[-2:]', u'[%d::2]' % name, u'[%d:%d:-1]' % (name, name - n - 1)])
        return u'/' + r.choice([u' %d', u'0%d', u'+%d']) % name
    if r.random() < 0.1:
        return u'[:]'
    return u'/' + escape(r, name)


def garbage(r):
    return r.choice([u'/..', u'/.', u'/nope', u'[99]', u'[-99]', u'[:]', u'[0:0]', u'[:0]', u'[1:]', u'[:-1]', u'[::2]', u'[::-1]', u'[-1]', u'[0]',
                     u'[5:2]', u'[3:0:-1]', u'/a', u'/x', u'//', u'/0', u'[bogus]', u'[-]', u'[1:2:3:4]', u'[:-]', u'[a:b]', u'[1-2]', u'[]', u'[0:1:0]',
                     u'[-1::-1]', u'[:1:-1]', u'[-1:0]', u'[00]'])


def a_path(r, look, at):
    n = len(look.nodes)
    target = r.randrange(n)
    down = chain(look, target)
    here = chain(look, at)
    k = r.random()
    if k < 0.45:
        out, cur = u'', down
        absolute = True
    else:
        common = 0
        while common < len(down) and common < len(here) and down[common] == here[common]:
            common += 1
        ups = len(here) - common
        if r.random() < 0.1:
            ups += r.randrange(3)
        out, cur = u'/..' * ups, down[common:]
        absolute = False
    for p, name in cur:
        if r.random() < 0.08:
            out += r.choice([u'/.', u'/q/..', u'/.'])
        out += step(r, look, p, name)
    if r.random() < 0.35:
        out += u''.join(garbage(r) for _ in range(r.randrange(1, 3)))
    if r.random() < 0.1:
        out += u'/'
    if absolute:
        if not out.startswith(u'/'):
            # '[0]' below the root
            out = u'/.' + out if r.random() < 0.5 else (u'/' + out)
        return out if out else u'/'
    out = out[1:] if out.startswith(u'/') else out
    if out.startswith(u'[') and r.random() < 0.4:
        out = u'.' + out
    return out or r.choice([u'.', u'', u'./'])


def sane(path):
    """Stay within the documented syntax: brackets balanced, and a group only
    followed by another group, a slash or the end."""
    import re
    s = re.sub(r'\\[/.\[]', u'__', path)
    s2 = re.sub(r'\[[^\[\]/]*\](?=\[|/|$)', u'', s)
    if u'[' in s2:
        return False
    # a name group does not follow an index, a dot or a slash
    if re.search(r'(^|/|/\.|/\.\.|^\.|^\.\.|\])\[(?!-?\d+\]|(-?\d+)?:(-?\d+)?(:(-?\d+)?)?\])', s):
        return False
    # nothing else between a slash and a lone backslash
    return not re.search(r'\\(/|$)', s)


def history(w, r):
    g = Gen(r, containers=['list', 'list', 'dict', 'dict', 'array', 'sdict', 'mv', 'joined', 'date3'], scalars=['str', 'int'])
    g.names = PLAIN + (ODD if r.random() < 0.6 else [])
    s = g.container(r.choice([2, 3, 3, 4]), r.choice([None, u'r']))
    cap_lists(g, s)
    cls = Factory().build(s)
    root = cls()
    try:
        root.set(g.value(s, ok=True))
    except Exception:
        pass
    if len(walk(root)[0]) > 120:
        return
    look = Look(w, root)
    used = []
    for round_ in range(r.choice([1, 1, 2])):
        for _ in range(r.choice([20, 50])):
            at = r.randrange(len(look.nodes))
            k = r.random()
            if k < 0.7:
                p = r.choice(used) if used and r.random() < 0.15 else a_path(r, look, at)
                if not sane(p):
                    continue
                used.append(p)
                if all(ord(c) < 128 for c in p) and r.random() < 0.1:
                    p = str(p)
                look.find(at, p, r.random() < 0.25, r.random() < 0.55)
            else:
                sep = r.choice([u'.', u'.', u'/', u'::', u'_'])
                names = [txt(n) for _, n in chain(look, r.randrange(len(look.nodes)))]
                lead = True
                if r.random() < 0.5:
                    names = names[len(chain(look, at)):] if r.random() < 0.5 else names[r.randrange(len(names) + 1):]
                    lead = r.random() < 0.3
                if r.random() < 0.25:
                    names.insert(r.randrange(len(names) + 1), r.choice([u'', u'nope', u'0', u'-1', u'99', u' 0', u'..', u'1.0']))
                if r.random() < 0.3:
                    look.el(at, [int(n) if n.isdigit() and n != u'0' * len(n) and n[0] != u'0' and r.random() < 0.5 and n not in PLAIN else n for n in names], u'.')
                else:
                    look.el(at, (sep if lead else u'') + sep.join(names), sep)
        if round_ == 0:
            # change the tree, keep looking
            try:
                root.set(g.value(s, ok=True))
                if r.random() < 0.5:
                    root.set_default()
            except Exception:
                pass
            look.refresh()


def crowd(w, r):
    """Very many distinct paths through one tree."""
    cls = Dict.of(List.named(u'l').of(Integer), String.named(u's'))
    root = cls({u'l': [1, 2, 3], u's': u'x'})
    look = Look(w, root)
    base = r.randrange(10 ** 6)
    for i in range(1600):
        root.find(u'missing%d/x[%d]' % (base + i, i % 7), strict=False)
    for p in [u'l[0]', u'/l[:]', u'fresh%d' % base, u's', u's/../l[1:]', u'l[1]/../..', u'zz/../s', u'l[:0]', u'l[-1]', u'./s']:
        look.find(0, p, False, False)
        look.find(0, p)
    # the paths used before the crowd arrived
    for i in range(0, 1600, 97):
        look.find(0, u'missing%d/x[%d]' % (base + i, i % 7), False, False)


def replay_one(w, b):
    root = Factory().build(b['schema'])()
    root.set(rebuild(b['pv']))
    look = Look(w, root)
    for q in b['paths']:
        for at in range(len(look.nodes)):
            if at not in b['ats']:
                continue
            look.find(at, q)
            look.find(at, q, False, False)
            look.find(at, q, True, True)


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for line in open(prof[1:]):
            guarded(w, replay_one, w, json.loads(line))
    else:
        rng = random.Random(seed * 7919 + shard * 104729)
        while w.n < budget:
            guarded(w, history, w, rng)
            if w.h == 3 or rng.random() < 0.005:
                guarded(w, crowd, w, rng)
    w.close()
