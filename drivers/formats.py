# -*- coding: utf-8 -*-
"""Validators of text formats: e-mail, URLs, checksums, cards, phones (C22, C25)."""
import os
import sys
import unicodedata
import urlparse as std

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *  # noqa
from flatland import validation
from flatland.ext import creditcard

NIL = u'~none'
SIX = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']
ALL = ['scheme', 'username', 'password', 'hostname', 'port', 'path', 'params', 'query', 'fragment']
CF = {'allowed': [u'*'], 'parts': SIX, 'all': ALL, 'required': [], 'forbidden': [], 'default': True, 'discard': [u'fragment'],
      'localpat': u'', 'domainpat': u'', 'nonlocal': True, 'ext': u'no'}
NOPARTS = dict((p, u'') for p in SIX)
LOCALPAT = {'bob': re.compile(u'bob\\Z'), 'letters': re.compile(u'[a-z]+\\Z'), 'prefix': re.compile(u'b')}
DOMAINPAT = {'tld': re.compile(u'^(?:[A-Za-z0-9\\-]+\\.)*(?:com|org)\\Z')}


class Parser(object):
    def __init__(self, how, given):
        self.how, self.given = how, given

    def urlparse(self, url):
        if self.how == 'raise' or url is None:
            raise ValueError('no URL')
        return std.ParseResult(*[self.given[p] for p in SIX])

    def urlunparse(self, parts):
        return u'|'.join(parts)


def rules(d, container):
    out = {}
    for part, q in d:
        out[str(part)] = True if q['any'] else {'tuple': tuple, 'list': list, 'set': set}[container](q['of'])
    return out


def idna(u):
    """Its domain in ASCII, as Python's own codec has it."""
    if u.count(u'@') != 1:
        return {'ok': False, 't': u''}
    try:
        return {'ok': True, 't': txt(u.split(u'@')[1].encode('idna').decode('ascii'))}
    except UnicodeError:
        return {'ok': False, 't': u''}
    except:
        return None             # this platform's codec fails in a way of its own


def judge(w, name, cf, value, label=u'', msgs=(), parser=u'std', given=None, style='kw', through=False, kind='str', container='tuple'):
    kw = dict((str(k), m['a']) for k, m in msgs)
    sub = {}
    if name == 'URLValidator':
        if cf['allowed'] != [u'*'] or style == 'sub':
            sub['allowed_schemes'] = tuple(cf['allowed']) if container == 'tuple' or cf['allowed'] == [u'*'] else list(cf['allowed'])
        if cf['parts'] != SIX:
            sub['allowed_parts'] = {'tuple': tuple, 'list': list, 'set': set}[container](cf['parts'])
    elif name == 'HTTPURLValidator':
        if not cf['default']:
            sub.update(all_parts=tuple(cf['all']), required_parts=rules(cf['required'], container), forbidden_parts=rules(cf['forbidden'], container))
    elif name == 'URLCanonicalizer':
        if cf['discard'] != [u'fragment']:
            sub['discard_parts'] = tuple(cf['discard'])
    elif name == 'IsEmail':
        if not cf['nonlocal']:
            sub['non_local'] = False
        if cf['localpat']:
            sub['local_part_pattern'] = LOCALPAT[cf['localpat']]
        if cf['domainpat']:
            sub['domain_pattern'] = DOMAINPAT[cf['domainpat']]
    if parser != u'std':
        sub['urlparse'] = Parser(parser, given or NOPARTS)
    if name == 'NANPphone':
        kw['extensions'] = {'no': False, 'yes': True, 'strip': 'strip'}[cf['ext']]
    K = getattr(validation, name)
    s = {'str': String.using(strip=False), 'strip': String, 'int': Integer, 'long': Long}[kind].named(u'nm')
    if label:
        s = s.using(label=label)
    el = s()
    if value is not None:
        el.set(value)
    norm = lambda: NIL if el.value is None else txt(el.value)
    before, u = norm(), txt(el.u)
    op = {'o': 'check', 'v': name, 'cf': cf, 'value': before, 'u': u, 'label': label or u'nm', 'msgs': list(msgs), 'parser': parser,
          'given': dict(given or NOPARTS, ok=True), 'domain': idna(u) if name == 'IsEmail' else {'ok': False, 't': u''}}
    if op['domain'] is None:
        return
    if name == 'NANPphone':
        op['ascii'] = u''.join(unicode(unicodedata.digit(c, c)) if c.isdigit() else c for c in (u if before == NIL else before))
    w.doing(op)
    try:
        if style == 'sub':
            v = type('Sub', (K,), dict(sub))(**kw)
        else:
            kw.update(sub)
            v = K(**kw)
        if through:
            el.validators = [v]
            res = txt(repr(el.validate()))
        else:
            res = txt(repr(v(el, None)))
    except Exception as x:
        res = exc_name(x)
    w.done()
    w.rec({'h': w.h, 'op': op, 'res': res, 'errors': [txt(m) for m in el.errors], 'value': norm(), 'u': txt(el.u),
           'warnings': len(el.warnings)})


# --------------------------------------------------------------------------
SCHEMES = [u'http', u'http', u'https', u'ftp', u'HTTP', u'mailto', u'x', u'svn+ssh', u'file', u'1a', u'', u'h_t', u'tel', u'Ssh']
HOSTS = [u'there', u'a.b.c', u'EXAMPLE.com', u'', u'[::1]', u'[::1', u'a]b', u'x[y', u'h\xe9', u'10.0.0.1', u'a b']
USERS = [None, None, None, u'me', u'me:you', u':', u'a:b:c', u'', u'x@y', u'me:']
PORTS = [None, None, None, u'80', u'', u'x', u'65535', u'65536', u'-1', u' 8', u'080', u'8:9', u'+7', u'0']
PATHS = [u'', u'/', u'/p', u'/p/q', u'p', u'//p', u'/p;a', u';a', u'/a;b/c', u'/a;b/c;d', u'80', u'/%20', u'///', u':', u'/x:y']
QUERIES = [None, None, u'', u'a=b', u'a?b', u'/', u'x#']
FRAGMENTS = [None, None, u'', u'f', u'f#g', u'a?b']
SOUP = u'http:/?#;@[].a1-+ \n%'


def rand_url(rng):
    r = rng.random()
    if r < 0.12:
        return u''.join(rng.choice(SOUP) for _ in range(rng.randint(0, 12)))
    s = rng.choice(SCHEMES)
    out = s + u':' if s or rng.random() < 0.1 else u''
    if rng.random() < 0.85:
        user, port = rng.choice(USERS), rng.choice(PORTS)
        out += u'//' + (user + u'@' if user is not None else u'') + rng.choice(HOSTS) + (u':' + port if port is not None else u'')
    out += rng.choice(PATHS)
    q, f = rng.choice(QUERIES), rng.choice(FRAGMENTS)
    if q is not None:
        out += u'?' + q
    if f is not None:
        out += u'#' + f
    if r < 0.25:
        out = rng.choice([u' ', u'\n', u'\t ']) + out + rng.choice([u'', u' ', u'\n'])
    elif r < 0.33 and out:
        i = rng.randrange(len(out))
        out = out[:i] + rng.choice(SOUP) + out[i + rng.randint(0, 1):]
    return out


def some(rng, pool, p=0.5):
    return [x for x in pool if rng.random() < p]


def demand(rng, part):
    if rng.random() < 0.5:
        return {'any': True, 'of': []}
    pool = {'scheme': [u'http', u'https', u'ftp'], 'hostname': [u'there', u'example.com', u'::1'], 'port': [u'80', u'0', u'65535', u'7'],
            'path': [u'/', u'', u'/p'], 'username': [u'me', u''], 'password': [u'you', u''], 'params': [u'a', u''], 'query': [u'a=b', u''],
            'fragment': [u'f', u'']}[part]
    return {'any': False, 'of': some(rng, pool, 0.6) or [pool[0]]}


def url_messages(rng, names):
    if rng.random() < 0.4:
        return []
    return [[n, {'f': u's', 'a': rng.choice([n, u'%%(label)s: %s' % n]), 'b': u'', 'key': u''}] for n in names]


def url_case(w, rng):
    w.h += 1
    name = rng.choice(['URLValidator', 'HTTPURLValidator', 'URLCanonicalizer'])
    cf = dict(CF)
    value = rand_url(rng) if rng.random() < 0.97 else None
    if name == 'URLValidator':
        if rng.random() < 0.5:
            cf['allowed'] = some(rng, [u'http', u'https', u'ftp', u'mailto', u'x'])
        if rng.random() < 0.6:
            cf['parts'] = some(rng, SIX, 0.7)
        msgs = url_messages(rng, [u'bad_format', u'blocked_scheme', u'blocked_part'])
    elif name == 'HTTPURLValidator':
        if rng.random() < 0.7:
            cf['default'] = False
            cf['all'] = ALL if rng.random() < 0.7 else some(rng, rng.sample(ALL, len(ALL)), 0.7)
            cf['required'] = [[p, demand(rng, p)] for p in some(rng, ALL, 0.2)]
            cf['forbidden'] = [[p, demand(rng, p)] for p in some(rng, ALL, 0.2)]
        msgs = url_messages(rng, [u'bad_format', u'required_part', u'forbidden_part'])
    else:
        if rng.random() < 0.7:
            cf['discard'] = some(rng, rng.sample(SIX, 6), rng.choice([0, 0.2, 0.5, 1]))
        msgs = url_messages(rng, [u'bad_format'])
    parser, given = u'std', None
    if rng.random() < 0.1:
        parser = rng.choice([u'raise', u'given'])
        given = dict((p, rng.choice([u'', u'http' if p == 'scheme' else u'v'])) for p in SIX)
    judge(w, name, cf, value, rng.choice([u'', u'', u'The Label']), msgs, parser, given, rng.choice(['kw', 'sub']), rng.random() < 0.3,
          rng.choice(['str', 'str', 'strip']), rng.choice(['tuple', 'list', 'set']))


C63, C64 = u'x' * 63, u'y' * 64
LOCALS = [u'bob', u'bob', u'b', u'alice', u'', u' ', u'\t', u'a b', u'#"$!+,,', u'\xe9', u'bob.x', u' bob', u'Bob', u'bob\n']
LABELS = [u'com', u'org', u'noob', u'a', u'A-b', u'-', u'', u'1', u'b_b', u'b b', u'snow\u2603man', u'\xe9', C63, C64, u'a/b', u'com\n', u'\u3002', u'xn--a', u'COM',
          u'a\uff0eb', u'\n', u'\xdf']


def email_case(w, rng):
    w.h += 1
    cf = dict(CF, localpat=rng.choice([u'', u'', u'', u'bob', u'letters', u'prefix']), domainpat=rng.choice([u'', u'', u'tld']), nonlocal_=1)
    cf.pop('nonlocal_')
    cf['nonlocal'] = rng.random() < 0.7
    good = rng.random() < 0.6
    labels = [rng.choice(LABELS[:5] if good else LABELS) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.08:
        labels = [C63] * 3 + [u'z' * rng.choice([60, 61, 62, 57])]
    ats = rng.choice([u'@'] * 12 + [u'', u'@@'])
    addr = rng.choice(LOCALS[:4] if good else LOCALS) + ats + u'.'.join(labels)
    if rng.random() < 0.1:
        addr += rng.choice([u'\n', u'.', u' ', u'@', u'\r\n'])
    msgs = url_messages(rng, [u'invalid'])
    judge(w, 'IsEmail', cf, addr, rng.choice([u'', u'The Label']), msgs, style=rng.choice(['kw', 'sub']), through=rng.random() < 0.3,
          kind=rng.choice(['str', 'str', 'strip']))


def luhn_number(rng, n):
    ds = [rng.randint(0, 9) for _ in range(n)]
    return int(u''.join(map(str, ds)))


def luhn_case(w, rng):
    w.h += 1
    n = rng.choice([0, 5, 18, 26, 59, 79927398713, 79927398710, 4111111111111111, 378282246310005, 10 ** 40, None, -18, -5, u'x'] +
                   [luhn_number(rng, rng.randint(1, 20)) for _ in range(14)])
    judge(w, 'Luhn10', dict(CF), n, rng.choice([u'', u'The Label']), url_messages(rng, [u'invalid']), style=rng.choice(['kw', 'sub']),
          through=rng.random() < 0.3, kind=rng.choice(['int', 'long']))


PHONES = [u'5035551212', u'(503) 555-1212', u'503.555.1212', u'1 503 555 1212', u'503555121', u'', u'x', u'5035551212x23', u'503-555-1212 ext 4567',
          u'0000000000', u'0035551212', u'50355512129', u'+1 (503) 555-1212', u'503 005 0012', u' 5 0 3 5 5 5 1 2 1 2 ']


def phone_case(w, rng):
    w.h += 1
    s = rng.choice(PHONES)
    if rng.random() < 0.4:
        s = u''.join(rng.choice(u'0123456789 -') for _ in range(rng.choice([8, 10, 12, 14, 20, 26])))
    if rng.random() < 0.15:
        # digits of another script; a leading zero would be lost with them
        zero = rng.choice([0x660, 0x6f0, 0x966, 0xff10])
        s = u''.join(unichr(zero + int(c)) if c in u'0123456789' and rng.random() < 0.8 else c for c in s)
        if [unicodedata.digit(c) for c in s if c.isdigit()][:1] == [0]:
            return
    ds = u''.join(unicode(unicodedata.digit(c)) for c in s if c.isdigit())
    if ds[10:11] == u'0':
        return                  # an extension is written as a number
    judge(w, 'NANPphone', dict(CF, ext=rng.choice([u'no', u'yes', u'strip'])), s if rng.random() < 0.97 else None, rng.choice([u'', u'The Label']),
          url_messages(rng, [u'invalid', u'noext']), through=rng.random() < 0.3, kind=rng.choice(['str', 'strip']))


CARDS = {u'Visa': creditcard.VISA, u'MasterCard': creditcard.MASTERCARD, u'American Express': creditcard.AMEX, u'Discover': creditcard.DISCOVER}
KINDS = sorted(CARDS)


def card(w, raw, accepted, label, how):
    w.h += 1
    K = creditcard.CreditCardNumber.named(u'nm')
    if label:
        K = K.using(label=label)
    if how != 'inst' and (accepted != [u'Visa', u'MasterCard', u'American Express'] or how == 'using'):
        K = K.using(accepted=tuple(CARDS[a] for a in accepted))
    op = {'o': 'card', 'kind': 'none' if raw is None else 'int' if isinstance(raw, (int, long)) else 'text', 'raw': NIL if raw is None else txt(raw),
          'accepted': accepted, 'label': label or u'nm'}
    w.doing(op)
    r = {'h': w.h, 'op': op, 'set': u'?', 'value': u'?', 'u': u'?', 'res': u'?', 'errors': []}
    try:
        el = K(accepted=tuple(CARDS[a] for a in accepted)) if how == 'inst' else K()
        r['set'] = txt(repr(el.set(raw)))
        r['value'] = NIL if el.value is None else txt(el.value)
        r['u'] = txt(el.u)
        r['res'] = txt(repr(el.validate()))
        r['errors'] = [txt(e) for e in el.errors]
    except Exception as x:
        r['res'] = exc_name(x)
    w.done()
    w.rec(r)


def checked(s):
    """s completed by the digit that makes its checksum right."""
    for d in u'0123456789':
        tot = 0
        for i, c in enumerate(reversed(s + d)):
            v = int(c) * (2 if i % 2 else 1)
            tot += v - 9 if v > 9 else v
        if tot % 10 == 0:
            return s + d


def rand_card(rng):
    head = rng.choice([u'4', u'4', u'51', u'55', u'56', u'50', u'34', u'37', u'35', u'6011', u'6012', u'0', u'9', u''])
    n = rng.choice([16, 16, 16, 15, 15, 13, 14, 17])
    body = (head + u''.join(rng.choice(u'0123456789') for _ in range(n)))[:n - 1]
    s = checked(body) if rng.random() < 0.8 else body + rng.choice(u'0123456789')
    r = rng.random()
    if r < 0.3:
        return int(s) * (-1 if rng.random() < 0.1 else 1)
    if r < 0.7:
        return s
    i = rng.randint(0, len(s))
    sep = rng.choice([u'-', u' ', u'  ', u'----', u'\t', u'\n', u'x', u'.'])
    return rng.choice([s[:i] + sep + s[i:], s + u'\n', u' ' + s, s + u'   ', u'-'.join([s[:4], s[4:8], s[8:12], s[12:]])])


def card_case(w, rng):
    raw = rng.choice([None, u'', u' ' * 15, u'-' * 16, u'1' * 14, u'x' * 16, 0, 5, u' - ' * 6, u'4' + u' ' * 15, u'-' * 12 + u'4111', u'0' * 15, u' 1-8' + u'-' * 12, u'5105 1051 0510 51 00', u'42' + u' -' * 8]) if rng.random() < 0.1 else rand_card(rng)
    acc = [u'Visa', u'MasterCard', u'American Express'] if rng.random() < 0.5 else rng.sample(KINDS, rng.randint(1, 4))
    card(w, raw, acc, rng.choice([u'', u'The Card']), rng.choice(['using', 'class', 'inst']))


CASES = {'C22': [url_case] * 6 + [email_case] * 3 + [luhn_case], 'C25': [card_case, card_case, phone_case]}


def replay(w, n, b):
    w.h += 1
    if b['o'] == 'card':
        raw = b['raw']
        card(w, int(raw) if b['kind'] == 'int' else raw, b['accepted'], u'', 'using')
        return
    cf = dict(CF, **b['cf'])
    v = b['value']
    judge(w, b['v'], cf, v if b['v'] != 'Luhn10' else int(v), style=['kw', 'sub'][n % 2], through=n % 3 == 0,
          kind='long' if b['v'] == 'Luhn10' else 'str', container=['tuple', 'list', 'set'][n % 3],
          msgs=[[m, {'f': u's', 'a': m, 'b': u'', 'key': u''}] for m in b.get('msgs', [])])


if __name__ == '__main__':
    prof, out, seed, shard, budget = main_args()
    w = Writer(out)
    if prof.startswith('@'):
        for n, line in enumerate(open(prof[1:])):
            guarded(w, replay, w, n, json.loads(line))
    else:
        rng = random.Random('formats-%s-%d-%d' % (prof, seed, shard))
        cases = CASES.get(prof) or CASES['C22'] + CASES['C25']
        while w.n < budget:
            guarded(w, rng.choice(cases), w, rng)
    w.close()
    os._exit(0)
