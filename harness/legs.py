"""Which legs decide which property, and which clauses concern it."""

SEQS = ('list', 'array', 'mv', 'joined')
MAPS = ('dict', 'sdict', 'date3')


def rec(f):
    return f['recs'][-1] if f['recs'] else {}


def node(f, fail):
    nodes = rec(f).get('nodes', [])
    i = fail.get('node', 0)
    return nodes[i] if isinstance(i, int) and 0 <= i < len(nodes) else {'k': '?', 'anc': []}


def kinds_above(f, fail):
    """kind of the node and of its ancestors"""
    nodes = rec(f).get('nodes', [])
    n = node(f, fail)
    return [n.get('k')] + [nodes[a]['k'] for a in n.get('anc', []) if 0 <= a < len(nodes)]


def target_kind(f):
    """kind of the element the operation was applied to (before it ran)"""
    r = rec(f)
    at = r.get('op', {}).get('at', [])
    prev = f['recs'][-2] if len(f['recs']) > 1 else r
    nodes = prev.get('nodes', [])
    if not nodes:
        return '?'
    i = 0
    for step in at:
        n = nodes[i]
        try:
            i = n['kids'][n['kn'].index(step)] if n['kn'] else n['kids'][int(step)]
        except (ValueError, IndexError):
            return '?'
    return nodes[i]['k']


BUILD = ('set', 'set_flat', 'set_default', 'from_flat', 'from_defaults', 'start', 'fresh', 'noop')


def tree_trace(profile, **kw):
    return dict(dict(kind='trace', driver='tree.py', profile=profile, spec='TreeTrace'), **kw)


def keep_c01(f, fail):
    if fail['c'] in ('parents', 'root', 'path', 'all_children', 'composed value', 'composed emptiness', 'is_empty'):
        return False
    if fail['c'] == 'result':
        return target_kind(f) == 'list'
    return target_kind(f) == 'list' or 'list' in kinds_above(f, fail)


def keep_c02(f, fail):
    return fail['c'] in ('parents', 'root', 'path', 'all_children', 'el', 'aliased member')


def keep_c03(f, fail):
    return f['op'] == 'roundtrip' or fail['c'] in ('flatten', 'flattened_name')


def keep_c04(f, fail):
    return f['op'] in ('set_flat', 'from_flat') and fail['c'] in ('result', 'value', 'members', 'text')


def keep_c10(f, fail):
    if fail['c'] == 'result':
        return target_kind(f) in MAPS
    return fail['c'] in ('members', 'value') and (
        target_kind(f) in MAPS or f['op'] in BUILD) and node(f, fail).get('k') in MAPS + ('?',)


def keep_c12(f, fail):
    mine = ('array', 'mv', 'joined')
    if fail['c'] == 'result':
        return target_kind(f) in mine
    if fail['c'] in ('parents', 'root', 'path', 'all_children', 'el', 'fq_name'):
        return False
    return target_kind(f) in mine or any(k in mine for k in kinds_above(f, fail))


def keep_c13(f, fail):
    return f['op'] in ('set_default', 'from_defaults', 'default_value', 'fresh') and fail['c'] in (
        'result', 'value', 'members', 'text')


def keep_c14(f, fail):
    if 'nodes' not in rec(f):
        return True                    # from the thread histories
    if fail['c'] in ('parents', 'root', 'path', 'all_children', 'el', 'fq_name', 'flattened_name'):
        return False
    if fail['c'] == 'result':
        return target_kind(f) == 'date3' or 'init' in f['op']
    return 'date3' in kinds_above(f, fail) or target_kind(f) == 'date3'


def keep_c17(f, fail):
    return fail['c'] in ('text', 'attributes', 'number of attributes', 'contents', 'tag')


def keep_c18(f, fail):
    return fail['c'] not in ('attributes', 'number of attributes') and not (
        fail['c'] == 'text' and f['op'] == 'call' and rec(f).get('op', {}).get('tag') == 0 and not in_scope(f))


def in_scope(f):
    # a plain tag says something about scoping once there were scopes or changes
    return any(r.get('op', {}).get('o') in ('begin', 'set', 'end', 'update', 'open') for r in f['recs'])


def keep_c23(f, fail):
    return fail['c'] in ('composed value', 'composed emptiness', 'text', 'is_empty') or f['op'] in (
        'compare', 'compare_other', 'hash', 'bool')


FORM_CLAUSES = ('class fields', 'class field names', 'attributes left', 'keys of a new form')


def keep_c16(f, fail):
    return f['op'] == 'form' or fail['c'] in FORM_CLAUSES and any(
        r.get('op', {}).get('o') == 'form' for r in f['recs'])


def keep_c09(f, fail):
    return f['op'] != 'form' or fail['c'] not in FORM_CLAUSES


def tree_mc(group, **kw):
    return dict(dict(kind='mc', spec='MCTree', cfg='MCTree_%s_q.cfg' % group, tcfg='MCTree_%s_t.cfg' % group,
                     at_least=100, cap=1500, tcap=25000,
                     replay={'driver': 'tree.py', 'spec': 'TreeTrace'}), **kw)


def trace(driver, spec, profile='x', **kw):
    return dict(dict(kind='trace', driver=driver, profile=profile, spec=spec), **kw)


def mc(spec, q='q', t='t', replay=None, **kw):
    leg = dict(kind='mc', spec=spec, cfg='%s_%s.cfg' % (spec, q), tcfg='%s_%s.cfg' % (spec, t), at_least=10)
    if replay:
        leg['replay'] = {'driver': replay[0], 'spec': replay[1]}
    leg.update(kw)
    return leg


PROPS = {
    'C01': {'legs': [tree_trace('C01'), tree_mc('list'), tree_mc('nest', cap=600)], 'keep': keep_c01},
    'C02': {'legs': [tree_trace('C02'), tree_mc('nest')], 'keep': keep_c02},
    'C03': {'legs': [tree_trace('C03'), tree_mc('nest')], 'keep': keep_c03},
    'C04': {'legs': [tree_trace('C04'), tree_mc('list', cap=800), tree_mc('nest', cap=800)], 'keep': keep_c04},
    'C05': {'legs': [trace('scalars.py', 'ScalarTrace', budget=6000, shards=10),
                     mc('MCScalar', at_least=5000, replay=('scalars.py', 'ScalarTrace'))]},
    'C06': {'legs': [trace('valid.py', 'ValidTrace', budget=3500, shards=12),
                     mc('MCValid', at_least=5000, cap=2500, tcap=40000, replay=('valid.py', 'ValidTrace'))]},
    'C07': {'legs': [trace('paths.py', 'PathTrace', budget=5000, shards=12),
                     mc('MCPath', at_least=3000, cap=600, tcap=8000, workers=6, replay=('paths.py', 'PathTrace'))]},
    'C08': {'legs': [trace('props.py', 'PropsTrace', budget=2000, shards=10),
                     mc('MCProps', at_least=500, cap=500, tcap=12000, replay=('props.py', 'PropsTrace'))]},
    'C09': {'legs': [trace('derive.py', 'DeriveTrace', budget=1800, shards=12),
                     mc('MCDerive', at_least=1000, cap=900, tcap=9000, replay=('derive.py', 'DeriveTrace'))], 'keep': keep_c09},
    'C10': {'legs': [tree_trace('C10'), tree_mc('map', cap=2500)], 'keep': keep_c10},
    'C11': {'legs': [trace('bridge.py', 'BridgeTrace', budget=4000, shards=8),
                     mc('MCBridge', at_least=5000, cap=2500, tcap=30000, replay=('bridge.py', 'BridgeTrace'))]},
    'C12': {'legs': [tree_trace('C12'), tree_mc('seq', cap=1900)], 'keep': keep_c12},
    'C13': {'legs': [tree_trace('C13'), tree_mc('nest')], 'keep': keep_c13},
    'C14': {'legs': [tree_trace('C14'), tree_mc('map', cap=1200),
                     trace('threads.py', 'CompoundTrace', budget=2200, shards=6),
                     mc('MCCompound', at_least=1000, workers=2, replay=('threads.py', 'CompoundTrace'))], 'keep': keep_c14},
    'C15': {'legs': [trace('refs.py', 'RefTrace', budget=3000, shards=10),
                     mc('MCRef', at_least=5000, cap=3000, tcap=30000, replay=('refs.py', 'RefTrace'))]},
    'C16': {'legs': [trace('derive.py', 'DeriveTrace', budget=1200, shards=8),
                     trace('derive.py', 'DeriveTrace', 'forms', budget=1200, shards=6),
                     mc('MCDerive', at_least=1000, cap=2500, tcap=30000, replay=('derive.py', 'DeriveTrace'))], 'keep': keep_c16},
    'C17': {'legs': [trace('markup.py', 'MarkupTrace', 'C17', budget=4000, shards=10),
                     mc('MCMarkup', at_least=10000, cap=4000, tcap=40000, replay=('markup.py', 'MarkupTrace'))], 'keep': keep_c17},
    'C18': {'legs': [trace('markup.py', 'MarkupTrace', 'C18', budget=4000, shards=10),
                     mc('MCMarkup', at_least=10000, cap=2500, tcap=40000, cfg='MCScopes_q.cfg', tcfg='MCScopes_t.cfg',
                        replay=('markup.py', 'MarkupTrace'))], 'keep': keep_c18},
    'C19': {'legs': [trace('markup.py', 'MarkupTrace', 'C19', budget=4000, shards=10),
                     mc('MCMarkup', at_least=10000, cap=4000, tcap=40000, replay=('markup.py', 'MarkupTrace'))]},
    'C24': {'legs': [trace('gens.py', 'GenshiTrace', budget=2500, shards=10),
                     mc('MCGenshi', at_least=10000, cap=3000, tcap=30000, replay=('gens.py', 'GenshiTrace'))]},
    'C20': {'legs': [trace('messages.py', 'MessagesTrace', budget=3000, shards=10),
                     mc('MCMessages', at_least=5000, cap=3000, tcap=30000, replay=('messages.py', 'MessagesTrace'))]},
    'C21': {'legs': [trace('rules.py', 'RulesTrace', budget=3000, shards=10),
                     mc('MCRules', at_least=8000, cap=4000, tcap=40000, replay=('rules.py', 'RulesTrace'))]},
    'C22': {'legs': [trace('formats.py', 'FormatsTrace', 'C22', budget=3000, shards=10),
                     mc('MCFormats', at_least=40000, cap=4000, tcap=40000, replay=('formats.py', 'FormatsTrace'))]},
    'C25': {'legs': [trace('formats.py', 'FormatsTrace', 'C25', budget=2000, shards=6),
                     mc('MCNumbers', at_least=10000, cap=3000, tcap=30000, replay=('formats.py', 'FormatsTrace'))]},
    'C23': {'legs': [tree_trace('C23'), tree_mc('nest')], 'keep': keep_c23},
}
