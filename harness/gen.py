"""Random LGR documents: the same abstract document is written as XML for the real code and as JSON for the spec."""
import unicodedata
from xml.sax.saxutils import quoteattr, escape

NS = 'urn:ietf:params:xml:ns:lgr-1.0'
LATIN = [0x61, 0x62, 0x63, 0x64, 0x65, 0x66]
# code points of several planes: their order is that of the numbers, not of the notations
WIDER = [[0x10330, 0x10331, 0x10332, 0x61, 0x62], [0x62, 0x63, 0x64, 0x10331, 0x3b1], [0x20000, 0x20001, 0x20002, 0x4e00, 0x9fa0], [0x3b1, 0x3b2, 0x3b3, 0x9fa0, 0x10330, 0x61]]
WIDE = [[0x3b1, 0x3b2, 0x3b3, 0x61, 0x4e00], [0x62, 0x63, 0x64, 0x9fa0, 0x431], [0x4e00, 0x4e01, 0x4e02, 0xe9, 0x61]]   # picu cuts the text it matches to 16 bits
TYPES = ['blocked', 'allocatable', 'activated', 'invalid', 'x', 'y', 'fallback']
SCRIPT_OF = {}   # filled below: code point -> ISO 15924 alpha4, for property classes
for _c in range(0x61, 0x7b):
    SCRIPT_OF[_c] = 'Latn'
for _c in (0xe9, 0xe0, 0xf1, 0x101):
    SCRIPT_OF[_c] = 'Latn'
for _c in range(0x3b1, 0x3ca):
    SCRIPT_OF[_c] = 'Grek'
for _c in range(0x430, 0x450):
    SCRIPT_OF[_c] = 'Cyrl'
for _c in list(range(0x30, 0x3a)) + [0x2d, 0xb7]:
    SCRIPT_OF[_c] = 'Zyyy'


def hx(cp):
    return ' '.join('%04X' % c for c in cp)


# ------------------------------------------------------------------ classes and rules (ASTs)
def rand_class(rng, alpha, depth, names=(), tags=()):
    r = rng.random()
    if depth <= 0 or r < 0.45:
        r2 = rng.random()
        if names and r2 < 0.25:
            return dict(t='cref', name=rng.choice(list(names)))
        if tags and r2 < 0.5:
            return dict(t='tag', tag=rng.choice(list(tags)))
        if r2 < 0.6:
            return prop_class(rng, alpha)
        k = 0 if rng.random() < 0.08 else rng.randint(1, min(3, len(alpha)))
        return dict(t='cps', cps=sorted(rng.sample(alpha, k)), form=rng.choice(['text', 'runs', 'elem', 'mixed']))
    t = rng.choice(['union', 'inter', 'diff', 'symd', 'compl'])
    n = 1 if t == 'compl' else (rng.randint(2, 3) if t == 'union' else 2)
    return dict(t=t, kids=[rand_class(rng, alpha, depth - 1, names, tags) for _ in range(n)])


def prop_class(rng, alpha):
    if rng.random() < 0.5:
        v = rng.choice(['Nd', 'Pd', 'Nd', 'Lm', 'Ll'])
        ext = [c for c in alpha + [0x7a] if unicodedata.category(chr(c)).startswith(v)]
        return dict(t='prop', name='gc', value=v, ext=ext)
    v = rng.choice(['Latn', 'Grek', 'Cyrl', 'Hebr'])
    ext = [c for c in alpha + [0x7a] if SCRIPT_OF.get(c) == v]
    return dict(t='prop', name='sc', value=v, ext=ext)


def fix_prop(c, alpha):
    """Recompute property extensions over a (larger) alphabet."""
    if c['t'] == 'prop':
        if c['name'] == 'gc':
            c['ext'] = [x for x in alpha if unicodedata.category(chr(x)).startswith(c['value'])]
        else:
            c['ext'] = [x for x in alpha if SCRIPT_OF.get(x) == c['value']]
    for k in c.get('kids', ()):
        fix_prop(k, alpha)


ONE = dict(min=1, max=1, cnt=False)


def rand_count(rng, behind=False):
    r = rng.random()
    if r < 0.55:
        return dict(min=1, max=1, cnt=False)
    if r < 0.65:
        n = rng.randint(1, 3)
        return dict(min=n, max=n, cnt=True)
    if r < 0.85:
        return dict(min=rng.randint(0, 2), max=-1, cnt=True)
    lo = rng.randint(0, 2)
    return dict(min=lo, max=lo + rng.randint(0, 2), cnt=True)


def leaf(rng, alpha, env, counted=True):
    cnt = rand_count(rng) if counted else dict(ONE)
    r2 = rng.random()
    if r2 < 0.2:
        return dict(t='any', **cnt)
    if r2 < 0.6:
        n = 1 if rng.random() < 0.75 else rng.randint(2, 3)
        return dict(t='char', cps=[rng.choice(alpha) for _ in range(n)], **cnt)
    return dict(t='class', cls=rand_class(rng, alpha, 1, env['classes'], env['tags']), **cnt)


def rand_matcher(rng, alpha, depth, env, ctx='plain', behind=False):
    """env: dict(classes=[names], rules=[names], tags=[...]).  Unbounded counts only on leaves and on groups of
    uncounted leaves: nested unbounded counts make any backtracking matcher exponential."""
    r = rng.random()
    if depth <= 0 or r < 0.55:
        r2 = rng.random()
        if r2 < 0.08:
            return dict(t='start', **ONE)
        if r2 < 0.16:
            return dict(t='end', **ONE)
        return leaf(rng, alpha, env)
    r2 = rng.random()
    if r2 < 0.6:
        t = 'choice' if r2 < .4 else 'rule'
        lo = 0 if t == 'rule' and rng.random() < .06 else 1
        if rng.random() < 0.35:
            cnt = rand_count(rng)
            kids = [leaf(rng, alpha, env, False) for _ in range(rng.randint(1, 2))]
            if t == 'choice' and rng.random() < .15:   # a choice that cannot be taken
                kids.insert(rng.randint(0, len(kids)), dict(t='class', cls=dict(t='cps', cps=[], form='elem'), **ONE))
            return dict(t=t, kids=kids, **cnt)
        return dict(t=t, kids=[rand_matcher(rng, alpha, depth - 1, env, ctx, behind) for _ in range(rng.randint(lo, 3))], **ONE)
    refs = env.get('flat', []) if behind else env['rules']
    if r2 < 0.75 and refs:
        cnt = dict(ONE)
        name = rng.choice(refs)
        if behind and name in env.get('fixed', ()):
            cnt = rand_count(rng)
        elif not behind and rng.random() < .3:
            cnt = rng.choice([dict(min=2, max=2, cnt=True), dict(min=0, max=1, cnt=True), dict(min=1, max=2, cnt=True)])
        return dict(t='ref', name=name, **cnt)
    if r2 < 0.87 and not behind:
        return dict(t='ahead', kids=[rand_matcher(rng, alpha, depth - 1, env, ctx, behind) for _ in range(rng.randint(1, 2))], **ONE)
    if not behind:
        return dict(t='behind', kids=[rand_matcher(rng, alpha, depth - 1, env, ctx, True) for _ in range(rng.randint(1, 2))], **ONE)
    return dict(t='char', cps=[rng.choice(alpha)], **rand_count(rng))


def flat(kids):
    """No look-around and no rule reference anywhere: fit for a look-behind, whose length must be bounded."""
    return all(k['t'] not in ('ahead', 'behind', 'ref') and flat(k.get('kids', ())) for k in kids)


def rand_rule_body(rng, alpha, env, depth=2):
    n = 0 if rng.random() < 0.03 else rng.randint(1, 3)
    return [rand_matcher(rng, alpha, depth, env) for _ in range(n)]


def simple_env(env):
    """Context-free environment: rule references are to unanchored rules only."""
    return dict(classes=env['classes'], tags=env['tags'], rules=env.get('plain', []), flat=env.get('flat', []), fixed=env.get('fixed', []))


def rand_anchored(rng, alpha, env):
    """look-behind? anchor look-ahead? -- the shapes RFC 7940 section 6.4 provides, plus a choice of two."""
    e = simple_env(env)

    def one():
        body = []
        if rng.random() < 0.7:
            kids = [rand_matcher(rng, alpha, 1, e, behind=True) for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.25:
                kids = [dict(t='start', **ONE)] + kids[:1]
            body.append(dict(t='behind', kids=kids, **ONE))
        body.append(dict(t='anchor', **ONE))
        if rng.random() < 0.7:
            kids = [rand_matcher(rng, alpha, 1, e) for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.25:
                kids = kids[:1] + [dict(t='end', **ONE)]
            body.append(dict(t='ahead', kids=kids, **ONE))
        return body
    if rng.random() < 0.2:
        return [dict(t='choice', kids=[dict(t='rule', kids=one(), **ONE) for _ in range(2)], **ONE)]
    return one()


# ------------------------------------------------------------------ XML emission
def count_attr(n):
    if not n.get('cnt'):
        return ''
    if n['max'] == -1:
        return ' count="%d+"' % n['min']
    if n['max'] == n['min'] and not n.get('colon'):
        return ' count="%d"' % n['min']
    return ' count="%d:%d"' % (n['min'], n['max'])


def runs(cps):
    out = []
    for c in cps:
        if out and out[-1][1] + 1 == c:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def class_xml(c, extra=''):
    t = c['t']
    if t == 'cps':
        if c.get('form') == 'elem':
            return '<class%s>%s</class>' % (extra, ''.join('<char cp="%04X"/>' % x for x in c['cps']))
        if c.get('form') == 'mixed':
            return '<class%s>%s</class>' % (extra, ''.join('<char cp="%04X"/>' % a if a == b else '<range first-cp="%04X" last-cp="%04X"/>' % (a, b) for a, b in runs(c['cps'])))
        if c.get('form') == 'runs':
            return '<class%s>%s</class>' % (extra, ' '.join('%04X' % a if a == b else '%04X-%04X' % (a, b) for a, b in runs(c['cps'])))
        return '<class%s>%s</class>' % (extra, ' '.join('%04X' % x for x in c['cps']))
    if t == 'tag':
        return '<class%s from-tag="%s"/>' % (extra, c['tag'])
    if t == 'prop':
        return '<class%s property="%s:%s"/>' % (extra, c['name'], c['value'])
    if t == 'cref':
        return '<class%s by-ref="%s"/>' % (extra, c['name'])
    tag = dict(union='union', inter='intersection', diff='difference', symd='symmetric-difference', compl='complement')[t]
    return '<%s%s>%s</%s>' % (tag, extra, ''.join(class_xml(k) for k in c['kids']), tag)


def matcher_xml(n):
    t = n['t']
    if t in ('start', 'end', 'anchor'):
        return '<%s/>' % t
    if t == 'any':
        return '<any%s/>' % count_attr(n)
    if t == 'char':
        return '<char cp="%s"%s/>' % (hx(n['cps']), count_attr(n))
    if t == 'class':
        return class_xml(n['cls'], count_attr(n))
    kids = ''.join(matcher_xml(k) for k in n.get('kids', ()))
    if t == 'choice':
        return '<choice%s>%s</choice>' % (count_attr(n), kids)
    if t == 'rule':
        return '<rule%s>%s</rule>' % (count_attr(n), kids)
    if t == 'ref':
        return '<rule by-ref="%s"%s/>' % (n['name'], count_attr(n))
    if t == 'ahead':
        return '<look-ahead>%s</look-ahead>' % kids
    if t == 'behind':
        return '<look-behind>%s</look-behind>' % kids
    raise ValueError(t)


def opt(name, val):
    return ' %s=%s' % (name, quoteattr(val)) if val else ''


def action_xml(a):
    s = '<action' + opt('match', a['match']) + opt('not-match', a['nmatch'])
    key = dict(any='any-variant', all='all-variants', only='only-variants').get(a['vk'])
    if key:
        s += ' %s="%s"' % (key, ' '.join(a['vs']))
    return s + ' disp="%s"' % a['disp'] + opt('comment', a.get('comment')) + opt('ref', ' '.join(a.get('refs', ()))) + '/>'


def decl_xml(d):
    if d['k'] == 'class':
        return class_xml(d['def'], opt('name', d['name']) + opt('comment', d.get('comment')) + (
            opt('ref', ' '.join(d.get('refs', ()))) if d['def']['t'] in ('cps', 'tag', 'prop') else ''))
    if d['k'] == 'rule':
        return '<rule%s>%s</rule>' % (opt('name', d['name']) + opt('comment', d.get('comment')) + opt('ref', ' '.join(d.get('refs', ()))),
                                      ''.join(matcher_xml(k) for k in d['kids']))
    return action_xml(d)


def item_xml(it):
    com = opt('when', it.get('when')) + opt('not-when', it.get('nwhen')) + opt('tag', ' '.join(it.get('tags', ()))) + \
        opt('ref', ' '.join(it.get('refs', ()))) + opt('comment', it.get('comment'))
    if it['k'] == 'range':
        return '<range first-cp="%04X" last-cp="%04X"%s/>' % (it['first'], it['last'], com)
    vs = ''.join('<var cp="%s"%s/>' % (hx(v['cp']), opt('type', v.get('type')) + opt('when', v.get('when')) +
                                       opt('not-when', v.get('nwhen')) + opt('ref', ' '.join(v.get('refs', ()))) +
                                       opt('comment', v.get('comment'))) for v in it['vars'])
    if vs:
        return '<char cp="%s"%s>%s</char>' % (hx(it['cp']), com, vs)
    return '<char cp="%s"%s/>' % (hx(it['cp']), com)


def meta_xml(m):
    s = ''
    if m.get('version'):
        s += '<version%s>%s</version>' % (opt('comment', m.get('version_comment')), escape(m['version']))
    if m.get('date'):
        s += '<date>%s</date>' % m['date']
    for l in m.get('languages', ()):
        s += '<language>%s</language>' % l
    for sc in m.get('scopes', ()):
        s += '<scope%s>%s</scope>' % (opt('type', sc[1]), escape(sc[0]))
    if m.get('validity_start'):
        s += '<validity-start>%s</validity-start>' % m['validity_start']
    if m.get('validity_end'):
        s += '<validity-end>%s</validity-end>' % m['validity_end']
    if m.get('unicode_version'):
        s += '<unicode-version>%s</unicode-version>' % m['unicode_version']
    if m.get('description'):
        s += '<description%s>%s</description>' % (opt('type', m.get('description_type')), escape(m['description']))
    if m.get('refs'):
        s += '<references>%s</references>' % ''.join(
            '<reference id=%s%s>%s</reference>' % (quoteattr(r['id']), opt('comment', r.get('comment')), escape(r['value'])) for r in m['refs'])
    return s


def to_xml(doc):
    s = '<?xml version="1.0" encoding="utf-8"?>\n<lgr xmlns="%s">' % NS
    if doc.get('meta') is not None:
        s += '<meta>%s</meta>' % meta_xml(doc['meta'])
    s += '<data>%s</data>' % '\n'.join(item_xml(it) for it in doc['items'])
    if doc.get('decls'):
        ds = '\n'.join(decl_xml(d) for d in doc['decls'])
        s += '<rules>%s</rules>' % (ds.replace('><', '>\n    <') if doc.get('indent') else ds)
    return s + '</lgr>'


# ------------------------------------------------------------------ spec view
def spec_vars(vs):
    return [dict(cp=v['cp'], when=v.get('when') or '', nwhen=v.get('nwhen') or '', type=v.get('type') or '') for v in vs]


def spec_chars(items):
    out = []
    for it in items:
        base = dict(when=it.get('when') or '', nwhen=it.get('nwhen') or '', tags=list(it.get('tags', ())))
        if it['k'] == 'range':
            for c in range(it['first'], it['last'] + 1):
                out.append(dict(base, cp=[c], vars=[]))
        else:
            out.append(dict(base, cp=it['cp'], vars=spec_vars(it['vars'])))
    return out


def spec_lgr(doc):
    d = doc.get('decls', [])
    return dict(chars=spec_chars(doc['items']),
                classes=[dict(name=x['name'], **{'def': x['def']}) for x in d if x['k'] == 'class'],
                rules=[dict(name=x['name'], kids=x['kids']) for x in d if x['k'] == 'rule'],
                actions=[dict(disp=x['disp'], match=x['match'], nmatch=x['nmatch'], vk=x['vk'], vs=x['vs'])
                         for x in d if x['k'] == 'action'])


# ------------------------------------------------------------------ random documents
def rand_doc(rng, alpha=None, nchars=(3, 7), seqs=0.35, ranges=0.25, vars_p=0.6, ctx_p=0.25, ctx_var_p=0.2, nrules=(0, 3),
             nclasses=(0, 2), nactions=(0, 3), tags_p=0.3, types=None, sym=False, refl_p=0.2, meta=None, max_seq=3,
             rule_depth=2, typed_p=0.8, anchored_p=0.6, comments=False, refs=(), wide=False):
    alpha = list(alpha or (LATIN[:rng.randint(3, 6)] if rng.random() < .75 else rng.choice(WIDER if wide else WIDE)))
    types = types or TYPES
    tags = ['t%d' % k for k in range(rng.randint(1, 3))] if rng.random() < 0.7 else []
    decls = []
    env = dict(classes=[], rules=[], tags=tags + (['undef'] if rng.random() < .1 else []), plain=[], flat=[])
    for k in range(rng.randint(*nclasses)):
        cd = rand_class(rng, alpha, 2, env['classes'], env['tags'])
        while cd['t'] == 'cref':   # a named class may not itself be a reference
            cd = rand_class(rng, alpha, 2, env['classes'], env['tags'])
        decls.append(dict(k='class', name='c%d' % k, **{'def': cd}))
        env['classes'].append('c%d' % k)
    names, anch = [], []
    for k in range(rng.randint(*nrules)):
        n = 'r%d' % k
        if rng.random() < anchored_p:
            body = rand_anchored(rng, alpha, env)
            anch.append(n)
        else:
            body = rand_rule_body(rng, alpha, simple_env(env), rule_depth)
            env['plain'].append(n)
            if flat(body):
                env['flat'].append(n)
                if body and all(k['t'] in ('any', 'char', 'class') and not k['cnt'] for k in body):
                    env.setdefault('fixed', []).append(n)
        decls.append(dict(k='rule', name=n, kids=body))
        names.append(n)

    def ctx(p):
        if not names or rng.random() >= p:
            return '', ''
        n = rng.choice(names)
        return (n, '') if rng.random() < 0.5 else ('', n)

    items, used = [], set()
    # ranges
    if rng.random() < ranges and len(alpha) >= 3 and alpha[:3] == list(range(alpha[0], alpha[0] + 3)):
        a = rng.randint(0, 1)
        first, last = alpha[a], alpha[a] + rng.randint(1, 2)
        if all(c in alpha for c in range(first, last + 1)):
            w, nw = ctx(ctx_p)
            items.append(dict(k='range', first=first, last=last, when=w, nwhen=nw,
                              tags=[t for t in tags if rng.random() < tags_p], refs=[], comment=''))
            used |= {(c,) for c in range(first, last + 1)}
    cand = []
    for _ in range(rng.randint(*nchars)):
        n = rng.randint(2, max_seq) if rng.random() < seqs else 1
        cand.append(tuple(rng.choice(alpha) for _ in range(n)))
    if rng.random() < 0.5:
        cand += [(c,) for c in alpha]
    if rng.random() < 0.4:      # sequences that begin with one another
        cand += [cp + (rng.choice(alpha),) for cp in cand if 1 < len(cp) < max_seq + 1] + [cp[:-1] for cp in cand if len(cp) > 2]
    for cp in cand:
        if cp in used:
            continue
        used.add(cp)
        w, nw = ctx(ctx_p)
        items.append(dict(k='char', cp=list(cp), when=w, nwhen=nw, tags=[t for t in tags if rng.random() < tags_p] if len(cp) == 1 else [],
                          refs=[], comment='', vars=[]))
    pool = sorted(used)
    for it in items:
        if it['k'] != 'char' or rng.random() >= vars_p:
            continue
        ids = set()
        for _ in range(rng.randint(1, 3)):
            tgt = it['cp'] if rng.random() < refl_p else list(rng.choice(pool)) if rng.random() < 0.85 else \
                [rng.choice(alpha) for _ in range(rng.randint(1, 2))]
            w, nw = ctx(ctx_var_p)
            key = (tuple(tgt), w, nw)
            if key in ids:
                continue
            ids.add(key)
            it['vars'].append(dict(cp=tgt, when=w, nwhen=nw, type=rng.choice(types) if rng.random() < typed_p else '', refs=[], comment=''))
    rng.shuffle(items)
    for _ in range(rng.randint(*nactions)):
        decls.append(rand_action(rng, names, types))
    if rng.random() < 0.2:   # declarations of actions may precede other rules
        decls_r = [d for d in decls if d['k'] != 'action']
        decls = decls_r + [d for d in decls if d['k'] == 'action']
    return dict(meta=meta, items=items, decls=decls, alpha=alpha)


DISPS = ['valid', 'invalid', 'blocked', 'allocatable', 'activated', 'zz']


def rand_action(rng, rules, types=TYPES):
    m = nm = ''
    if rules and rng.random() < 0.5:
        if rng.random() < 0.5:
            m = rng.choice(rules)
        else:
            nm = rng.choice(rules)
    vk = rng.choice(['none', 'any', 'all', 'only'])
    vs = sorted(rng.sample(types, rng.randint(1, 2))) if vk != 'none' else []
    return dict(k='action', disp=rng.choice(DISPS), match=m, nmatch=nm, vk=vk, vs=vs)


def rand_label(rng, doc, maxlen=5, inside=0.85):
    """A label mostly assembled from repertoire entries."""
    entries = []
    for it in doc['items']:
        if it['k'] == 'range':
            entries += [[c] for c in range(it['first'], it['last'] + 1)]
        else:
            entries.append(it['cp'])
    n = rng.randint(1, maxlen)
    lab = []
    while len(lab) < n:
        if entries and rng.random() < inside:
            lab += rng.choice(entries)
        else:
            lab.append(rng.choice(doc['alpha'] + [0x7a]))
    return lab[:maxlen]
