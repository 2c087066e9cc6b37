"""Pairs of LGRs that share much and differ somewhere (C13, C14, C15), and their abstract form."""
import copy, json
import common, docs, gen

WORDS = ['x', 'yy', 'z z', 'a & b', 'é', 'q1']
TYPEK = dict(zip(('any-variant', 'all-variants', 'only-variants'), ('any', 'all', 'only')))


def num(d):
    day = lambda x: int(x.replace('-', '') or 0)
    return dict(uver=[int(x) for x in (d['meta']['uver'] or '0').split('.')], vstart=day(d['meta']['vstart']), vend=day(d['meta']['vend']))


def tree(t):
    """docs.tree with reference lists and variant-type lists made explicit."""
    at = dict(map(tuple, t['at']))
    return dict(tag=t['tag'], at=[a for a in t['at'] if a[0] not in TYPEK], tx=t['tx'], refs=at.get('ref', '').split(),
                types=[[TYPEK[k], v.split(), ' '.join(sorted(v.split()))] for k, v in t['at'] if k in TYPEK],
                kids=[tree(k) for k in t['kids']])


def abstract(xml):
    d = docs.read(xml)
    d['decls'] = [tree(t) for t in d['decls']]
    return d


def rename_refs(doc, rng):
    """The same references under other identifiers."""
    refs = doc['meta'].get('refs', [])
    if not refs:
        return
    ids = [r['id'] for r in refs]
    new = rng.sample(['0', '1', '2', '10', 'A', 'B', 'Z9'], len(ids))
    m = dict(zip(ids, new))
    for r in refs:
        r['id'] = m[r['id']]
    for x in doc['items'] + [v for it in doc['items'] for v in it.get('vars', ())] + doc['decls']:
        x['refs'] = [m[i] for i in x.get('refs', ()) if i in m]


def names(doc, k):
    return [d['name'] for d in doc['decls'] if d['k'] == k]


def tinker(rng, doc, defn, p=.35):
    """Small changes within a rule or class: order and length of a literal, counts, names, code points (in place)."""
    done = []

    def walk(n):
        if isinstance(n, dict):
            if n.get('t') == 'char' and rng.random() < p:
                done.append(1)
                if len(n['cps']) == 1:
                    n['cps'] = rng.choice([n['cps'] + [rng.choice(doc['alpha'])], [rng.choice(doc['alpha'])]])
                else:
                    n['cps'] = n['cps'][::-1] if rng.random() < .7 else n['cps'][:-1]
            elif n.get('t') == 'cps' and rng.random() < p:
                done.append(1)
                n['cps'] = sorted(set(n['cps']) ^ {rng.choice(doc['alpha'])}) or n['cps']
            elif n.get('t') in ('inter', 'union', 'diff', 'symd') and rng.random() < p and len(n.get('kids', ())) == 2:
                done.append(1)
                n['kids'].reverse()
            elif 'cnt' in n and n.get('t') in ('char', 'class', 'any') and rng.random() < p / 3:
                done.append(1)
                n.update(gen.rand_count(rng))
            for v in list(n.values()):
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(defn)
    return bool(done)


def mutate(rng, doc):
    """One difference (in place)."""
    items, decls = doc['items'], doc['decls']
    chars = [it for it in items if it['k'] == 'char']
    rules = names(doc, 'rule')
    tags = sorted({t for it in items for t in it['tags']}) or ['t0']
    op = rng.choice(['drop', 'add', 'tag', 'ctx', 'ctx', 'com', 'refs', 'var', 'var', 'delvar', 'vtype', 'vctx', 'rule', 'rule', 'cls', 'cls', 'act', 'delact',
                     'addact', 'newrule', 'newcls', 'meta', 'meta', 'refids', 'newref', 'shuffle', 'order'])
    if op == 'drop' and items:
        items.remove(rng.choice(items))
    elif op == 'add':
        cp = [rng.choice(doc['alpha'] + [0x70, 0x71]) for _ in range(rng.choice([1, 1, 2]))]
        have = [it['cp'] for it in chars] + [[c] for it in items if it['k'] == 'range' for c in range(it['first'], it['last'] + 1)]
        if cp not in have:
            items.append(dict(k='char', cp=cp, when='', nwhen='', tags=[], refs=[], comment='', vars=[]))
    elif op == 'tag' and items:
        it = rng.choice(items)
        if len(it.get('cp', [0])) == 1:
            it['tags'] = [t for t in tags + ['new'] if rng.random() < .5]
    elif op == 'ctx' and items:
        it = rng.choice(items)
        it['when'], it['nwhen'] = rng.choice([('', '')] + [(r, '') for r in rules] + [('', r) for r in rules])
    elif op == 'com' and items:
        rng.choice(items)['comment'] = rng.choice(WORDS + [''])
    elif op == 'refs' and items and doc['meta'].get('refs'):
        ids = [r['id'] for r in doc['meta']['refs']]
        rng.choice(items)['refs'] = rng.sample(ids, rng.randint(0, min(2, len(ids))))
    elif op in ('var', 'delvar', 'vtype', 'vctx') and chars:
        it = rng.choice(chars)
        if op == 'var':
            w, n = rng.choice([('', '')] + [(r, '') for r in rules] + [('', r) for r in rules])
            cp = rng.choice(chars)['cp'] if rng.random() < .7 else [rng.choice(doc['alpha'])]
            if not any((v['cp'], v.get('when', ''), v.get('nwhen', '')) == (cp, w, n) for v in it['vars']):
                it['vars'].append(dict(cp=list(cp), when=w, nwhen=n, type=rng.choice(['', 'blocked', 'x']), refs=[], comment=rng.choice(WORDS + ['', ''])))
        elif it['vars']:
            v = rng.choice(it['vars'])
            if op == 'delvar':
                it['vars'].remove(v)
            elif op == 'vtype':
                v['type'] = rng.choice(['', 'blocked', 'allocatable', 'new'])
            else:
                w, n = rng.choice([('', '')] + [(r, '') for r in rules])
                if not any((x['cp'], x.get('when', ''), x.get('nwhen', '')) == (v['cp'], w, n) for x in it['vars']):
                    v['when'], v['nwhen'] = w, n
    elif op == 'rule' and rules:
        d = rng.choice([d for d in decls if d['k'] == 'rule'])
        r = rng.random()
        if rng.random() < .4:
            tinker(rng, doc, d['kids'])
        elif r < .4:
            d['kids'] = [dict(t='start', **gen.ONE), dict(t='char', cps=[rng.choice(doc['alpha'])], **gen.ONE)]
        elif r < .7:
            d['comment'] = rng.choice(WORDS)
        elif doc['meta'].get('refs'):
            d['refs'] = [rng.choice(doc['meta']['refs'])['id']]
    elif op == 'cls' and names(doc, 'class'):
        d = rng.choice([d for d in decls if d['k'] == 'class'])
        if rng.random() < .4:
            tinker(rng, doc, d['def'])
        elif rng.random() < .7:
            d['def'] = dict(t='cps', cps=sorted(rng.sample(doc['alpha'], 2)), form='text')
        else:
            d['comment'] = rng.choice(WORDS)
    elif op in ('act', 'delact', 'addact'):
        acts = [d for d in decls if d['k'] == 'action']
        if op == 'addact':
            decls.append(dict(gen.rand_action(rng, rules), refs=[], comment=''))
        elif acts:
            a = rng.choice(acts)
            if op == 'delact':
                decls.remove(a)
            elif rng.random() < .5:
                k = rng.choice(['disp', 'match', 'nmatch', 'vk', 'vs', 'com', 'swap'])
                if k == 'swap':
                    b = rng.choice(acts)
                    i, j = decls.index(a), decls.index(b)
                    decls[i], decls[j] = b, a
                elif k == 'com':
                    a['comment'] = rng.choice(WORDS)
                elif k == 'vs' and a['vs']:
                    a['vs'] = sorted(set(a['vs']) ^ {rng.choice(['blocked', 'x', 'new'])}) or ['x']
                else:
                    n = gen.rand_action(rng, rules)
                    ks = ('vk', 'vs') if k == 'vk' else ('match', 'nmatch') if k in ('match', 'nmatch') else ('disp',)
                    for q in ks:
                        a[q] = n[q]
            else:
                a.update(gen.rand_action(rng, rules))
    elif op == 'newrule':
        n = 'r%d' % len(rules) if rng.random() < .5 else 'mine'
        if n not in rules:
            k = [dict(t='anchor', **gen.ONE), dict(t='ahead', kids=[dict(t='char', cps=[rng.choice(doc['alpha'])], **gen.ONE)], **gen.ONE)]
            pos = max([j for j, d in enumerate(decls) if d['k'] != 'action'] + [-1]) + 1
            decls.insert(pos, dict(k='rule', name=n, kids=k, refs=[], comment=''))
            if items and rng.random() < .7:
                it = rng.choice(items)
                it['when'], it['nwhen'] = n, ''
    elif op == 'newcls':
        n = 'c%d' % len(names(doc, 'class')) if rng.random() < .5 else 'kl'
        if n not in names(doc, 'class'):
            decls.insert(0, dict(k='class', name=n, **{'def': dict(t='cps', cps=[rng.choice(doc['alpha'])], form='text')}, refs=[], comment=''))
    elif op == 'meta':
        other = docs.rich(rng, dict(items=[], decls=[]), WORDS)['meta']
        k = rng.choice(['version', 'version_comment', 'date', 'languages', 'scopes', 'validity_start', 'validity_end', 'unicode_version', 'description',
                        'description_type'])
        sc = doc['meta'].get('scopes')
        if k == 'scopes' and sc and rng.random() < .7:
            x = rng.choice(sc)
            if rng.random() < .6:
                x[1] = rng.choice(['domain', 'http://x.y', ''])
            else:
                x[0] = rng.choice(['.', 'a.b', 'x'])
        elif k in other:
            doc['meta'][k] = other[k]
        else:
            doc['meta'].pop(k, None)
    elif op == 'refids':
        rename_refs(doc, rng)
    elif op == 'newref':
        ids = [r['id'] for r in doc['meta'].get('refs', ())]
        i = rng.choice(['0', '1', '2', '3', 'N'])
        if i not in ids:
            doc['meta'].setdefault('refs', []).append(dict(id=i, value=rng.choice(WORDS), comment=rng.choice(['', 'c'])))
    elif op == 'shuffle':
        rng.shuffle(items)
    elif op == 'order':
        for it in items:
            rng.shuffle(it['tags'])
            it['refs'] = list(it['refs'])
            rng.shuffle(it['refs'])
    return op


def same_notation(rng, *ds):
    """The same code points are written the same way: definitions that differ by this alone may or may not count as the same."""
    form = rng.choice(['text', 'runs'])

    def walk(n):
        if isinstance(n, dict):
            if n.get('t') == 'cps' and n.get('form', 'text') in ('text', 'runs'):
                n['form'] = form
            n = list(n.values())
        if isinstance(n, list):
            for v in n:
                walk(v)
    walk([d['decls'] for d in ds])


def rand_pair(rng, words=None):
    a = docs.rich(rng, gen.rand_doc(rng, wide=True, nchars=(1, 5), nclasses=(0, 3), ctx_p=.35, ctx_var_p=.3), words or docs.TEXTS)
    if rng.random() < .25:
        b = docs.rich(rng, gen.rand_doc(rng, wide=True, nchars=(1, 5), nclasses=(0, 3), ctx_p=.35), words or docs.TEXTS)
    else:
        b = copy.deepcopy(a)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
            mutate(rng, b)
    for d in (a, b):
        d['meta'].setdefault('unicode_version', '15.1.0')
    if rng.random() < .3:
        b['indent'] = True      # the same, laid out differently
    same_notation(rng, a, b)
    if rng.random() < .3:
        a, b = b, a
    return a, b


R = dict(r1=[dict(t='start', **gen.ONE), dict(t='char', cps=[0x61], **gen.ONE)],
         r2=[dict(t='class', cls=dict(t='cref', name='c'), **gen.ONE)])


def side_doc(s, n):
    items = [dict(k='char', cp=[0x62], when='', nwhen='', tags=[], refs=[], comment='', vars=[])]
    if s['here']:
        r = 'r' if s['ctx'] else ''
        items.append(dict(k='char', cp=[0x61], when=r if s['ctx'] == 'when' else '', nwhen=r if s['ctx'] == 'nwhen' else '',
                          tags=['t%d' % n] if s['tag'] else [], refs=[], comment='',
                          vars=[dict(cp=[0x62], when='r' if s['var'] == 'when' else '', nwhen='', type='blocked', refs=[], comment='')] if s['var'] else []))
    decls = []
    if s['rule']:
        decls = [dict(k='class', name='c', **{'def': dict(t='cps', cps=[0x61] if n == 1 or not s['tag'] else [0x62], form='text')}),
                 dict(k='rule', name='r', kids=R[s['rule']])]
    if s['act']:
        decls.append(dict(k='action', disp='blocked', match='r', nmatch='', vk='none', vs=[]))
    return dict(meta=dict(unicode_version='15.1.0'), items=items, decls=decls, alpha=[0x61, 0x62])


def model_pairs(ctx):
    out = common.model_phase(ctx, 'MC_Compare', 'SPECIFICATION Spec\nINVARIANT Algebra\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', workers=1)
    return [(side_doc(c['a'], 1), side_doc(c['b'], 2)) for c in common.printed_cases(out)]


def observe_pair(case, op):
    """op(lgr1, lgr2) -> result, with the inputs before and after."""
    import detach, real, proj
    from lgr.parser.xml_serializer import serialize_lgr_xml
    l1, l2 = real.build(case['doc'][0]), real.build(case['doc'][1])
    ser = lambda l: serialize_lgr_xml(l, pretty_print=False).decode('utf-8')
    o = dict(exc='', A=abstract(ser(l1)), B=abstract(ser(l2)))
    before = [proj.full(l) for l in (l1, l2)]
    res, o['exc'] = real.catch(op, l1, l2)
    o['same'] = [proj.full(l) for l in (l1, l2)] == before
    if o['exc'] == '':
        o['O'] = res if isinstance(res, dict) else abstract(ser(res))
        if not isinstance(res, dict):
            o['num'], o['onum'] = [num(o['A']), num(o['B'])], num(o['O'])
            o['works'] = works(res, case['labels'])
            o['shared'] = detach.shared([res], [l1, l2])
    return o


def works(lgr, labels):
    """The result behaves as the LGR its serialization describes."""
    import real
    from lgr.parser.xml_serializer import serialize_lgr_xml
    again, exc = real.catch(lambda: real.parse_xml(serialize_lgr_xml(lgr).decode('utf-8')))
    if exc:
        return False
    lgr.unicode_database = common.unidb()
    out = []
    for lab in labels:
        x, y = [real.catch(lambda l=l: [list(map(str, z[:2])) + list(z[2:4]) for z in [l.test_label_eligible(lab)]][0][3:] +
                           [sorted((list(map(int, v[0])), v[1]) for v in l.compute_label_disposition(lab))])
                for l in (lgr, again)]
        out.append(x == y and x[1] in ('', 'NotInLGR'))
    return all(out)
