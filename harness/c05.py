"""C05 rule matching, before and after edits of the definitions the rules depend on."""
import copy, itertools, pickle
import common, gen, real, small

SPEC = 'T_C05'


# Unicode databases of other versions: properties that are other ones there
DBS = [{}, {'Latn': 'Grek', 'Ll': 'Nd'}, {'Nd': 'Ll', 'Grek': 'Cyrl', 'Cyrl': 'Latn'}]


ALT = []


def other_db(k):
    """A new database object."""
    import fastdb
    if not ALT:
        class DB(fastdb.FastDB):
            def __init__(self, kind):
                self.__dict__.update(common.unidb().__dict__)
                self.kind = kind

            def get_set(self, iterable=None, pattern=None, freeze=False):
                if pattern:
                    name, value = pattern[3:-1].split('=')
                    pattern = '\\p{%s=%s}' % (name, DBS[self.kind].get(value, value))
                return fastdb.FastDB.get_set(self, iterable, pattern, freeze)
        ALT.append(DB)
    return ALT[0](k)


def spec(doc):
    """The LGR of the specification, properties being those of the present database."""
    L = copy.deepcopy(gen.spec_lgr(doc))
    m = DBS[doc.get('db', 0)]
    if m:
        def fix(x):
            if isinstance(x, dict):
                if x.get('t') == 'prop':
                    y = dict(t='prop', name=x['name'], value=m.get(x['value'], x['value']))
                    gen.fix_prop(y, doc['alpha'] + [0x7a])
                    x['ext'] = y['ext']
                for v in x.values():
                    fix(v)
            elif isinstance(x, list):
                for v in x:
                    fix(v)
        fix(L)
    return L


def edit(rng, doc):
    """One edit of the abstract document; returns the operation for the real LGR."""
    tags = sorted({t for it in doc['items'] for t in it['tags']} | {'t0'})
    single = [it for it in doc['items'] if it['k'] == 'char' and len(it['cp']) == 1]
    ranges = [it for it in doc['items'] if it['k'] == 'range']
    have = {c for it in doc['items'] for c in (range(it['first'], it['last'] + 1) if it['k'] == 'range' else
                                               (it['cp'] if len(it['cp']) == 1 else []))}
    classes = [d for d in doc['decls'] if d['k'] == 'class']
    rules = [d for d in doc['decls'] if d['k'] == 'rule']
    ops = ['deltag', 'class', 'rule', 'addcp', 'delcp', 'addrange', 'delrange', 'copy', 'pickle', 'db']
    while True:
        op = 'db' if doc.get('props') and rng.random() < .6 else rng.choice(ops)
        if op == 'db':   # other databases, in a row: the last one is the one that counts
            doc['db'] = rng.randint(0, len(DBS) - 1)
            return dict(op=op, dbs=[rng.randint(0, len(DBS) - 1) for _ in range(rng.randint(0, 4))] + [doc['db']])
        if op == 'deltag':
            t = rng.choice(tags)
            if not any(t in it['tags'] for it in doc['items']):
                continue
            for it in doc['items']:
                it['tags'] = [x for x in it['tags'] if x != t]
            return dict(op=op, tag=t)
        if op == 'addcp':
            free = [c for c in doc['alpha'] if c not in have and c != 0x25]
            if not free:
                continue
            c, ts = rng.choice(free), rng.sample(tags, rng.randint(1, min(2, len(tags))))
            doc['items'].append(dict(k='char', cp=[c], when='', nwhen='', tags=ts, refs=[], comment='', vars=[]))
            return dict(op=op, cp=c, tags=ts)
        if op == 'delcp':
            if not single:
                continue
            it = rng.choice(single)
            doc['items'].remove(it)
            return dict(op=op, cp=it['cp'][0])
        if op == 'addrange':
            free = [c for c in range(0x61, 0x70) if c not in have and c + 1 not in have]
            if not free:
                continue
            c, ts = rng.choice(free[:3]), [rng.choice(tags)]
            doc['items'].append(dict(k='range', first=c, last=c + 1, when='', nwhen='', tags=ts, refs=[], comment=''))
            return dict(op=op, first=c, last=c + 1, tags=ts)
        if op == 'delrange':
            if not ranges:
                continue
            it = rng.choice(ranges)
            doc['items'].remove(it)
            return dict(op=op, first=it['first'], last=it['last'])
        if op in ('copy', 'pickle'):
            if rng.random() < .5:
                continue
            return dict(op=op)
        if op == 'class' and classes:
            d = rng.choice(classes)
            k = classes.index(d)
            new = gen.rand_class(rng, doc['alpha'], 1, [x['name'] for x in classes[:k]], tags)
            if new['t'] == 'cref':
                continue
            d['def'] = new
            return dict(op=op, name=d['name'], **{'def': new})
        if op == 'rule' and rules:
            k = rng.randrange(len(rules))
            d = rules[k]
            used = any(uses(x['kids'], d['name']) for x in rules)
            env = dict(classes=[x['name'] for x in classes], tags=tags, flat=[],
                       rules=[x['name'] for x in rules[:k] if not hasanchor(x['kids'])])
            if used:
                d['kids'] = [gen.leaf(rng, doc['alpha'], env, False) for _ in range(rng.randint(1, 2))]
            else:
                d['kids'] = gen.rand_anchored(rng, doc['alpha'], env) if rng.random() < .5 else \
                    gen.rand_rule_body(rng, doc['alpha'], env)
            return dict(op=op, name=d['name'], kids=d['kids'])


def uses(kids, name):
    return any((k['t'] == 'ref' and k['name'] == name) or uses(k.get('kids', ()), name) for k in kids)


def hasanchor(kids):
    return any(k['t'] == 'anchor' or hasanchor(k.get('kids', ())) for k in kids)


def counted(kids):
    """How many repeated code points, classes or groups a body holds; references and groups in groups count as many."""
    n = 0
    for k in kids:
        n += 1 if k.get('cnt') else 0
        n += 9 if k['t'] == 'ref' or k.get('cnt') and len(k.get('kids', ())) > 1 else 0
        n += counted(k.get('kids', ()))
    return n


def long_rule(rng, alpha):
    """Context of unbounded length on one side or both."""
    def run():
        n = rng.randint(0, 3)
        return dict(rng.choice([dict(t='any'), dict(t='char', cps=alpha[:rng.randint(1, 2)]), dict(t='class', cls=dict(t='cps', cps=alpha[:3]))]),
                    min=n, max=-1, cnt=True)
    one = gen.ONE
    kids = [dict(t='anchor', **one)]
    if rng.random() < .8:
        kids = [dict(t='behind', kids=rng.choice([[dict(t='start', **one)], []]) + [run()], **one)] + kids
    if rng.random() < .4:
        kids.append(dict(t='ahead', kids=[run()] + rng.choice([[dict(t='end', **one)], []]), **one))
    return kids


def rand_ask(rng, doc):
    rules = [d['name'] for d in doc['decls'] if d['k'] == 'rule']
    if 'props' in rules and rng.random() < .7:
        return dict(rule='props', lab=[rng.choice(doc['alpha'] + [0x7a]) for _ in range(rng.randint(1, 4))], anchor=[], at=0)
    if rng.random() < (.5 if 'long' in rules else .08):   # a long label
        name = 'long' if 'long' in rules else rng.choice(rules)
        few = counted([d for d in doc['decls'] if d['k'] == 'rule' and d['name'] == name][0]['kids'])
        n = rng.randint(8, 63 if few <= 2 else 13)
        pat = [rng.choice(doc['alpha']) for _ in range(rng.choice([1, 1, 2, 3]))]
        if 'long' in rules and rng.random() < .6:
            pat = doc['alpha'][:rng.randint(1, 2)]
        lab = (pat * n)[:n - 1] + [rng.choice(doc['alpha'])]
        at = rng.choice([n - 1, n - 1, rng.randrange(n), 0])
        anchor = lab[at:at + 1] if rng.random() < .7 else []
        return dict(rule=name, lab=lab, anchor=anchor, at=at if anchor else 0)
    lab = [rng.choice(doc['alpha'] + [0x7a]) for _ in range(rng.randint(0 if rng.random() < .1 else 1, 6))]
    anchor, at = [], 0
    if lab and rng.random() < .6:
        at = rng.randrange(len(lab))
        anchor = lab[at:at + rng.choice([1, 1, 1, 2, 3])]
        if rng.random() < .05:
            anchor = [rng.choice(doc['alpha'])]
    return dict(rule=rng.choice(rules), lab=lab, anchor=anchor, at=at)


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(2600, 25000)):
        alpha = None
        r = rng.random()
        if r < .1:
            alpha = [0x61, 0x62, 0x25, 0x3b1]
        elif r < .3:
            alpha = rng.sample([0x61, 0x62, 0xe9, 0x3b1, 0x430, 0x4e00, 0x30, 0x2d], 5)
        doc = gen.rand_doc(rng, alpha=alpha, seqs=.2, ctx_p=0, nactions=(0, 0), nrules=(1, 4), nclasses=(0, 3), vars_p=0, tags_p=.5, ranges=.5,
                           rule_depth=3)
        for it in doc['items']:
            it['vars'] = []
        if 0x25 in doc['alpha']:   # not IDNA valid: only in classes and literals
            doc['items'] = [it for it in doc['items'] if it['k'] == 'range' or 0x25 not in it['cp']]
        if rng.random() < .15:
            doc['decls'].append(dict(k='rule', name='long', kids=long_rule(rng, doc['alpha'])))
        if rng.random() < .06:
            doc['props'] = True
            doc['decls'].append(dict(k='rule', name='props', kids=[dict(t='class', cls=gen.prop_class(rng, doc['alpha']), **gen.ONE)
                                                                   for _ in range(rng.randint(1, 2))]))
        case = dict(doc=copy.deepcopy(doc), mode=rng.randint(0, 1), steps=[])
        for k in range(rng.choice([2, 3, 4] if doc.get('props') else [1, 1, 2, 3, 4])):
            ed = edit(rng, doc) if k else dict(op='none')
            case['steps'].append(dict(L=spec(doc), edit=ed,
                                      asks=[rand_ask(rng, doc) for _ in range(6)]))
        out.append(case)
    return out


def apply(lgr, e):
    op = e['op']
    if op == 'deltag':
        lgr.del_tag(e['tag'])
    elif op == 'addcp':
        lgr.add_cp(e['cp'], tag=list(e['tags']))
    elif op == 'delcp':
        lgr.del_cp(e['cp'])
    elif op == 'addrange':
        lgr.add_range(e['first'], e['last'], tag=list(e['tags']))
    elif op == 'delrange':
        lgr.del_range(e['first'], e['last'])
    elif op == 'class':
        lgr.add_class(real.mk_class(e['def'], e['name']))
    elif op == 'rule':
        lgr.add_rule(real.mk_rule(e))
    elif op == 'db':
        for k in e['dbs']:
            lgr.unicode_database = other_db(k)
            for r in lgr.rules_lookup.values():
                real.catch(r.matches, [0x61, 0x62], lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database)
    elif op in ('copy', 'pickle'):
        db = lgr.unicode_database
        lgr = copy.deepcopy(lgr) if op == 'copy' else pickle.loads(pickle.dumps(lgr))
        lgr.unicode_database = db
    return lgr


def observe(case):
    lgr, exc = real.catch(real.build, case['doc'], True, bool(case['mode']))
    if exc:
        return dict(exc=exc, steps=[])
    steps = []
    for st in case['steps']:
        lgr2, exc = real.catch(apply, lgr, st['edit'])
        if exc:
            return dict(exc='edit ' + exc, steps=[])
        lgr = lgr2
        res = []
        for q in st['asks']:
            rule = lgr.rules_lookup[q['rule']]
            kw = dict(anchor=tuple(q['anchor']), index=q['at']) if q['anchor'] else {}
            m, exc = real.catch(rule.matches, q['lab'], lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database, **kw)
            res.append(dict(exc=exc, m=bool(m)))
        steps.append(res)
    return dict(exc='', steps=steps)


def model_cases(ctx):
    """Every small rule body, several to a document."""
    doc, bodies = small.rules(ctx)
    labels = [list(x) for n in range(1, 4) for x in itertools.product([small.A, small.B], repeat=n)] + [[], [small.C, small.A], [small.A, small.C, small.B]]
    asks = [dict(lab=x, anchor=[], at=0) for x in labels] + \
           [dict(lab=x, anchor=x[i:i + n], at=i) for x in labels for i in range(len(x)) for n in (1, 2) if i + n <= len(x)]
    out = []
    for k in range(0, len(bodies), 12):
        d = dict(doc, decls=doc['decls'] + [small.rule('x%d' % j, *b) for j, b in enumerate(bodies[k:k + 12])])
        step = dict(L=gen.spec_lgr(d), edit=dict(op='none'),
                    asks=[dict(q, rule='x%d' % j) for j in range(len(bodies[k:k + 12])) for n, q in enumerate(asks) if ctx.thorough or (n + j + k) % 4 == 0])
        out.append(dict(doc=d, mode=k // 12 % 2, steps=[step]))
    return out


def run(ctx):
    common.trace_phase(ctx, 'c05', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c05', SPEC, cases(ctx))
