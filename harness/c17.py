"""C17: merging an LGR set."""
import datetime, json, os
import common, docs, gen, pairs

SPEC = 'T_C17'
LANGS = ['fr', 'en', 'und-Khmr', 'und-Latn', 'zh-Hans', 'el', 'a.r', 'und-Zyyy']
MSR = 'leading-combining-mark'


def key(lang):
    return lang.replace('und-', 'zzz')


def rename(x, old, new):
    """The rule `old` is called `new` everywhere."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('when', 'nwhen', 'match', 'nmatch') and v == old or k == 'name' and v == old and (x.get('t') == 'ref' or x.get('k') == 'rule'):
                x[k] = new
            else:
                rename(v, old, new)
    elif isinstance(x, list):
        for v in x:
            rename(v, old, new)


def alter(rng, doc, keepctx):
    """A member that shares much with another one."""
    had = {tuple(it.get('cp', ())): (it['when'], it['nwhen']) for it in doc['items']}
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        pairs.mutate(rng, doc)
    if keepctx:
        for it in doc['items']:
            w, n = had.get(tuple(it.get('cp', ())), ('', ''))
            defined = pairs.names(doc, 'rule')
            if it['when'] + it['nwhen'] and w + n in defined:
                it['when'], it['nwhen'] = w, n


def close(doc, rng):
    """Symmetric and transitive variants, keeping those there are."""
    chars = {tuple(it['cp']): it for it in doc['items'] if it['k'] == 'char'}
    ranges = {c for it in doc['items'] if it['k'] == 'range' for c in range(it['first'], it['last'] + 1)}
    for cp, it in chars.items():
        it['vars'] = [v for v in it['vars'] if tuple(v['cp']) in chars]
    comp = {c: c for c in chars}
    find = lambda c: c if comp[c] == c else find(comp[c])
    for cp, it in chars.items():
        for v in it['vars']:
            comp[find(tuple(v['cp']))] = find(cp)
    for a in chars:
        for b in chars:
            if a != b and find(a) == find(b) and not any(tuple(v['cp']) == b for v in chars[a]['vars']):
                chars[a]['vars'].append(dict(cp=list(b), when='', nwhen='', type=rng.choice(['', 'blocked', 'x']), refs=[], comment=''))


def member_set(rng):
    n = rng.choice([2, 2, 2, 3])
    vals = pairs.WORDS if rng.random() < .5 else docs.TEXTS
    first = docs.rich(rng, gen.rand_doc(rng, wide=True, nchars=(1, 5), nclasses=(0, 3), ctx_p=.35, ctx_var_p=.3), vals)
    out = [first]
    import copy
    keep = rng.random() < .7
    while len(out) < n:
        if rng.random() < .3:
            d = docs.rich(rng, gen.rand_doc(rng, wide=True, nchars=(1, 5), nclasses=(0, 3), ctx_p=.2), vals)
        else:
            d = copy.deepcopy(rng.choice(out))
            alter(rng, d, keep)
            if rng.random() < .5:
                pairs.rename_refs(d, rng)
        out.append(d)
    if rng.random() < .25:
        old = rng.choice(pairs.names(first, 'rule') or ['r0'])
        new = rng.choice([MSR, MSR, MSR + '-x', 'match', 'a.b'])
        for d in out:
            if old in pairs.names(d, 'rule') and new not in pairs.names(d, 'rule'):
                rename(d['items'], old, new)
                rename(d['decls'], old, new)
                for r in d['decls']:
                    if r['k'] == 'rule' and r['name'] == MSR:   # the same in all LGRs
                        r['kids'] = [dict(t='start', **gen.ONE), dict(t='class', cls=dict(t='cps', cps=[0x61, 0x62], form='text'), **gen.ONE)]
    if rng.random() < .2:
        for d in out:
            for it in d['items']:
                it['tags'] = ['sc:' + t if rng.random() < .3 else t for t in it['tags']]
    if rng.random() < .6:
        for d in out:
            close(d, rng)
    langs = rng.sample(LANGS, n)
    for d, l in zip(out, langs):
        d['meta'].setdefault('unicode_version', '15.1.0')
        more = [x for x in d['meta'].get('languages', []) if x not in langs]
        d['meta']['languages'] = [l] + more
    return out


def model(ctx, nodes, members, emit):
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(nodes=nodes, members=members, emit=emit), f)
    out = common.model_phase(ctx, 'MC_Merge', 'SPECIFICATION Spec\nINVARIANT ClosedUnion\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
                             env=dict(PAR=par), workers=1 if emit else common.NPROC)
    return list(common.printed_cases(out))


NODES = [[0x61], [0x62], [0x63], [0x61, 0x62]]


def model_cases(ctx):
    rng = ctx.rng
    out = []
    for nodes, members, k in ((4, 2, ctx.scale(900, 2704)), (3, 3, ctx.scale(500, 3375))):
        cs = model(ctx, nodes, members, True)
        for ms in (rng.sample(cs, k) if k < len(cs) else cs):
            ds, langs = [], rng.sample(LANGS, members)
            for m, lang in zip(ms, langs):
                ent = [c for c, g in zip(NODES, m) if g]
                items = [dict(k='char', cp=c, when='', nwhen='', tags=[], refs=[], comment='',
                              vars=[dict(cp=d, when='', nwhen='', type=rng.choice(['', 'blocked', 'x']), refs=[], comment='')
                                    for d, h in zip(NODES, m) if h == g and d != c]) for c, g in zip(NODES, m) if g]
                rng.shuffle(items)
                ds.append(dict(meta=dict(unicode_version='15.1.0', languages=[lang]), items=items, decls=[], alpha=[0x61]))
            out.append(dict(doc=ds, db=[False] * 3, labels=[]))
    if ctx.thorough:
        model(ctx, 4, 3, False)
    return out


def cases(ctx):
    rng = ctx.rng
    return model_cases(ctx) + [dict(doc=member_set(rng), db=[rng.random() < .5 for _ in range(3)], labels=[]) for _ in range(ctx.scale(2200, 16000))]


def observe(case):
    import detach, real, proj
    from lgr.parser.xml_serializer import serialize_lgr_xml
    from lgr.tools.merge_set import merge_lgr_set
    ser = lambda l: serialize_lgr_xml(l, pretty_print=False).decode('utf-8')
    lgrs = [real.build(d, db=db) for d, db in zip(case['doc'], case['db'])]
    M = [pairs.abstract(ser(l)) for l in lgrs]
    order = sorted(range(len(M)), key=lambda k: key(M[k]['meta']['langs'][0]))
    before = [proj.full(l) for l in lgrs]
    given = list(lgrs)
    today = [datetime.date.today().isoformat()]
    res, exc = real.catch(merge_lgr_set, given, 'merged')
    today.append(datetime.date.today().isoformat())
    o = dict(exc=exc, M=[M[k] for k in order], S=[M[k]['meta']['langs'][0] for k in order], num=[pairs.num(M[k]) for k in order], today=today,
             same=[proj.full(l) for l in lgrs] == before and all(a is b for a, b in zip(given, lgrs)) and len(given) == len(lgrs))
    scx = {}
    for k, l in enumerate(lgrs):
        if case['db'][k]:
            for it in M[k]['items']:
                if len(it['cp']) == 1:
                    for c in (range(it['rng'][0], it['rng'][1] + 1) if it['rng'] else it['cp']):
                        scx[c] = sorted(common.unidb().get_script_extensions(c))
    o['scx'] = [[[c], v] for c, v in sorted(scx.items())]
    if exc == '':
        o['O'] = pairs.abstract(ser(res))
        o['onum'] = pairs.num(o['O'])
        o['name'] = res.name == 'merged'
        rng = __import__('random').Random(len(o['O']['items']))
        alpha = [it['cp'][0] for it in o['O']['items']] or [0x61]
        o['works'] = pairs.works(res, [[rng.choice(alpha) for _ in range(rng.randint(1, 3))] for _ in range(3)])
        o['shared'] = detach.shared([res], lgrs)
    return o


def run(ctx):
    common.trace_phase(ctx, 'c17', SPEC, cases(ctx))
