"""C06 character classes."""
import copy, json, os
import common, gen, real, c05

SPEC = 'T_C06'
EXTRA = [0x7a, 0x2d, 0x100, 0x4e01, 0xfffd, 0x10330, 0x20000, 0x10ffff, 0]
gen.SCRIPT_OF.update({0x10330: 'Goth', 0x20000: 'Hani', 0x4e01: 'Hani', 0x100: 'Latn', 0x2d: 'Zyyy', 0x5d0: 'Hebr', 0x661: 'Arab', 0x4e00: 'Hani'})


def closed(c):
    return c['t'] not in ('prop', 'compl') and all(closed(k) for k in c.get('kids', ()))


def has(c, t):
    return c['t'] == t or any(has(k, t) for k in c.get('kids', ()))


def ask(rng, doc, probes):
    classes = [d for d in doc['decls'] if d['k'] == 'class']
    tags = sorted({t for it in doc['items'] for t in it['tags']} | {'nope'})
    if classes and rng.random() < .75:
        d = rng.choice(classes)
        return dict(name=d['name'], cls=copy.deepcopy(d['def']), probes=probes)
    c = gen.rand_class(rng, doc['alpha'], 2, [d['name'] for d in classes], tags)
    return dict(name='', cls=c, probes=probes)


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(1500, 12000)):
        alpha = rng.choice([None, rng.sample([0x61, 0x62, 0xe9, 0x3b1, 0x430, 0x4e00, 0x30, 0x5d0, 0x661], 6)])
        doc = gen.rand_doc(rng, alpha=alpha, seqs=.15, ctx_p=0, nactions=(0, 0), nrules=(0, 1), nclasses=(1, 5), vars_p=0, tags_p=.5, ranges=.5)
        for it in doc['items']:
            it['vars'] = []
        probes = sorted(set(doc['alpha'] + rng.sample(EXTRA, 4)))
        realdb = n % 25 == 0
        case = dict(doc=copy.deepcopy(doc), mode=rng.randint(0, 1), steps=[], realdb=realdb)
        for k in range(rng.choice([1, 2, 3, 4])):
            ed = dict(op='none')
            while k:
                save = copy.deepcopy(doc)
                ed = c05.edit(rng, doc)
                if ed['op'] != 'rule':
                    break
                doc = save
            for d in doc['decls']:
                if d['k'] == 'class':
                    gen.fix_prop(d['def'], probes)
            asks = [ask(rng, doc, probes) for _ in range(6)]
            for q in asks:
                gen.fix_prop(q['cls'], probes)
            case['steps'].append(dict(L=gen.spec_lgr(copy.deepcopy(doc)), edit=ed, asks=asks))
        allc = [d['def'] for st in case['steps'] for d in st['L']['classes']] + [q['cls'] for st in case['steps'] for q in st['asks']]
        if any(has(c, 'compl') for c in allc):
            case['realdb'] = False
        cdefs = lambda st: {d['name']: d['def'] for d in st['L']['classes']}
        for st in case['steps']:
            defs = cdefs(st)
            for q in st['asks']:
                q['closed'] = deep_closed(q['cls'], defs)
        out.append(case)
    return out


def deep_closed(c, defs):
    if c['t'] == 'cref':
        return deep_closed(defs[c['name']], defs)
    return c['t'] not in ('prop', 'compl') and all(deep_closed(k, defs) for k in c.get('kids', ()))


def model_cases(ctx):
    """Every class expression of the bounded model, several per recorded history."""
    base = dict(meta=None, alpha=[97, 98, 99], items=[
        dict(k='char', cp=[97], when='', nwhen='', tags=['t0'], refs=[], comment='', vars=[]),
        dict(k='range', first=98, last=99, when='', nwhen='', tags=['t0', 't1'], refs=[], comment=''),
        dict(k='char', cp=[97, 98], when='', nwhen='', tags=[], refs=[], comment='', vars=[])],
        decls=[dict(k='class', name='c0', **{'def': dict(t='diff', kids=[dict(t='tag', tag='t0'), dict(t='cps', cps=[99])])})])
    leaves = [dict(t='cps', cps=[]), dict(t='cps', cps=[97]), dict(t='cps', cps=[98, 100]), dict(t='tag', tag='t1'), dict(t='cref', name='c0')]
    univ = [96, 97, 98, 99, 100, 0x10ffff]
    L = gen.spec_lgr(base)
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(L=L, leaves=leaves, univ=univ, right=ctx.scale(leaves[2:4], leaves)), f)
    out = common.model_phase(ctx, 'MC_Classes', 'SPECIFICATION Spec\nINVARIANT Laws\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par),
                             workers=1)
    exprs = common.printed_cases(out)
    ctx.rng.shuffle(exprs)
    defs = {'c0': base['decls'][0]['def']}
    cs = []
    for a in range(0, len(exprs), 12):
        asks = [dict(name='', cls=e, probes=univ, closed=deep_closed(e, defs)) for e in exprs[a:a + 12]]
        cs.append(dict(doc=base, mode=0, realdb=False, steps=[dict(L=L, edit=dict(op='none'), asks=asks)]))
    return cs


def observe(case):
    fast = not case['realdb']
    lgr, exc = real.catch(real.build, case['doc'], True, bool(case['mode']))
    if exc:
        return dict(exc=exc, steps=[])
    steps = []
    for st in case['steps']:
        lgr2, exc = real.catch(c05.apply, lgr, st['edit'])
        if exc:
            return dict(exc='edit ' + exc, steps=[])
        lgr = lgr2
        db = common.unidb(fast)
        lgr.unicode_database = db
        res = []
        for q in st['asks']:
            cls = lgr.classes_lookup[q['name']] if q['name'] else real.mk_class(q['cls'])
            before = snap(lgr)
            try:
                sset = cls.get_pattern(lgr.rules_lookup, lgr.classes_lookup, db, as_set=True)
                pat = cls.get_pattern(lgr.rules_lookup, lgr.classes_lookup, db)
                again = cls.get_pattern(lgr.rules_lookup, lgr.classes_lookup, db, as_set=True)
                mem = [c in sset for c in q['probes']]
                same = [c in again for c in q['probes']] == mem and snap(lgr) == before
                rx = db.compile_regex(pat)
                # picu hands code points to the engine as 16-bit units: patterns are asked inside the BMP only
                pm = []
                for c in q['probes']:
                    if c > 0xffff or c == 0:
                        break
                    pm.append(bool(rx.search(chr(c))))
                members = list(sset) if len(sset) <= 64 else []
                res.append(dict(exc='', mem=mem, pat=pm, members=[int(m) for m in members], same=same))
            except Exception as e:
                res.append(dict(exc=common.exc_name(e), mem=[], pat=[], members=[], same=True))
        steps.append(res)
    return dict(exc='', steps=steps)


def snap(lgr):
    return sorted((n, sorted(c.codepoints), c.from_tag, c.unicode_property, c.by_ref) for n, c in lgr.classes_lookup.items())


def run(ctx):
    common.trace_phase(ctx, 'c06', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c06', SPEC, cases(ctx))
