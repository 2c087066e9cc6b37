"""C24: review of an IDN table against a reference LGR."""
import copy, json, os, re
import common, docs, gen, pairs, c17, c31

SPEC = 'T_C24'
GENERAL = json.load(open(os.path.join(os.path.dirname(__file__), 'general_labels.json')))
KINDS = [k for k in GENERAL if k != 'same']
RTL = {'Arab', 'Aran', 'Hebr', 'Thaa', 'Syrc', 'Syre', 'Syrj', 'Syrn'}
SC = ['sc:Latn', 'sc:Grek']
NEAR = ['script', 'sc-x', 'SC:Latn', 'x-sc:Latn']   # no script tags
UNKNOWN = ['xx', 'zzz']
#     language or script of the tables -> tags, some of which name it otherwise
TAGS = {'Arab': ['ar', 'und-Arab', 'und-Aran'], 'Beng': ['und-Beng', 'bn'], 'Cyrl': ['ru', 'und-Cyrl'], 'Deva': ['hi', 'und-Deva'], 'Hebr': ['he', 'und-Hebr'],
        'Thaa': ['dv', 'und-Thaa'], 'Thai': ['th', 'und-Thai'], 'ja': ['ja', 'und-Hira'], 'zh': ['zh'], 'Latn': ['en', 'und-Latn', 'und-Latg'], 'Mymr': ['my'],
        'Khmr': ['und-Khmr'], 'Taml': ['und-Taml', 'ta'], 'Tibt': ['und-Tibt'], 'Gujr': ['und-Gujr'], 'ko': ['ko']}
DEFAULT = dict(ar='Arab', bn='Beng', ru='Cyrl', hi='Deva', he='Hebr', dv='Thaa', th='Thai', ja='Jpan', en='Latn', my='Mymr', ta='Taml', ko='Kore')


def mktag(text):
    if text in UNKNOWN:
        return dict(lang='', long='', script='', region='', default='', text=text)
    p = text.split('-')
    return dict(lang=p[0], long='', script=p[1] if len(p) > 1 else '', region='', default=DEFAULT.get(p[0], ''), text=text)


def rand_tags(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        if rng.random() < .12:
            out.append(mktag(rng.choice(UNKNOWN)))
        else:
            t = c31.tag(rng)
            t['long'] = ''
            out.append(dict(t, text=c31.text(t)))
    return list({t['text']: t for t in out}.values())


def closed(rng, doc):
    c17.close(doc, rng)
    for it in doc['items']:
        seen, keep = set(), []
        for v in it.get('vars', ()):
            k = (tuple(v['cp']), bool(v['when']), bool(v['nwhen']))
            if k not in seen:
                seen.add(k)
                keep.append(v)
        if 'vars' in it:
            it['vars'] = keep
    return doc


def seen(*ds):
    out = set()
    for d in ds:
        for it in d['items']:
            out |= set(range(it['first'], it['last'] + 1)) if it['k'] == 'range' else set(it['cp'])
    return sorted(out)


def fix(x, cps):
    if isinstance(x, dict):
        if x.get('t') == 'prop':
            gen.fix_prop(x, cps)
        for v in x.values():
            fix(v, cps)
    elif isinstance(x, list):
        for v in x:
            fix(v, cps)


def char(cp, **k):
    return dict(dict(k='char', cp=list(cp), when='', nwhen='', tags=[], refs=[], comment='', vars=[]), **k)


def retouch(rng, doc):
    """Details that the review compares: script tags, order within a literal, counts, types."""
    items = doc['items']
    for it in items:
        if len(it.get('cp', [0])) == 1 and rng.random() < .15:
            it['tags'] = sorted(set(it['tags']) ^ {rng.choice(SC + NEAR)})
        for v in it.get('vars', ()):
            if rng.random() < .4:
                v['type'] = rng.choice(['activated', 'optionally-activated', 'allocatable', 'optionally-allocatable', 'blocked', '', 'x'])

    def walk(n):
        if isinstance(n, dict):
            if n.get('t') == 'char' and rng.random() < .3:
                if len(n['cps']) == 1:
                    n['cps'] = n['cps'] + [rng.choice(doc['alpha'])]
                else:
                    n['cps'] = n['cps'][::-1] if rng.random() < .7 else n['cps'][:-1]
            elif n.get('t') == 'char' and rng.random() < .15:
                cps = sorted(set(n['cps']))
                cnt = {k: n[k] for k in ('min', 'max', 'cnt')}
                n.clear()
                n.update(t='class', cls=dict(t='cps', cps=cps, form='text'), **cnt)
            elif 'cnt' in n and n.get('t') in ('char', 'class', 'any') and rng.random() < .1:
                n.update(gen.rand_count(rng))
            for v in list(n.values()):
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    for d in doc['decls']:
        if d['k'] == 'rule' and rng.random() < .5:
            walk(d['kids'])


def split_sets(rng, a, b):
    """Variant sets of one document that are parts of those of the other."""
    have = {tuple(it['cp']) for it in a['items'] if it['k'] == 'char'}
    lost = rng.choice(sorted(have)) if have else None
    a['items'] = [it for it in a['items'] if it['k'] != 'char' or tuple(it['cp']) != lost]
    for it in a['items']:
        if it['k'] == 'char' and rng.random() < .5:
            it['vars'] = [v for v in it['vars'] if tuple(v['cp']) != lost]


def general_doc(rng):
    """A table of a script, with or without the rules that refuse the labels of the review."""
    key = rng.choice(sorted(TAGS))
    labels = [l for k in KINDS for l in GENERAL[k].get(key, ())]
    cps = sorted({c for l in labels for c in l} | ({0x30fb, 0x61, 0x62} if key == 'ja' else set()))
    if rng.random() < .5:
        cps = [c for c in cps if rng.random() < .9]
    if rng.random() < .6:
        zero = rng.choice([0x30, 0x660, 0x966, 0x9e6])
        cps = sorted(set(cps) | set(range(0x30, 0x30 + rng.choice([9, 10, 10]))) | set(range(zero, zero + rng.choice([0, 1, 2]))))
    items = [char([c]) for c in cps]
    if labels and rng.random() < .5:
        l = rng.choice(labels)
        j = rng.randrange(len(l) - 1)
        seq = l[j:j + rng.choice([2, 2, 3])]
        items.append(char(seq))
        if rng.random() < .5:
            items = [it for it in items if it['cp'] != [seq[0]] and it['cp'] != [seq[-1]]] if rng.random() < .5 else \
                    [it for it in items if it['cp'] != [seq[-1]]]
    cls = lambda p, **k: dict(t='class', cls=p, **dict(gen.ONE, **k))
    one = lambda *c: dict(t='char', cps=list(c), **gen.ONE)
    start = dict(t='start', **gen.ONE)
    mark = dict(t='union', kids=[dict(t='prop', name='gc', value=v, ext=[]) for v in ('Mn', 'Mc')])
    digit = dict(t='prop', name='gc', value='Nd', ext=[])
    bodies = dict(lead=[start, cls(mark)], hyphen=[dict(t='choice', kids=[dict(t='rule', kids=[start, one(0x2d)], **gen.ONE),
                                                                         dict(t='rule', kids=[one(0x2d), dict(t='end', **gen.ONE)], **gen.ONE), one(0x2d, 0x2d)], **gen.ONE)],
                  digit=[start, cls(digit)],
                  mixed=[cls(dict(t='cps', cps=[0x30, 0x31, 0x32, 0x33, 0x34, 0x35], form='text')),
                         cls(dict(t='diff', kids=[digit, dict(t='cps', cps=[0x30, 0x31, 0x32, 0x33, 0x34, 0x35], form='text')]))],
                  latin=[one(0x62), one(0x30fb)])
    decls = [dict(k='rule', name=n, kids=copy.deepcopy(b)) for n, b in bodies.items() if rng.random() < .6]
    decls += [dict(k='action', disp=rng.choice(['invalid'] * 5 + ['blocked']), match=d['name'], nmatch='', vk='none', vs=[]) for d in list(decls) if rng.random() < .85]
    names = [d['name'] for d in decls if d['k'] == 'rule']
    if rng.random() < .2:
        body = [dict(t='behind', kids=[dict(t='any', **gen.ONE)], **gen.ONE), dict(t='anchor', **gen.ONE)]
        decls.insert(0, dict(k='rule', name='follows', kids=body))
        for it in items:
            if rng.random() < .3:
                it['when'] = 'follows'
    doc = dict(meta={}, items=items, decls=decls, alpha=[c for c in cps][:4] or [0x61])
    docs.rich(rng, doc, pairs.WORDS)
    return doc, [mktag(t) for t in sorted(set(rng.choice([[rng.choice(TAGS[key])], [rng.choice(TAGS[key])], [], [rng.choice(TAGS[key]), rng.choice(sum(TAGS.values(), []))]])))]


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(900, 7000)):
        la, lb, self_ = rand_tags(rng), rand_tags(rng), False
        r = rng.random()
        if r < .25:
            a, la = general_doc(rng)
            b = copy.deepcopy(a)
            for _ in range(rng.choice([0, 0, 1, 2])):
                pairs.mutate(rng, b)
            if rng.random() < .5:
                lb = [dict(t) for t in la]
                la = rng.choice([la, []])
        else:
            a = docs.rich(rng, gen.rand_doc(rng, wide=True, nchars=(1, 5), nclasses=(0, 3), ctx_p=.35, ctx_var_p=.35, seqs=rng.choice([.1, .5])), pairs.WORDS)
            if r < .35:
                b = docs.rich(rng, gen.rand_doc(rng, wide=True, nchars=(1, 5), nclasses=(0, 3), ctx_p=.35), pairs.WORDS)
            else:
                b = copy.deepcopy(a)
                for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                    pairs.mutate(rng, b)
                if rng.random() < .6:
                    retouch(rng, b)
                if rng.random() < .25:
                    split_sets(rng, a, b)
            if rng.random() < .15:
                lb = [dict(t) for t in la]
        pairs.same_notation(rng, a, b)
        is_closed = rng.random() < .9
        for d in (a, b):
            if is_closed:
                closed(rng, d)
        if rng.random() < .4:
            for d in (b,):
                types(rng, d)
        if rng.random() < .5:
            a, b, la, lb = b, a, lb, la
        if rng.random() < .12:
            b, lb, self_ = copy.deepcopy(a), copy.deepcopy(la), True
        for d, t in ((a, la), (b, lb)):
            d['meta']['unicode_version'] = '15.1.0'
            d['meta']['languages'] = [x['text'] for x in t]
        if not one_cond(a) or not one_cond(b):
            is_closed = self_ = False
        out.append(case(a, b, la, lb, is_closed, self_, rng))
    return out


def one_cond(d):
    """At most one variant of each sort (when, not-when, unconditional) to a code point."""
    for it in d['items']:
        ks = [(tuple(v['cp']), bool(v['when']), bool(v['nwhen'])) for v in it.get('vars', ())]
        if len(set(ks)) != len(ks):
            return False
    return True


def types(rng, d):
    for it in d['items']:
        for v in it.get('vars', ()):
            if rng.random() < .5:
                v['type'] = rng.choice(['activated', 'optionally-activated', 'allocatable', 'optionally-allocatable', 'blocked', '', 'x'])


def case(a, b, la, lb, is_closed, self_, rng):
    cps = sorted(set(seen(a, b)) | {0x7a})
    fix(a['decls'], cps + [0x2d])
    fix(b['decls'], cps + [0x2d])
    spec = lambda d: dict(gen.spec_lgr(d), actions=[dict(disp=x['disp'], match=x['match'], nmatch=x['nmatch'], vk=x['vk'], vs=x['vs'], com=x.get('comment') or '')
                                                    for x in d['decls'] if x['k'] == 'action'])
    ver = lambda d: d['meta'].get('version') or ''
    return dict(doc=[a, b], a=spec(a), b=spec(b), la=la, lb=lb, closed=is_closed, self=self_, sc=SC, alpha=sorted(set(seen(a, b)))[:5] or [0x61],
                header=[['table', ver(a)], ['reference', ver(b)]])


def table_keys(ts):
    """The languages and scripts under which the labels are listed."""
    from language_tags import tags
    from lgr.utils import script_iso15924_to_unicode as uni
    langs = sorted(t['text'] for t in ts)
    out = [tags.tag(x).language.format for x in langs if tags.tag(x).language]
    for t in ts:
        s = t['script'] or t['default']
        out += uni(s) if s else []
    return out


def labels_of(keys):
    return {k: [l for x in keys for l in GENERAL[k].get(GENERAL['same'].get(x, x), ())] for k in KINDS}


def L(x):
    return [int(c) for c in x]


def general(g):
    g = g['additional_general_rules']
    return {k: dict(applicable=g[k]['applicable'], exists={None: '', True: 'yes', False: 'no'}[g[k]['exists']]) for k in KINDS}


SEQ = re.compile(r'The sequence "([^"]*)" may be missing')


def remark(t):
    return SEQ.sub(lambda m: 'The sequence "<<%s>>" may be missing' % ', '.join(str(ord(c)) for c in m.group(1)), t)


def full(r, case):
    yes = {None: '', True: 'yes', False: 'no'}
    tl = lambda t: t.split(' - ') if t else []
    o = dict(cps=[dict(cp=L(x['cp']), idn=x['idn_table'], ref=x['reference_lgr'], result=x['result'], remark=x['remark']) for x in r['repertoire']['reports']],
             inseq=[[L(x['idn_cp']), L(x['ref_cp'])] for x in r['repertoire']['cp_in_sequences']],
             additional=[L(x['cp']) for x in r['variant_sets']['additional']],
             classes=[dict(name=x['name'], idn=[ord(c) for c in x['idn_members']], ref=[ord(c) for c in x['ref_members']],
                           result=x['result'], remark=x['remark']) for x in r['classes']],
             wle=[dict(name=x['name'], idn=x['idn_table'], ref=x['reference_lgr'], result=x['result'], remark=x['remark']) for x in r['wle']['comparison']],
             wleadd=[L(x['cp']) for x in r['wle']['additional_cp']], general=general(r['wle']),
             actions=[[x['name'], x['idn_table'], x['reference_lgr'], x['result'], x['remark']] for x in r['actions']['comparison']],
             sequence=r['actions']['sequence'],
             tags=[dict(tag=x['idn_table_language_tag'], cmp=[dict(tag=y['reference_lgr_language_tag'], result=y['result'], remark=y['remark'])
                                                              for y in x['comparison']]) for x in r['language_tags']],
             summary={k: dict(overall=s['overall'], results=[[x['result'], remark(x['remark']), x['count']] for x in s['results']]) for k, s in r['summary'].items()})
    o['sets'] = []
    for s in r['variant_sets']['reports']:
        ref = [L(c) for c in s['ref_lgr']]
        used = {c for it in case['a']['chars'] for c in it['cp']}
        m = [c for c in sorted(ref) if len(c) > 1 and set(c) & used]
        o['sets'].append(dict(
            idn=[L(c) for c in s['idn_table']], ref=ref, relevant=[L(c) for c in s['relevant_idn_table_repertoire']],
            seqtext='<<%s>>' % ', '.join(map(str, m[0])) if m else '', checks=[yes[s['symmetry_check']], yes[s['transitivity_check']]],
            rows=[dict(src=L(x['source_cp']), dst=L(x['dest_cp']), types=[tl(x[k]) for k in ('fwd_type_idn', 'fwd_type_ref', 'rev_type_idn', 'rev_type_ref')],
                       sym=x['symmetric'], reverse=x['reverse'], inidn=x['dest_in_idn'], inref=x['dest_in_ref'],
                       fwd=[x['result_fwd'], remark(x['remark_fwd'])], rev=[x['result_rev'], remark(x['remark_rev'])]) for x in s['report']]))
    return o


def observe(case):
    import real, proj
    from lgr.tools.idn_review.review import review_lgr, review_with_core_requirements
    l1, l2 = [real.build(d) for d in case['doc']]
    l1.name, l2.name = 'table', 'reference'
    before = [proj.full(l) for l in (l1, l2)]
    r, exc = real.catch(review_lgr, l1, l2)
    if exc:
        return dict(exc=exc)
    core, exc = real.catch(review_with_core_requirements, l1)
    if exc:
        return dict(exc='alone ' + exc)
    h = r['header']
    rep = core['repertoire']
    return dict(known(case), exc='', same=[proj.full(l) for l in (l1, l2)] == before,
                header=[[h['idn_table']['filename'], h['idn_table']['version'] or ''], [h['reference_lgr']['name'], h['reference_lgr']['version'] or '']],
                full=full(r, case),
                core=dict(cps=[L(x['cp']) for x in rep['report']], pvalid=rep['pvalid_cp_nbr'], invalid=rep['invalid_cp_nbr'],
                          digits=core['variant_sets']['report']['multiple_digit_sets'], general=general(core['wle'])))


def known(c):
    """What the character database says, and the labels to test."""
    db = common.unidb()
    cps = seen(*c['doc'])
    own = table_keys(c['la'])
    both = own or table_keys(c['lb'])
    scripts = [s for t in c['la'] for s in [t['script'] or t['default']] if s]
    u = dict(digits=[x for x in cps if db.is_digit(x)], marks=[x for x in cps if db.is_combining_mark(x)], rtl=[x for x in cps if db.is_rtl(x)],
             pvalid=[x for x in cps if db.get_idna_prop(x) == 'PVALID'], rtlscript=any(s in RTL for s in scripts))
    return dict(u=u, keys=both, corekeys=own, labels=labels_of(both), corelabels=labels_of(own))


def var(cp, t='', w='', n=''):
    return dict(cp=list(cp), when=w, nwhen=n, type=t, refs=[], comment='')


def side_doc(part, s):
    """The LGR of a side of a state of MC_Review."""
    decls = [dict(k='rule', name=n, kids=[dict(t='start', **gen.ONE), dict(t='char', cps=[x], **gen.ONE)]) for n, x in (('r', 0x61), ('s', 0x62))]
    if part == 'cp':
        items = [char([0x61], tags=sorted(s['tags']), when=s['ctx'][0], nwhen=s['ctx'][1])] if s['here'] else []
        items.append(char([0x62], tags=['t', 'u']))
    elif part == 'var':
        vs = [(t, 'r' if k == 'when' else '', 'r' if k == 'not-when' else '') for k, t in s.items() if t != 'absent']
        items = [char([0x61], vars=[var([0x62], *v) for v in vs]), char([0x62], vars=[var([0x61], *v) for v in vs])]
        for x in items:    # a common member keeps the sets comparable
            x['vars'].append(var([0x63], 'blocked'))
        items.append(char([0x63], vars=[var([0x61], 'blocked'), var([0x62], 'blocked')]))
        if not vs:
            items = [char([0x61], vars=[var([0x63], 'blocked')]), char([0x62]), char([0x63], vars=[var([0x61], 'blocked')])]
    else:
        cp = lambda k: [0x61 + k]
        items = [char(cp(k), vars=[var(cp(j), 'blocked') for j, y in enumerate(s) if y == x and j != k and x > 0]) for k, x in enumerate(s) if x]
    return dict(meta=dict(unicode_version='15.1.0'), items=items, decls=decls, alpha=[0x61, 0x62])


def model(ctx):
    out = common.model_phase(ctx, 'MC_Review', 'SPECIFICATION Spec\nINVARIANT Decided\nINVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', workers=1)
    cs = common.printed_cases(out)
    few = [c for c in cs if c['part'] == 'cp']
    rest = [c for c in cs if c['part'] != 'cp']
    if len(rest) > ctx.scale(1600, 40000):
        rest = ctx.rng.sample(rest, ctx.scale(1600, 40000))
    out = []
    for c in few + rest:
        a, b = side_doc(c['part'], c['a']), side_doc(c['part'], c['b'])
        out.append(case(a, b, [], [], True, a == b, ctx.rng))
    return out


def run(ctx):
    common.trace_phase(ctx, 'c24', SPEC, model(ctx) + cases(ctx))
    import c24r
    c24r.run(ctx)
