"""C22 statistics."""
import logging
import common, gen, docs

SPEC = 'T_C22'


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(2500, 20000)):
        base = rng.choice([0x61, 0x61, 0x61, 0x9ffc, 0x10330, 0x20000])
        doc = gen.rand_doc(rng, alpha=list(range(base, base + rng.randint(3, 9))), nchars=(0, 9), ranges=.6, tags_p=.4, nrules=(0, 4),
                           ctx_var_p=rng.choice([0, .6]), max_seq=4)
        for base in rng.sample([0x430, 0x440, 0x4e00, 0x3b1, 0x30], rng.randint(0, 3)):   # more ranges
            t = sorted({t for it in doc['items'] for t in it['tags']})
            doc['items'].append(dict(k='range', first=base, last=base + rng.randint(1, 6), when='', nwhen='', refs=[], comment='',
                                     tags=[x for x in t if rng.random() < .5]))
        rng.shuffle(doc['items'])
        items = [{k: it[k] for k in ('cp', 'rng', 'tags')} | dict(vars=[dict(cp=v['cp'], type=v['type']) for v in it['vars']])
                 for it in docs.abstract(doc)['items']]
        out.append(dict(doc=doc, items=items, nrules=sum(d['k'] == 'rule' for d in doc['decls']), debug=rng.random() < .3,
                        expand=rng.random() < .15))
        if out[-1]['expand']:
            c = out[-1]
            c['items'] = [x for it in items for x in ([it] if not it['rng'] else [dict(it, cp=[k], rng=[]) for k in range(it['rng'][0], it['rng'][1] + 1)])]
    return out


def flat(st):
    f = lambda c: [] if c is None else [int(c.first_cp), int(c.last_cp)]
    d = {k: int(st[k]) for k in ('codepoint_number', 'range_number', 'largest_range_len', 'sequence_number', 'largest_sequence_len',
                                 'codepoints_with_variants', 'mapping_number', 'largest_variant_set', 'rule_number')}
    s = st['largest_sequence']
    d.update(largest_range=f(st['largest_range']), largest_sequence=[] if s is None else [int(x) for x in s.cp],
             average10=int(round(st['average_variants'] * 10)),
             by_type=sorted([t or '', int(n)] for t, n in st['variants_by_type'].items()),
             by_tag=sorted([t, int(n)] for t, n in st['codepoints_by_tag'].items()))
    return d


def observe(case):
    import real, proj
    from lgr.validate.lgr_stats import generate_stats, compute_stats
    lgr, exc = real.catch(real.build, case['doc'])
    if exc:
        return dict(exc='build ' + exc)
    if case['expand']:
        lgr.expand_ranges()
    log = logging.getLogger('lgr.validate.lgr_stats')
    before = proj.full(lgr)
    try:
        if case['debug']:
            log.setLevel(logging.DEBUG)
        a = flat(generate_stats(lgr))
        ok, r = compute_stats(lgr, {})
        a['again'] = bool(ok) and flat(r['stats']) == a and flat(generate_stats(lgr)) == a
    except Exception as e:
        return dict(exc=common.exc_name(e))
    finally:
        log.setLevel(logging.NOTSET)
    a['same'] = proj.full(lgr) == before
    a['exc'] = ''
    return a


def run(ctx):
    common.trace_phase(ctx, 'c22', SPEC, cases(ctx))
