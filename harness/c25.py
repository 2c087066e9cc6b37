"""C25 hiding mixed-script variants."""
import json, os
import common, gen

SPEC = 'T_C25'
SCRIPTS = {0x61: 'Latin', 0x62: 'Latin', 0xe9: 'Latin', 0x3b1: 'Greek', 0x3b2: 'Greek', 0x430: 'Cyrillic', 0x431: 'Cyrillic',
           0x4e00: 'Han', 0x4e8c: 'Han', 0x30ab: 'Katakana', 0x30cb: 'Katakana', 0x304b: 'Hiragana', 0x3044: 'Hiragana', 0x3042: 'Hiragana',
           0xac00: 'Hangul', 0xb2c8: 'Hangul', 0x30: 'Common', 0x31: 'Common', 0x2d: 'Common', 0x301: 'Inherited', 0x7a: 'Latin',
           0x561: 'Armenian', 0x10d0: 'Georgian'}
SETS = [[0x61, 0x62, 0x3b1, 0x3b2], [0x61, 0x62, 0xe9, 0x3b1, 0x430, 0x30], [0x4e00, 0x4e8c, 0x30ab, 0x304b, 0x61],
        [0xac00, 0xb2c8, 0x4e00, 0x61, 0x62], [0x61, 0x301, 0x3b1, 0x3b2, 0x31], [0x430, 0x431, 0x61, 0x561, 0x2d],
        [0x30ab, 0x30cb, 0x3044, 0x304b, 0xac00, 0x3b1]]


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(2000, 12000)):
        if rng.random() < .7:
            alpha = rng.choice(SETS)
        else:
            alpha = rng.sample([c for c in SCRIPTS if c != 0x7a], rng.randint(4, 6))
        rules = rng.random() < .25
        doc = gen.rand_doc(rng, alpha=alpha, seqs=rng.choice([0, .1, .4]), ctx_p=.1 if rules else 0, ctx_var_p=.2 if rules else 0,
                           nactions=(0, 3), nrules=(0, 2) if rules else (0, 0), nclasses=(0, 0), vars_p=.85, refl_p=.15, nchars=(4, 7),
                           types=gen.TYPES)
        labels, tries = [], 0
        while len(labels) < 3 and tries < 20:
            tries += 1
            lab = gen.rand_label(rng, doc, 4, 1.0)
            if size(doc, lab) <= 80 and lab not in labels:
                labels.append(lab)
        out.append(dict(doc=doc, L=gen.spec_lgr(doc), labels=labels, mode=rng.randint(0, 1), scripts=table()))
    return out


def table():
    return [dict(cp=c, s=s) for c, s in SCRIPTS.items()]


def size(doc, lab):
    import c03
    return c03.size(doc, lab)


def observe(case):
    import real, c03
    lgr, exc = real.catch(real.build, case['doc'], True, bool(case['mode']))
    if exc:
        return dict(exc=exc, res=[])
    res = []
    for lab in case['labels']:
        try:
            args = dict(hide_mixed_script_variants=True)
            full = c03.rows(lgr.compute_label_disposition(lab, include_invalid=True, generate_chars=True))
            hidden = c03.rows(lgr.compute_label_disposition(tuple(lab), include_invalid=True, generate_chars=True, **args))
            plain = c03.rows(lgr.compute_label_disposition(lab, include_invalid=True, collect_log=False, **args))
            valid = c03.rows(lgr.compute_label_disposition(lab, **args))
            summ, rows = lgr.compute_label_disposition_summary(tuple(lab), include_invalid=True, **args)
            cnt = {}
            for r in plain:
                cnt[r['disp']] = cnt.get(r['disp'], 0) + 1
            res.append(dict(exc='', full=full, hidden=hidden, plain=plain, valid=valid,
                            sumok=dict(summ) == cnt and c03.rows(rows) == plain,
                            est=int(lgr.estimate_variant_number(lab, **args))))
        except Exception as e:
            res.append(dict(exc=common.exc_name(e), full=[], hidden=[], plain=[], valid=[], sumok=False, est=0))
    return dict(exc='', res=res)


# pools of variant targets: code points 1 and 2 of the model are the first two of the alphabet
POOLS = [dict(cps=[0x61, 0x62, 0xe9, 0x3b1, 0x430, 0x31], pool=[[3], [4], [5], [6], [4, 5], [6, 4]]),
         dict(cps=[0x3b1, 0x3b2, 0x30ab, 0x3042, 0x61, 0x301], pool=[[3], [4], [5], [6], [3, 4], [4, 5]]),
         dict(cps=[0x4e00, 0x61, 0xac00, 0x30ab, 0x62, 0x2d], pool=[[3], [4], [5], [6], [3, 5], [1, 4]])]


def model(ctx, n, seq, size, emit=True):
    p = dict(POOLS[n])
    p['pool'] = sorted(ctx.rng.sample(p['pool'], size), key=p['pool'].index)
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(pool=p['pool'], scripts=[dict(cp=k + 1, s=SCRIPTS[c]) for k, c in enumerate(p['cps'])],
                              labels=[[1], [1, 2]] + ([[2, 1, 2]] if seq else [[2, 1]]), seq=seq, emit=emit), f)
    out = common.model_phase(ctx, 'MC_Scripts', 'SPECIFICATION Spec\nINVARIANT Within\nINVARIANT Complete\nINVARIANT Emit\n'
                             'CHECK_DEADLOCK FALSE\n', env=dict(PAR=par), workers=1 if emit else common.NPROC)
    cs = list(common.printed_cases(out))
    res = []
    for m in cs:
        def entry(cp, ks):
            return dict(k='char', cp=[p['cps'][x - 1] for x in cp], when='', nwhen='', tags=[], refs=[], comment='',
                        vars=[dict(cp=[p['cps'][x - 1] for x in p['pool'][k - 1]], when='', nwhen='', type='blocked', refs=[], comment='')
                              for k in ks])
        items = [entry([1], m['va']), entry([2], m['vb'])] + ([entry([1, 2], m['vb'])] if seq else [])
        for i in items:   # the library refuses nothing here, but reflexive mappings belong to another model
            i['vars'] = [v for v in i['vars'] if v['cp'] != i['cp']]
        doc = dict(meta=None, items=items, decls=[], alpha=p['cps'])
        res.append(dict(doc=doc, L=gen.spec_lgr(doc), labels=[[p['cps'][x - 1] for x in m['lab']]], mode=1, scripts=table()))
    return res


def run(ctx):
    cs = []
    for n in range(len(POOLS)):
        for seq in (False, True):
            cs += model(ctx, n, seq, ctx.scale(3, 4))
            if ctx.thorough:
                model(ctx, n, seq, 5, False)
    common.trace_phase(ctx, 'c25', SPEC, cs)
    common.trace_phase(ctx, 'c25', SPEC, cases(ctx))
