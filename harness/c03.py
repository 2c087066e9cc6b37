"""C03 variant generation."""
import common, gen, small

SPEC = 'T_C03'


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(1600, 12000)):
        doc = gen.rand_doc(rng, seqs=rng.choice([.1, .4]), ctx_p=rng.choice([0, .15]), ctx_var_p=rng.choice([0, .3]), nactions=(0, 4),
                           nrules=(0, 3), vars_p=0.7, refl_p=0.25, nchars=(3, 6), anchored_p=.6)
        labels, tries = [], 0
        while len(labels) < 3 and tries < 20:
            tries += 1
            lab = gen.rand_label(rng, doc, 4, 1.0)
            if size(doc, lab) <= 60 and lab not in labels:
                labels.append(lab)
        out.append(dict(doc=doc, L=gen.spec_lgr(doc), labels=labels, mode=rng.randint(0, 1), pick=rng.random()))
    return out


def size(doc, lab):
    n = 1
    by = {}
    for it in doc['items']:
        if it['k'] == 'char':
            by[it['cp'][0]] = by.get(it['cp'][0], 0) + 1 + len(it['vars'])
    for c in lab:
        n *= by.get(c, 1)
    return n


def rows(it, chars=False):
    import real
    out = []
    for r in it:
        row = dict(cp=real.cps(r[0]), disp=real.s(r[1]), idx=int(r[3]), types=sorted('' if t is None else str(t) for t in r[4]))
        if chars:
            row['es'] = [real.cps(c.cp) for c in r[6]]
        out.append(row)
    return out


def observe(case):
    import real
    lgr, exc = real.catch(real.build, case['doc'], True, bool(case['mode']))
    if exc:
        return dict(exc=exc, res=[])
    res = []
    for lab in case['labels']:
        try:
            ok = lgr.test_label_eligible(lab)
            al = rows(lgr.compute_label_disposition(lab, include_invalid=True))
            va = rows(lgr.compute_label_disposition(tuple(lab), collect_log=False))
            ch = rows(lgr.compute_label_disposition(lab, include_invalid=True, generate_chars=True), True)
            wl = [r['cp'] for k, r in enumerate(al) if (k * 7919 + int(case['pick'] * 1000)) % 3 == 0]
            wi = rows(lgr.compute_label_disposition(lab, include_invalid=True, with_labels=[tuple(x) for x in wl])) if wl else al
            if not wl:
                wl = [r['cp'] for r in al]
            summ, full = lgr.compute_label_disposition_summary(lab, include_invalid=True)
            cnt = {}
            for r in al:
                cnt[r['disp']] = cnt.get(r['disp'], 0) + 1
            again = rows(lgr.compute_label_disposition(lab, include_invalid=True))
            res.append(dict(exc='', all=al, valid=va, chars=ch, wl=wl, with_=wi, sumok=dict(summ) == cnt and rows(full) == al,
                            same=again == al))
            res[-1]['with'] = res[-1].pop('with_')
        except Exception as e:
            res.append(dict(exc=common.exc_name(e), all=[], valid=[], chars=[], wl=[], sumok=False, same=False))
            res[-1]['with'] = []
    return dict(exc='', res=res)


def model_cases(ctx):
    return [dict(doc=d, L=gen.spec_lgr(d), labels=ls, mode=n % 2, pick=(n % 10) / 10) for n, (d, ls, k) in enumerate(small.model(ctx, small.variants, small.nested))]


def run(ctx):
    common.trace_phase(ctx, 'c03', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c03', SPEC, cases(ctx))
