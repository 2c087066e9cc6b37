"""C28 variant set size estimate."""
import common, gen, small

SPEC = 'T_C28'


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(2500, 15000)):
        free = rng.random() < .5
        if free:   # single code points, unconditional, distinct targets, nothing merges
            doc = gen.rand_doc(rng, seqs=0, ranges=.2, ctx_p=0, ctx_var_p=0, nactions=(0, 0), nrules=(0, 0), vars_p=.8,
                               types=['blocked', 'allocatable', 'activated'])
            have = {tuple(it['cp']) for it in doc['items'] if it['k'] == 'char'}
            for it in doc['items']:
                if it['k'] == 'range':
                    have |= {(c,) for c in range(it['first'], it['last'] + 1)}
            for it in doc['items']:
                if it['k'] == 'char':
                    seen, vs = set(), []
                    for v in it['vars']:
                        if tuple(v['cp']) in have and tuple(v['cp']) not in seen:
                            seen.add(tuple(v['cp']))
                            vs.append(v)
                    it['vars'] = vs
        else:
            doc = gen.rand_doc(rng, seqs=.4, ctx_p=.15, ctx_var_p=.2, vars_p=.8, nactions=(0, 1))
        labels = []
        for _ in range(20):
            lab = gen.rand_label(rng, doc, 4, 1.0)
            if len(labels) < 4:
                labels.append(lab)
        out.append(dict(doc=doc, L=gen.spec_lgr(doc), labels=labels, free=free))
    return out


def observe(case):
    import real
    lgr, exc = real.catch(real.build, case['doc'])
    if exc:
        return dict(exc=exc, res=[])
    res = []
    for lab in case['labels']:
        r, exc = real.catch(lgr.estimate_variant_number, lab)
        if exc:
            res.append(dict(exc=exc, est=0, gen=0))
            continue
        g = 0
        if case['free']:
            g, exc = real.catch(lambda: len(list(lgr.compute_label_disposition(lab, include_invalid=True, collect_log=False))))
        res.append(dict(exc=exc, est=int(r), gen=int(g or 0)))
    return dict(exc='', res=res)


def model_cases(ctx):
    return [dict(doc=d, L=gen.spec_lgr(d), labels=ls, free=False) for n, (d, ls, k) in enumerate(small.model(ctx, small.variants, small.closed))]


def run(ctx):
    common.trace_phase(ctx, 'c28', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c28', SPEC, cases(ctx))
