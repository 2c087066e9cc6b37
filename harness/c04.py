"""C04 index labels."""
import common, gen, small

SPEC = 'T_C04'


def close(doc, rng):
    """Make the variant relation an equivalence on single code points (no rules)."""
    alpha = doc['alpha']
    items = [dict(k='char', cp=[c], when='', nwhen='', tags=[], refs=[], comment='', vars=[]) for c in alpha]
    cls = {c: rng.randint(0, 2) for c in alpha}
    for it in items:
        for d in alpha:
            if d != it['cp'][0] and cls[d] == cls[it['cp'][0]]:
                it['vars'].append(dict(cp=[d], when='', nwhen='', type=rng.choice(['allocatable', 'blocked']), refs=[], comment=''))
        rng.shuffle(it['vars'])
    rng.shuffle(items)
    return dict(meta=None, items=items, decls=[], alpha=alpha)


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(2600, 20000)):
        closed = rng.random() < 0.25
        if closed:
            alpha = rng.sample([0x61, 0x62, 0x63, 0x3b1, 0x430, 0x4e00, 0x10480, 0x1e9], rng.randint(3, 5))
            doc = close(dict(alpha=alpha), rng)
            labels = [[rng.choice(alpha) for _ in range(rng.randint(1, 3))] for _ in range(5)]
        else:
            alpha = None if rng.random() < .7 else rng.sample([0x61, 0x62, 0x63, 0xe9, 0x3b1, 0x430, 0x4e00], 5)
            doc = gen.rand_doc(rng, alpha=alpha, seqs=0.5, ctx_p=.15, ctx_var_p=.25, nactions=(0, 0), nrules=(0, 2), vars_p=.8, refl_p=.1)
            labels = [gen.rand_label(rng, doc, 5, .97) for _ in range(5)]
            if rng.random() < .1:
                labels.append([])
        out.append(dict(doc=doc, L=gen.spec_lgr(doc), labels=labels, mode=rng.randint(0, 1), closed=closed))
    return out


def observe(case):
    import real
    lgr, exc = real.catch(real.build, case['doc'], True, bool(case['mode']))
    if exc:
        return dict(exc=exc, res=[])
    res = []
    for lab in case['labels']:
        r, exc = real.catch(lgr.generate_index_label, tuple(lab))
        if exc:
            res.append(dict(exc=exc, idx=[], idx2=[], vars=[]))
            continue
        r2, e2 = real.catch(lgr.generate_index_label, tuple(lab), max_recursion=1)
        vs = []
        if case['closed'] and lab:
            vs = [real.cps(v[0]) for v in lgr.compute_label_disposition(lab, include_invalid=True)]
        res.append(dict(exc='', idx=real.cps(r), idx2=real.cps(r2 or []), vars=vs))
    return dict(exc='', res=res)


def model_cases(ctx):
    return [dict(doc=d, L=gen.spec_lgr(d), labels=ls, mode=n % 2, closed=k) for n, (d, ls, k) in enumerate(small.model(ctx, small.indexes, small.closed))]


def run(ctx):
    common.trace_phase(ctx, 'c04', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c04', SPEC, cases(ctx))
