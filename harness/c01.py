"""C01 label eligibility: random LGR x labels."""
import common, gen, small

SPEC = 'T_C01'


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(2500, 20000)):
        types = ['blocked', 'x', 'allocatable']
        doc = gen.rand_doc(rng, seqs=0.55, ctx_p=0.45, nactions=(0, 0), nrules=(0, 3), vars_p=0.15, types=types,
                           nchars=(2, 8), max_seq=4)
        labels = [gen.rand_label(rng, doc, 6, rng.choice([.95, .95, .7, .3])) for _ in range(5)]
        out.append(dict(doc=doc, L=gen.spec_lgr(doc), labels=labels, mode=rng.randint(0, 1)))
    return out


def inv(parts):
    return [dict(cp=int(c), rules=[str(x) for x in (r or [])]) for c, r in parts]


def observe(case):
    import real
    lgr, exc = real.catch(real.build, case['doc'], True, bool(case['mode']))
    if exc:
        return dict(exc=exc, res=[])
    res = []
    for lab in case['labels']:
        r, exc = real.catch(lgr.test_label_eligible, lab, generate_chars=True)
        if exc:
            res.append(dict(exc=exc, ok=False, parts=[], inv=[], chars=[], same=False, disp='', idx=0))
            continue
        same = True
        for kw in (dict(), dict(collect_log=False), dict(collect_log=False, generate_chars=True)):
            r2, e2 = real.catch(lgr.test_label_eligible, tuple(lab) if kw else lab, **kw)
            same = same and not e2 and bool(r2[0]) == bool(r[0]) and list(r2[1]) == list(r[1]) and \
                inv(r2[2]) == inv(r[2]) and r2[3:5] == r[3:5]
        res.append(dict(exc='', ok=bool(r[0]), parts=real.cps(r[1]), inv=inv(r[2]), chars=[real.cps(c.cp) for c in r[6]],
                        same=bool(same), disp=real.s(r[3]), idx=int(r[4])))
    return dict(exc='', res=res)


def model_cases(ctx):
    return [dict(doc=d, L=gen.spec_lgr(d), labels=ls, mode=n % 2) for n, (d, ls, k) in enumerate(small.model(ctx, small.entries, small.nested))]


def run(ctx):
    common.trace_phase(ctx, 'c01', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c01', SPEC, cases(ctx))
