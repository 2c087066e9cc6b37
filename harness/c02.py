"""C02 label disposition."""
import common, gen, small
from c01 import inv

SPEC = 'T_C02'


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(2500, 20000)):
        doc = gen.rand_doc(rng, seqs=0.25, ctx_p=0.08, ctx_var_p=0.2, nactions=(1, 5), nrules=(1, 3), vars_p=0.8,
                           refl_p=0.7, typed_p=0.9, anchored_p=0.3, types=rng.choice([gen.TYPES, gen.TYPES[:4], ['x', 'y', 'activated']]))
        labels = [gen.rand_label(rng, doc, 4, .98) for _ in range(6)]
        out.append(dict(doc=doc, L=gen.spec_lgr(doc), labels=labels, mode=rng.randint(0, 1)))
    return out


def ask(lgr, lab, is_variant):
    import real
    r, exc = real.catch(lgr.test_label_eligible, lab, is_variant=is_variant)
    if exc:
        return dict(exc=exc, ok=False, parts=[], inv=[], same=False, disp='', idx=0)
    r2, e2 = real.catch(lgr.test_label_eligible, lab, is_variant=is_variant, collect_log=False)
    return dict(exc='', ok=bool(r[0]), parts=real.cps(r[1]), inv=inv(r[2]), same=bool(not e2 and r2[:5] == r[:5]),
                disp=real.s(r[3]), idx=int(r[4]))


def observe(case):
    import real
    lgr, exc = real.catch(real.build, case['doc'], True, bool(case['mode']))
    if exc:
        return dict(exc=exc, res=[], nacts=0)
    return dict(exc='', res=[dict(orig=ask(lgr, lab, False), var=ask(lgr, lab, True)) for lab in case['labels']],
                nacts=len(lgr.effective_actions))


def model_cases(ctx):
    return [dict(doc=d, L=gen.spec_lgr(d), labels=ls, mode=n % 2) for n, (d, ls, k) in enumerate(small.model(ctx, small.actions))]


def run(ctx):
    common.trace_phase(ctx, 'c02', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c02', SPEC, cases(ctx))
