"""C13: union of two LGRs."""
import common, gen, pairs

SPEC = 'T_C13'


def observe(case):
    from lgr.tools.compare import union_lgrs
    return pairs.observe_pair(case, union_lgrs)


def cases(ctx):
    rng = ctx.rng
    ps = pairs.model_pairs(ctx)
    if len(ps) > ctx.scale(2000, 20000):
        ps = rng.sample(ps, ctx.scale(2000, 20000))
    ps += [pairs.rand_pair(rng) for _ in range(ctx.scale(1500, 12000))]
    return [dict(doc=list(p), labels=[gen.rand_label(rng, p[k], 3, .95) for k in (0, 1)]) for p in ps]


def run(ctx):
    common.trace_phase(ctx, 'c13', SPEC, cases(ctx))
