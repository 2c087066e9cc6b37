"""C11 populating variants."""
import common, vrel

SPEC = 'T_C11'


def cases(ctx):
    rng = ctx.rng
    return [dict(chars=vrel.rand(rng, ranges=True)) for n in range(ctx.scale(1200, 15000))]


def model_cases(ctx):
    cs = vrel.model(ctx, ['plain', 'when', 'nwhen'] if ctx.thorough else ['plain', 'when'])
    if ctx.thorough:
        cs += vrel.model(ctx, ['plain', 'when2', 'both', 'plainwhen'], nodes=([97], [98, 99], [99]))
    return [dict(chars=c) for c in cs]


def observe(case):
    import proj
    from lgr.populate import populate_lgr
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    lgr = vrel.build(case['chars'])
    rest = lambda l: {k: v for k, v in proj.full(l).items() if k not in ('chars', 'nchars', 'types', 'ranges')}
    before = rest(lgr)
    try:
        if len(case['chars']) % 2:
            lgr.populate_variants()
        else:
            populate_lgr(lgr)
        after = proj.flat_chars(lgr)
        same = (rest(lgr) == before and len(lgr.repertoire) == len(after)
                and sorted({tuple(c['rng']) for c in after if c['rng']}) == sorted(map(tuple, lgr.repertoire.ranges)))
        checks = bool(check_symmetry(lgr, {'ignore_rules': True})[0] and check_transitivity(lgr, {})[0])
        populate_lgr(lgr)
        return dict(exc='', after=after, same=same, second=proj.flat_chars(lgr), checks=checks)
    except Exception as e:
        return dict(exc=common.exc_name(e))


def run(ctx):
    common.trace_phase(ctx, 'c11', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c11', SPEC, cases(ctx))
