"""C12 variant validators."""
import common, vrel

SPEC = 'T_C12'


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(1500, 20000)):
        out.append(dict(chars=vrel.rand(rng, ranges=True), rules=rng.choice([[], ['r1', 'n1'], ['r1', 'r2', 'n1', 'n2']])))
    return out


def model_cases(ctx):
    cs = vrel.model(ctx, ['plain', 'when'] if not ctx.thorough else ['plain', 'when', 'nwhen', 'both'])
    return [dict(chars=c, rules=['r1'] if k % 2 else ['n1']) for k, c in enumerate(cs)]


def ident(char, var):
    import real
    return dict(cp=real.cps(char.cp), var=real.cps(var.cp), when=real.s(var.when), nwhen=real.s(var.not_when))


def observe(case):
    import proj, real
    from lgr.validate.symmetry import check_symmetry
    from lgr.validate.transitivity import check_transitivity
    from lgr.validate.conditional_variants import check_conditional_variants
    lgr = vrel.build(case['chars'], case['rules'])
    before = proj.full(lgr)

    def ask():
        r, b = check_symmetry(lgr, {})
        sym = dict(ok=bool(r), rep=[dict(m=ident(x['char'], x['variant']),
                                        issue=x['rule_type'] if x['type'] == 'variant-contextual-rule-missing' else x['type'])
                                    for x in b['repertoire']])
        r, b = check_symmetry(lgr, {'ignore_rules': True})
        bsym = dict(ok=bool(r), rep=[dict(m=ident(x['char'], x['variant']), issue=x['type']) for x in b['repertoire']])
        r, b = check_transitivity(lgr, {})
        trans = dict(ok=bool(r), rep=[[real.cps(x['char'].cp), dict(ident(x['char'], x['variant']), cp=[])] for x in b['repertoire']])
        r, b = check_conditional_variants(lgr, {})
        cond = dict(ok=bool(r), rep=[dict(m=ident(x['char'], x['variant']), issue=x['rule_type']) for x in b['repertoire']])
        return dict(sym=sym, bsym=bsym, trans=trans, cond=cond)
    try:
        o = ask()
        verdict = {}
        for t in ('basic_symmetry', 'strict_symmetry', 'basic_transitivity'):
            v = lgr.get_rfc7940_validation({t: 'WARNING'})
            verdict[t] = dict(PASS='pass', WARN='fail').get(v, 'notrun')
        o['rec'] = verdict
        o['same'] = proj.full(lgr) == before
        again = ask()
        o['again'] = all(again[k] == o[k] for k in again)
        o['exc'] = ''
        return o
    except Exception as e:
        return dict(exc=common.exc_name(e))


def run(ctx):
    common.trace_phase(ctx, 'c12', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c12', SPEC, cases(ctx))
