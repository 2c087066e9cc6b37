"""C16 harmonize."""
import json, os
import common, vrel

SPEC = 'T_C16'
NODES = ([97], [98], [97, 98])


def model(ctx, nodes, populated, rz, emit):
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(nodes=[list(n) for n in nodes], populated=populated, rz=rz, emit=emit), f)
    out = common.model_phase(ctx, 'MC_Harmonize', 'SPECIFICATION Spec\nINVARIANT Laws\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
                             env=dict(PAR=par), workers=1 if emit else common.NPROC)
    cs = []
    for s in common.printed_cases(out):
        chars = []
        for g in (s['g'], s['h'], s['r']):
            ent = {tuple(n): vrel.e(n) for n in g['n']}
            for a, b in sorted(g['p']):
                ent[tuple(a)]['vars'].append(vrel.v(b))
            chars.append([ent[n] for n in sorted(ent)])
        cs.append(dict(chars=chars, rz=rz, com=['c', '', '']))
    return cs


def model_cases(ctx):
    cs = model(ctx, NODES, False, False, True)
    k = ctx.scale(2500, len(cs))
    out = ctx.rng.sample(cs, k) if k < len(cs) else cs
    cs = model(ctx, NODES, True, True, True)
    out += cs if ctx.thorough or len(cs) < 1500 else ctx.rng.sample(cs, 1500)
    if ctx.thorough:
        model(ctx, NODES + ([99],), True, True, False)
    return out


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(1200, 12000)):
        rz = rng.random() < .4
        miss = rng.choice([.1, .3, .6])
        wide = rng.random() < .25
        ch = [vrel.rand(rng, ranges=rng.random() < .3, missing=miss, wide=wide) for _ in range(3)]
        if not rz:
            ch[2] = []
        elif rng.random() < .3:
            ch[2] = [c for c in ch[2] if not c['rng']]
        if rng.random() < .1:
            ch[1] = ch[0]
        out.append(dict(chars=ch, rz=rz, com=[rng.choice(['', 'note', ' x ', '-']) for _ in range(3)]))
    return out


def observe(case):
    import detach, proj, real
    from lgr.metadata import Version
    from lgr.tools.harmonize import harmonize
    lgrs = []
    for c, com in zip(case['chars'], case['com']):
        lgr = vrel.build(c)
        if com != '-':
            lgr.metadata.version = Version('1', comment=com or None)
        lgrs.append(lgr)
    a, b, z = lgrs
    before = [proj.full(l) for l in lgrs]

    def rest(l):
        d = {k: v for k, v in proj.full(l).items() if k not in ('chars', 'nchars', 'types', 'ranges', 'tagcls')}
        d['meta'] = dict(d['meta'], version=d['meta']['version'][:1])
        return d
    arg = (z,) if case['rz'] else ()
    try:
        ha, hb, rev = harmonize(a, b, *arg)
        com = all((p['meta']['version'] + ['', ''])[1] in (proj.meta(h)['version'] + ['', ''])[1] for p, h in zip(before, (ha, hb)))
        o = dict(exc='', a=proj.flat_chars(ha), b=proj.flat_chars(hb),
                 review=[sorted(real.cps(x) for x in rev[0]), sorted(real.cps(x) for x in rev[1])],
                 inputs=before == [proj.full(l) for l in lgrs], rest=rest(ha) == rest(a) and rest(hb) == rest(b), comment=com)
        try:
            ga, gb, _ = harmonize(ha, hb, *arg)
            same = proj.full(ga) == proj.full(ha) and proj.full(gb) == proj.full(hb)
            o['again'] = '' if same else 'changed'
        except Exception as e:
            o['again'] = common.exc_name(e)
        o['shared'] = detach.shared([ha, hb], lgrs)
        return o
    except Exception as e:
        return dict(exc=common.exc_name(e))


def run(ctx):
    common.trace_phase(ctx, 'c16', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c16', SPEC, cases(ctx))
