"""Random and model-made variant relations, shared by C11 and C12."""
import itertools, json, os
import common

A, B, C, SEQ = [97], [98], [99], [97, 98]


def v(cp, when='', nwhen='', type='', refs=(), com=''):
    return dict(cp=list(cp), when=when, nwhen=nwhen, type=type, refs=list(refs), com=com)


def e(cp, vars=(), **k):
    d = dict(cp=list(cp), rng=[], when='', nwhen='', tags=[], refs=[], com='', vars=list(vars))
    d.update(k)
    return d


KIND = dict(plain=[('', '')], when=[('r1', '')], nwhen=[('', 'n1')], both=[('r1', ''), ('', 'n1')], plainwhen=[('', ''), ('r1', '')],
            when2=[('r2', '')])


def model(ctx, kinds, nodes=(A, B, SEQ)):
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(nodes=[list(n) for n in nodes], kinds=['none'] + list(kinds)), f)
    out = common.model_phase(ctx, 'MC_Variants', 'SPECIFICATION Spec\nINVARIANT Laws\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
                             env=dict(PAR=par), workers=1)
    cs = []
    for g in common.printed_cases(out):
        ent = {tuple(n): e(n) for n in g['here']}
        for (p, k) in g['m']:
            for w, n in KIND[k]:
                ent[tuple(p[0])]['vars'].append(v(p[1], w, n, type='t' if p[0] < p[1] else ''))
        chars = [ent[n] for n in sorted(ent)]
        for c in chars:
            c['vars'].sort(key=lambda x: x['cp'])
        cs.append(chars)
    return cs


def rand(rng, ranges=False, missing=.25, wide=None):
    pool = [[c] for c in range(97, 97 + rng.randint(2, 6))] + [list(x) for x in rng.sample([(97, 98), (98, 97), (97, 98, 99), (99, 99)], rng.randint(0, 2))]
    present = [p for p in pool if rng.random() > missing] or pool[:1]
    runs = rng.choice([[], [110], [48], [48, 110], [80, 110]]) if ranges else []
    if runs:
        pool = pool + [[rng.choice(runs) + rng.choice([0, 1])]]
        if rng.random() < .3:
            pool = pool + [[114]]
            present = present + [[114]]
    dens = rng.choice([.1, .25, .5])
    ctxp = rng.choice([0, .3, .7])
    ents = []
    for p in present:
        vs = []
        for t in pool:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if rng.random() < (dens if t != p else dens / 3):
                    w = n = ''
                    if rng.random() < ctxp:
                        w, n = rng.choice([('r1', ''), ('r2', ''), ('', 'n1'), ('', 'n2'), ('nope', ''), ('', 'r1')])
                    if any(x['cp'] == t and x['when'] == w and x['nwhen'] == n for x in vs):
                        continue
                    vs.append(v(t, w, n, rng.choice(['', 'blocked', 'allocatable', 'x']), rng.choice([[], [], ['0'], ['1', '0']]),
                                rng.choice(['', '', 'c1'])))
        vs.sort(key=lambda x: x['cp'])
        ents.append(e(p, vs, tags=rng.choice([[], ['t1']]) if len(p) == 1 else [], refs=rng.choice([[], ['1']]), com=rng.choice(['', 'note'])))
    ents.sort(key=lambda x: x['cp'])
    for f in runs:
        at = dict(tags=rng.choice([[], ['t1']]), refs=rng.choice([[], ['1']]), com=rng.choice(['', 'note']))
        for c in range(f, f + 3):
            ents.append(e([c], rng=[f, f + 2], **at))
    if rng.random() < .3 if wide is None else wide:
        spread(ents)
    for x in ents:
        x['vars'].sort(key=lambda y: y['cp'])
    ents.sort(key=lambda x: x['cp'])
    return ents


def spread(ents):
    """The same relation over code points of several planes, whose order is not that of their notations."""
    to = dict(zip(range(97, 103), [0x61, 0x3b1, 0x4e00, 0x9fa0, 0x10330, 0x20000]))
    for x in ents:
        for y in [x] + x['vars']:
            y['cp'] = [to.get(c, c) for c in y['cp']]


def build(chars, rules=(), refs=('0', '1')):
    from lgr.core import LGR
    from lgr.rule import Rule
    from lgr.matcher import StartMatcher, AnchorMatcher
    lgr = LGR()
    for r in refs:
        lgr.add_reference('ref ' + r, ref_id=r)
    for r in rules:
        rule = Rule(name=r)
        rule.add_child(AnchorMatcher())
        lgr.add_rule(rule)
    done = set()
    N = lambda x: x or None
    for c in chars:
        if c['rng']:
            if tuple(c['rng']) not in done:
                done.add(tuple(c['rng']))
                lgr.add_range(c['rng'][0], c['rng'][1], comment=N(c['com']), ref=list(c['refs']), tag=list(c['tags']))
            continue
        lgr.add_cp(c['cp'], comment=N(c['com']), ref=list(c['refs']), tag=list(c['tags']), when=N(c['when']), not_when=N(c['nwhen']))
    for c in chars:
        for x in c['vars']:
            lgr.add_variant(c['cp'], x['cp'], variant_type=N(x['type']), when=N(x['when']), not_when=N(x['nwhen']), comment=N(x['com']),
                            ref=list(x['refs']))
    return lgr
