"""C32 definitions of classes, rules and actions."""
import json, os
import common, gen, real

SPEC = 'T_C32'
COMB = dict(union='union', inter='intersection', diff='difference', symd='symmetric-difference', compl='complement')


def node(k, t, name='', by='', also='', kids=()):
    return dict(k=k, t=t, name=name, by=by, also=also, kids=list(kids))


# ------------------------------------------------------------------ generation
def rcls(rng, names, depth, top='', bad=.1):
    """A class tree; `names` are those it may refer to."""
    name = top
    if not top and rng.random() < bad / 3:
        name = 'x9'
    r = rng.random()
    if top == '' and r < .3:
        also = rng.choice(['tag', 'prop', 'ref', 'cps', 'elem']) if rng.random() < bad / 2 else ''
        return node('class', 'ref', name, rng.choice(names + ['nope']) if rng.random() < bad else rng.choice(names or ['nope']), also)
    if depth <= 0 or r < .6:
        return node('class', rng.choice(['cps', 'cps', 'tag', 'prop']), name)
    t = rng.choice(list(COMB))
    n = 1 if t == 'compl' else rng.choice([2, 3]) if t == 'union' else 2
    if rng.random() < bad:
        n = max(0, n + rng.choice([-1, -1, 1, 1, -2]))
    return node('class', t, name, kids=[rcls(rng, names, depth - 1, '', bad) for _ in range(n)])


def rmatch(rng, cn, rn, depth, bad):
    r = rng.random()
    if r < .25 or depth <= 0 and r < .6:
        return rcls(rng, cn, 1, '', bad)
    if r < .4:
        name = 'x8' if rng.random() < bad / 3 else ''
        kids = [node('m', 'any')] if rng.random() < bad / 2 else []
        return node('rule', 'ref', name, rng.choice((rn or ['nope']) + (['nope'] if rng.random() < bad else [])), '', kids)
    if depth <= 0 or r < .6:
        return node('m', rng.choice(['any', 'char', 'char', 'anchor', 'start', 'end']))
    kids = [rmatch(rng, cn, rn, depth - 1, bad) for _ in range(rng.randint(1, 2))]
    if r < .7:
        return node('rule', 'rule', 'x7' if rng.random() < bad / 3 else '', kids=kids)
    return node('m', rng.choice(['choice', 'choice', 'ahead', 'behind']), kids=kids)


def rdef(rng, kind, name, cn, rn, bad):
    if rng.random() < bad / 4:
        name = ''
    if kind == 'class':
        return rcls(rng, cn, 2, name, bad) if name else dict(rcls(rng, cn, 2, 'tmp', bad), name='')
    if kind == 'rule':
        if rng.random() < bad / 3:
            return node('rule', 'ref', name, rng.choice(rn + ['nope']))
        return node('rule', 'rule', name, kids=[rmatch(rng, cn, rn, 2, bad) for _ in range(rng.randint(0, 3))])
    rules = rn + ['nope', '']
    m = rng.choice(rules)
    return node('action', 'action', m, rng.choice(rules) if rng.random() < bad * 2 else '')


def pad(rng, d):
    # blank content is no content
    if d['t'] in ('ref', 'tag', 'prop') and rng.random() < .2:
        d['pad'] = rng.choice([' ', '\n  ', '<!-- note -->'])
    for k in d['kids']:
        pad(rng, k)


def one(rng):
    nc, nr = rng.randint(1, 4), rng.randint(1, 4)
    # names are ordered so that definitions never refer to each other in a circle, whatever order they come in
    cs, rs = ['c%d' % k for k in range(nc)], ['r%d' % k for k in range(nr)]
    if rng.random() < .3:
        rs[0] = cs[0]                              # classes and rules have names of their own
    bad = rng.choice([0, .1, .3])
    ds = [rdef(rng, 'class', cs[k], cs[:k] + (['r0'] if rng.random() < bad else []), [], bad) for k in range(nc)]
    ds += [rdef(rng, 'rule', rs[k], cs, rs[:k], bad) for k in range(nr)]
    ds += [rdef(rng, 'action', '', [], rs, bad) for _ in range(rng.randint(0, 2))]
    if bad and rng.random() < .5:
        rng.shuffle(ds)
    elif rng.random() < .4:
        a = rng.randrange(len(ds))
        ds.insert(rng.randrange(a + 1), ds.pop(a))
    mode = rng.choice(['api', 'api', 'xml'])
    forced = rng.choice([0, 0, .3, 1])
    case = dict(mode=mode, force=rng.random() < .5, steps=[dict(d=d, force=rng.random() < forced) for d in ds])
    if mode == 'xml':
        for s in case['steps']:
            s['force'] = case['force']
            pad(rng, s['d'])
    return case


def cases(ctx):
    return [one(ctx.rng) for _ in range(ctx.scale(2500, 40000))]


def menu():
    leaf = node('class', 'cps')
    ref = lambda n: node('class', 'ref', by=n)
    rule = lambda name, *k: node('rule', 'rule', name, kids=k)
    return [node('class', 'cps', 'a'), node('class', 'compl', 'b', kids=[ref('a')]),
            node('class', 'union', 'c', kids=[leaf, ref('r')]), node('class', 'inter', 'd', kids=[leaf]),
            node('class', 'cps'), node('class', 'diff', 'e', kids=[node('class', 'cps', 'z'), leaf]),
            rule('r', node('m', 'any')), rule('s', node('rule', 'ref', by='r')), rule('t', node('m', 'choice', kids=[ref('a'), node('m', 'char')])),
            rule('a', node('m', 'ahead', kids=[node('rule', 'ref', by='t')])), rule(''),
            rule('u', node('rule', 'rule', 'v', kids=[node('m', 'any')])),
            node('action', 'action', 'nope'), node('action', 'action', 'r', 's')]


def model_cases(ctx):
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(menu=menu(), len=ctx.scale(2, 3)), f)
    out = common.model_phase(ctx, 'MC_Defs', 'SPECIFICATION Spec\nINVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par),
                             workers=1)
    hs = common.printed_cases(out)
    cs = [dict(mode='api', force=False, steps=h) for h in hs]
    for h in hs:
        if len({s['force'] for s in h}) == 1:
            cs.append(dict(mode='xml', force=h[0]['force'], steps=h))
    return cs


# ------------------------------------------------------------------ the real thing
def mk(d):
    from lgr import classes as c, matcher as m
    from lgr.rule import Rule
    from lgr.action import Action
    N = lambda s: s or None
    if d['k'] == 'action':
        return Action('valid', match=N(d['name']), not_match=N(d['by']))
    if d['k'] == 'class':
        if d['t'] in COMB:
            x = dict(union=c.UnionClass, inter=c.IntersectionClass, diff=c.DifferenceClass, symd=c.SymmetricDifferenceClass,
                     compl=c.ComplementClass)[d['t']](name=N(d['name']))
            for k in d['kids']:
                x.add_child(mk(k))
            return x
        if d['t'] == 'ref':
            a = d['also']
            x = c.Class(name=N(d['name']), by_ref=d['by'], from_tag='t0' if a == 'tag' else None,
                        unicode_property='gc:Nd' if a == 'prop' else None, ref=['0'] if a == 'ref' else None)
            if a in ('cps', 'elem'):
                x.add_codepoint(97)
            return x
        return c.Class(name=N(d['name']), **dict(cps=dict(codepoints=[97, 98]), tag=dict(from_tag='t0'), prop=dict(unicode_property='gc:Nd'))[d['t']])
    if d['k'] == 'rule':
        x = Rule(name=N(d['name']), by_ref=N(d['by']))
    elif d['t'] in ('start', 'end', 'any', 'anchor'):
        return dict(start=m.StartMatcher, end=m.EndMatcher, any=m.AnyMatcher, anchor=m.AnchorMatcher)[d['t']]()
    elif d['t'] == 'char':
        return m.CharMatcher([97])
    else:
        x = dict(choice=m.ChoiceMatcher, ahead=m.LookAheadMatcher, behind=m.LookBehindMatcher)[d['t']]()
    for k in d['kids']:
        y = mk(k)
        x.add_child(m.ClassMatcher(y) if k['k'] == 'class' else m.RuleMatcher(y) if k['k'] == 'rule' else y)
    return x


def xml(d):
    o = gen.opt
    if d['k'] == 'action':
        return '<action disp="valid"%s%s/>' % (o('match', d['name']), o('not-match', d['by']))
    kids = ''.join(map(xml, d['kids']))
    if d['k'] == 'class':
        if d['t'] in COMB:
            return '<%s%s>%s</%s>' % (COMB[d['t']], o('name', d['name']), kids, COMB[d['t']])
        a = d['also'] if d['t'] == 'ref' else d['t']
        att = dict(tag=' from-tag="t0"', prop=' property="gc:Nd"', ref=' ref="0"').get(a, '')
        body = dict(cps='0061', elem='<char cp="0061"/>').get(a, d.get('pad', ''))
        if d['t'] == 'cps':
            body = '0061 0062'
        return '<class%s%s%s>%s</class>' % (o('name', d['name']), o('by-ref', d['by']), att, body)
    if d['k'] == 'rule':
        return '<rule%s%s>%s</rule>' % (o('name', d['name']), o('by-ref', d['by']), kids or d.get('pad', ''))
    tag = dict(ahead='look-ahead', behind='look-behind').get(d['t'], d['t'])
    return '<%s%s>%s</%s>' % (tag, ' cp="0061"' if d['t'] == 'char' else '', kids, tag)


def document(ds):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<lgr xmlns="%s"><meta><references><reference id="0">x</reference></references></meta>'
            '<data><char cp="0061" tag="t0"/></data><rules>%s</rules></lgr>' % (gen.NS, ''.join(map(xml, ds))))


def why(e):
    from lgr.exceptions import LGRFormatException
    R = LGRFormatException.LGRFormatReason
    if isinstance(e, LGRFormatException):
        return {R.BY_REF_AND_OTHER: 'by-ref-and-other', R.INVALID_BY_REF: 'undefined', R.INVALID_TOP_LEVEL_NAME: 'name',
                R.INVALID_CHILDREN_NUMBER: 'children', R.MATCH_NOT_MATCH: 'match-not-match'}.get(e.reason, 'reason %s' % e.reason)
    return common.exc_name(e)


def names(lgr):
    n = lambda l: [real.s(x) for x in l]
    return dict(cls=n(x for x in lgr.classes), rls=n(lgr.rules), acts=len(lgr.actions))


def snap(lgr):
    ids = lambda d: sorted((str(n), id(x)) for n, x in d.items())
    return [list(lgr.classes), list(lgr.rules), ids(lgr.classes_lookup), ids(lgr.rules_lookup), list(map(id, lgr.actions)),
            sorted(lgr.get_tag_classes()), [c.cp for c in lgr.repertoire]]


def evals(lgr):
    db = common.unidb()
    out = []
    for kind, lookup, ns in (('class', lgr.classes_lookup, lgr.classes), ('rule', lgr.rules_lookup, lgr.rules)):
        for n in ns:
            if n is None:
                continue
            exc = ''
            try:
                if kind == 'class':
                    lookup[n].get_pattern(lgr.rules_lookup, lgr.classes_lookup, db)
                else:
                    lookup[n].matches([97, 98], lgr.rules_lookup, lgr.classes_lookup, db, anchor=(97,), index=0)
            except Exception as e:
                exc = type(e).__name__
            out.append(dict(k=kind, name=n, exc=exc))
    return out


def observe(case):
    from lgr.core import LGR
    if case['mode'] == 'xml':
        try:
            lgr = real.parse_xml(document([s['d'] for s in case['steps']]), db=False, force=case['force'])
        except Exception as e:
            return dict(exc=why(e), cls=[], rls=[], acts=0, evals=[])
        return dict(names(lgr), exc='', evals=evals(lgr))
    lgr = LGR()
    lgr.add_cp([97], tag=['t0'])
    steps = []
    for s in case['steps']:
        before, exc = snap(lgr), ''
        try:
            x = mk(s['d'])
            dict(zip(('class', 'rule', 'action'), (lgr.add_class, lgr.add_rule, lgr.add_action)))[s['d']['k']](x, force=s['force'])
        except Exception as e:
            exc = why(e)
        steps.append(dict(names(lgr), exc=exc, same=snap(lgr) == before, evals=evals(lgr)))
    return dict(exc='', steps=steps)


def run(ctx):
    common.trace_phase(ctx, 'c32', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c32', SPEC, cases(ctx))
