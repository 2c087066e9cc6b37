"""Small exhaustive families of LGRs (MC_Label): choices of entries and actions, with all short labels."""
import itertools, json, os
import common, gen

A, B, C, D = 0x61, 0x62, 0x63, 0x64
START = dict(t='start', **gen.ONE)
END = dict(t='end', **gen.ONE)
ANCHOR = dict(t='anchor', **gen.ONE)
ANY = dict(t='any', **gen.ONE)


def lit(*cps):
    return dict(t='char', cps=list(cps), **gen.ONE)


def rule(name, *kids):
    return dict(k='rule', name=name, kids=list(kids))


def around(d, *kids):
    return dict(t=d, kids=list(kids), **gen.ONE)


def var(cp, type='', when='', nwhen=''):
    return dict(cp=list(cp), when=when, nwhen=nwhen, type=type, refs=[], comment='')


def char(cp, *vars, **k):
    return dict(dict(k='char', cp=list(cp), when='', nwhen='', tags=[], refs=[], comment='', vars=list(vars)), **k)


def act(disp, match='', nmatch='', vk='none', vs=()):
    return dict(k='action', disp=disp, match=match, nmatch=nmatch, vk=vk, vs=list(vs))


FIRST = rule('first', around('behind', START), ANCHOR)
LAST = rule('last', ANCHOR, around('ahead', END))
BEFORE_B = rule('beforeb', ANCHOR, around('ahead', lit(B)))
AFTER_A = rule('aftera', around('behind', lit(A)), ANCHOR)
HAS_BB = rule('hasbb', lit(B, B))
NOT_A = rule('nota', START, lit(B))


def entries(thorough):
    """Overlapping entries under context rules."""
    return dict(slots=[[[], [char([A])], [char([A], when='first')]],
                       [[], [char([B])], [char([B], nwhen='beforeb')]],
                       [[], [char([A, B])], [char([A, B], when='aftera')], [char([A, B], nwhen='first')]],
                       [[], [char([B, A])], [char([B, A], when='last')]],
                       [[], [char([A, B, B])]] + ([[char([A, B, A], when='first')], [dict(k='range', first=C, last=C + 1, when='', nwhen='aftera', tags=[], refs=[], comment='')]] if thorough else [])],
                rules=[FIRST, LAST, BEFORE_B, AFTER_A], acts=[[]], alpha=[A, B], len=4 if thorough else 3, extra=[[C], [A, C], [C, A, B], [A, B, C]])


def actions(thorough):
    """Reflexive mappings under one or two actions."""
    refl = lambda c: [[char([c])], [char([c], var([c], 'blocked'))], [char([c], var([c], 'x'))], [char([c], var([c], 'x', when='first'), var([c], 'blocked', when='last'))]]
    one = [act('invalid', 'hasbb'), act('blocked', '', 'nota'), act('x', '', '', 'any', ['x']), act('allocatable', '', '', 'all', ['x', 'blocked']),
           act('valid', '', '', 'only', ['x']), act('invalid', 'nota', '', 'only', ['x', 'blocked']), act('activated', '', 'hasbb', 'any', ['blocked'])]
    pairs = list(itertools.permutations(one, 2))
    return dict(slots=[refl(A), refl(B)], rules=[FIRST, LAST, HAS_BB, NOT_A], acts=[[]] + [[x] for x in one] + [list(p) for p in (pairs if thorough else pairs[::3])],
                alpha=[A, B], len=3 if thorough else 2, extra=[[B, B, A], [A, B, B], [A, C]])


def variants(thorough):
    """Mappings between two code points and a sequence of both."""
    va = [[char([A])], [char([A], var([B], 'blocked'))], [char([A], var([B], 'x'), var([A], 'y'))], [char([A], var([B], 'x', when='first'))], [char([A], var([A, B], 'x'))],
          [char([A], var([B]), var([B], 'blocked', nwhen='first'))]]
    vb = [[], [char([B])], [char([B], var([A], 'x'))], [char([B], var([A], '', nwhen='aftera'))], [char([B], var([B], 'x'), var([C], 'blocked'))]]
    vs = [[], [char([A, B])], [char([A, B], var([B], 'x'))], [char([A, B], var([B, A], 'blocked'), var([A, B], 'x'))]]
    acts = [[], [act('invalid', '', '', 'any', ['y']), act('blocked', '', '', 'only', ['x'])], [act('allocatable', '', '', 'all', ['x', '']), act('invalid', 'hasbb')]]
    return dict(slots=[va, vb, vs] + ([[[], [char([B, A], var([A], 'y'))]]] if thorough else []), rules=[FIRST, AFTER_A, HAS_BB], acts=acts if thorough else acts[1:],
                alpha=[A, B], len=3, extra=[])


def nested(thorough):
    """Sequences that begin or end with one another, each with and without mappings."""
    def opt(*cp):
        return [[], [char(cp)], [char(cp, var([D], 'x'))]]
    acts = [[act('blocked', '', '', 'any', ['x'])], [act('allocatable', '', '', 'only', ['x', ''])]]
    return dict(slots=[opt(A)[:3 if thorough else 2], opt(A, B), opt(A, B, C), opt(B, C)[:3 if thorough else 2], opt(C) + ([[char([C], var([D, D]))]] if thorough else []),
                       opt(B)[1:] if thorough else opt(B)[:2]], rules=[], acts=acts if thorough else acts[:1],
                alpha=[A], len=1, extra=[[A, B, C], [A, B], [B, C], [A, B, C, C], [A, A, B, C], [C, A, B]])


def indexes(thorough):
    """Mappings to smaller and larger entries, open relations."""
    va = [[char([A])], [char([A], var([B]))], [char([A], var([B, A]))], [char([A], var([C], when='first'))]]
    vb = [[], [char([B])], [char([B], var([A]))], [char([B], var([A], when='aftera'))], [char([B], var([A], nwhen='first'))], [char([B], var([A, A]))]]
    vs = [[], [char([A, B])], [char([A, B], var([A]))], [char([B, A], var([A, B]))], [char([B, A], when='last', vars=[var([A])])], [char([B, B], var([A, C]))]]
    vc = [[]] + ([[char([C], var([A]))], [char([C], var([B], when='first'))]] if thorough else [[char([C], var([A]))]])
    return dict(slots=[va, vb, vs, vc], rules=[FIRST, AFTER_A, LAST], acts=[[]], alpha=[A, B], len=3, extra=[[C, A], [B, C]])


def closed(thorough):
    """Every partition of three code points into variant sets, and absent ones."""
    opts = []
    for p in ([[A], [B], [C]], [[A, B], [C]], [[A, C], [B]], [[A], [B, C]], [[A, B, C]], [[A, B]], [[B, C]], [[A]], [[A], [C]]):
        opts.append([char([c], *[var([d], 'blocked') for d in s if d != c]) for s in p for c in s])
    return dict(slots=[opts], rules=[], acts=[[]], alpha=[A, B, C], len=3 if thorough else 2, extra=[], closed=True)


INV = 'SPECIFICATION Spec\nINVARIANT Shared\nINVARIANT Decided\nINVARIANT Spelled\nINVARIANT Indexed\nINVARIANT Grouped\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'


def model(ctx, *families):
    """-> [(document, labels, closed)]"""
    out = []
    for fam in families:
        f = fam(ctx.thorough)
        par = os.path.join(ctx.tmp, 'par.json')
        with open(par, 'w') as h:
            json.dump(dict(slots=[[gen.spec_chars(o) for o in sl] for sl in f['slots']], acts=[gen.spec_lgr(dict(items=[], decls=a))['actions'] for a in f['acts']],
                           classes=[], rules=gen.spec_lgr(dict(items=[], decls=f['rules']))['rules'], alpha=f['alpha'], len=min(f['len'], 3), closed=f.get('closed', False),
                           emit=True), h)
        text = common.model_phase(ctx, 'MC_Label', INV, env=dict(PAR=par), workers=1)
        labels = [list(x) for n in range(1, f['len'] + 1) for x in itertools.product(f['alpha'], repeat=n)] + f['extra']
        for c in common.printed_cases(text):
            items = [it for k, j in enumerate(c['s']) for it in f['slots'][k][j - 1]]
            out.append((dict(meta=None, items=items, decls=f['rules'] + f['acts'][c['a'] - 1], alpha=f['alpha']), labels, f.get('closed', False)))
    return out


def cnt(n, lo, hi):
    return dict(n, min=lo, max=hi, cnt=True)


def rules(ctx):
    """-> [(doc with rules x and s, [body])]: every body over a few matchers"""
    ref = rule('s', lit(A), dict(t='choice', kids=[lit(B), END], **gen.ONE))
    alt = dict(t='choice', kids=[lit(A, B), lit(B)], **gen.ONE)
    none = dict(t='class', cls=dict(t='cps', cps=[], form='elem'), **gen.ONE)
    atoms = [START, END, ANCHOR, lit(A), cnt(ANY, 0, 1), cnt(lit(B), 0, -1), alt, dict(t='ref', name='s', **gen.ONE), around('behind', lit(A)), around('ahead', lit(B)),
             around('behind', START), dict(t='class', cls=dict(t='tag', tag='t'), **gen.ONE), cnt(alt, 2, 2), none]
    if ctx.thorough:
        atoms += [around('ahead', cnt(lit(B), 1, -1), END), around('behind', START, lit(A)), cnt(dict(t='rule', kids=[lit(A), lit(B)], **gen.ONE), 0, 2), lit(A, B)]
    items = [char([A], tags=['t']), char([B]), char([C], tags=['t'])]
    doc = dict(meta=None, items=items, decls=[ref], alpha=[A, B])
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as h:
        json.dump(dict(L=gen.spec_lgr(doc), atoms=atoms, size=3, alpha=[A, B], len=2), h)
    out = common.model_phase(ctx, 'MC_Rules', 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par), workers=1)
    with open(par, 'w') as h:      # the mirror image is not that of a reference: without it
        json.dump(dict(L=gen.spec_lgr(doc), atoms=[a for a in atoms if a['t'] != 'ref'], size=2, alpha=[A, B], len=3), h)
    common.model_phase(ctx, 'MC_Rules', 'SPECIFICATION Spec\nINVARIANT Mirror\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par))
    return doc, [[atoms[k - 1] for k in b] for b in common.printed_cases(out)]
