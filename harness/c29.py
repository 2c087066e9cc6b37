"""C29 rebuilding and whole-LGR validation."""
import itertools, re
import common, vrel

SPEC = 'T_C29'
# windows of code points: first, last, not IDNA valid (RFC 5892, Unicode 15.1), script runs
WIN = [(0x5e, 0x64, [0x5e, 0x5f, 0x60], [(0x5e, 0x60, 'Zyyy'), (0x61, 0x64, 'Latn')]),
       (0x78, 0x7d, [0x7b, 0x7c, 0x7d], [(0x78, 0x7a, 'Latn'), (0x7b, 0x7d, 'Zyyy')]),
       (0xde, 0xe2, [0xde], [(0xde, 0xe2, 'Latn')]),
       (0x2d, 0x32, [0x2e, 0x2f], [(0x2d, 0x32, 'Zyyy')]),
       (0x374, 0x37b, [0x374, 0x376, 0x378, 0x379, 0x37a], [(0x374, 0x374, 'Zyyy'), (0x375, 0x377, 'Grek'), (0x378, 0x379, 'Zzzz'), (0x37a, 0x37b, 'Grek')]),
       (0x5be, 0x5c3, [0x5be, 0x5c0, 0x5c3], [(0x5be, 0x5c3, 'Hebr')]),
       (0x3b1, 0x3b4, [], [(0x3b1, 0x3b4, 'Grek')]), (0x200c, 0x200d, [], [(0x200c, 0x200d, 'Zinh')])]
LANGS = {'en': 'Latn', 'el': 'Grek', 'he': 'Hebr', 'ru': 'Cyrl', 'und-Latn': 'Latn', 'und-Grek': 'Grek'}
TYPES = ['', '', 'blocked', 'allocatable', 'x', '_x', 'a b', 'r-both']
BADTYPES = ['_x', 'a b']
TESTS = ['data_variant_type', 'standard_dispositions', 'ref_attribute_ascending', 'codepoint_valid']


def one(rng, clean):
    wins = rng.sample(WIN, rng.choice([1, 1, 2, 3]))
    cps, inv, scr = [], [], []
    for a, b, bad, runs in wins:
        cps += range(a, b + 1)
        inv += bad
        scr += [[c, s] for x, y, s in runs for c in range(x, y + 1)]
    if clean:
        cps = [c for c in cps if c not in inv] or cps
    chars, used = [], set()
    for a, b, bad, _ in wins:
        if rng.random() < .4:
            x = rng.randint(a, b)
            y = min(b, x + rng.randint(1, 3))
            if x < y:
                chars.append(vrel.e([x], rng=[x, y], refs=rng.choice([[], ['0'], ['1', '0']]), com=rng.choice(['', 'c'])))
                used.update(range(x, y + 1))
    ctx = lambda p: rng.choice([('', ''), ('', ''), ('r1', ''), ('', 'n1')]) if rng.random() > p else ('r1', 'n1')
    for _ in range(rng.randint(1, 5)):
        cp = [rng.choice(cps) for _ in range(rng.choice([1, 1, 1, 2]))]
        if tuple(cp) in {tuple(c['cp']) for c in chars} or (len(cp) == 1 and cp[0] in used):
            continue
        w, n = ctx(.05)
        tags = rng.choice([[], [], ['t1'], ['t2', 't1']]) if len(cp) == 1 or rng.random() < .1 else []
        ent = vrel.e(cp, when=w, nwhen=n, tags=tags, refs=rng.choice([[], ['0'], ['0', '1'], ['1', '0'], ['0', 'A', '1']]), com=rng.choice(['', 'c']))
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            t = [rng.choice(cps) for _ in range(rng.choice([1, 1, 2]))]
            w, n = ctx(.08)
            if not any((v['cp'], v['when'], v['nwhen']) == (t, w, n) for v in ent['vars']):
                ent['vars'].append(vrel.v(t, w, n, rng.choice(TYPES[:5] if rng.random() < .7 else TYPES), rng.choice([[], ['0'], ['1', '0']])))
        chars.append(ent)
    rng.shuffle(chars)
    langs = rng.choice([[], [], ['en'], ['el'], ['he'], ['ru'], ['und-Latn', 'el'], ['und-Grek']])
    hasval = rng.random() < .5
    opt = dict(inv=inv, strict=rng.random() < .7, hasval=hasval, val=[c for c in cps if rng.random() < .7] if hasval else [],
               scripts=sorted({LANGS[x] for x in langs}), scr=scr)
    return dict(chars=chars, langs=langs, opt=opt, db=rng.random() < .9, ver=rng.choice(['6.3.0', '15.1.0', '15.1.0']),
                optver=rng.choice(['', '', '15.1.0', '10.0.0', 'None']))


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(1200, 12000)):
        out.append(dict(one(rng, rng.random() < .3), kind='rebuild'))
        if not out[-1]['db']:
            out[-1]['opt']['scripts'] = []
    for n in range(ctx.scale(500, 6000)):
        c = dict(one(rng, rng.random() < .6), kind='validate', rfc=rng.random() < .8, badtypes=BADTYPES,
                 disps=[rng.choice(['invalid', 'blocked', 'allocatable', 'activated', 'valid', 'valid', 'my own', 'Valid'][:rng.choice([6, 6, 8])])
                        for _ in range(rng.randint(0, 3))], uses=rng.random() < .3, rng=rng.random() < .3)
        if rng.random() < .15:
            c['chars'] = [x for x in c['chars'] if x['rng']]
        if not c['db']:
            c['opt']['scripts'] = []
        out.append(c)
    return out


def order_cases(ctx):
    out = []
    cps = [[97], [98], [97, 98], [98, 97], [97, 98, 99]]
    for k in range(1, 4 if not ctx.thorough else 6):
        for p in itertools.permutations(cps, k):
            out.append(dict(kind='order', list=list(p), uver=len(out) % 2 == 0, inv=[], ranges=[len(out) % 3 == 0][:1]))
    rng = ctx.rng
    for _ in range(ctx.scale(150, 1500)):
        L = [[rng.choice([0x5f, 0x61, 0x62, 0x7a, 0x2126, 0x3b1]) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.randint(1, 6))]
        L = [list(x) for x in dict.fromkeys(map(tuple, L))]
        if rng.random() < .6:
            L.sort()
        out.append(dict(kind='order', list=L, uver=rng.random() < .5, inv=[0x5f, 0x2126], ranges=[rng.random() < .3]))
    return out


def build(case):
    """The LGR as given, insertion forced and unchecked; the database only afterwards."""
    from lgr.core import LGR
    from lgr.action import Action
    lgr = LGR(name='given')
    for k in ('0', '1', 'A'):
        lgr.add_reference('ref ' + k, ref_id=k)
    N = lambda x: x or None
    for c in case['chars']:
        kw = dict(comment=N(c['com']), ref=list(c['refs']), tag=list(c['tags']), when=N(c['when']), not_when=N(c['nwhen']), force=True)
        if c['rng']:
            lgr.add_range(c['rng'][0], c['rng'][1], **kw)
        else:
            lgr.add_cp(c['cp'], **kw)
            for x in c['vars']:
                lgr.add_variant(c['cp'], x['cp'], variant_type=N(x['type']), when=N(x['when']), not_when=N(x['nwhen']), comment=N(x['com']),
                                ref=list(x['refs']), force=True)
    for d in case.get('disps', ()):
        lgr.add_action(Action(d, any_variant=['x']))
    lgr.metadata.set_languages(list(case['langs']))
    lgr.metadata.set_unicode_version(case['ver'])
    if case['db']:
        lgr.unicode_database = common.unidb()
    return lgr


def val_of(case):
    from lgr.core import LGR
    v = LGR(name='val')
    for c in case['opt']['val']:
        v.add_cp([c], force=True)
    return v


def report(res):
    import real
    from lgr.char import RangeChar
    n = lambda e: [type(e).__name__, real.cps(e.cp if not isinstance(e.cp, int) else [e.cp]) if hasattr(e, 'cp') else []]
    out = []
    for char, d in res['repertoire'].items():
        vs = [dict(v=dict(cp=real.cps(v.cp), when=real.s(v.when), nwhen=real.s(v.not_when)), errs=[type(e).__name__ for e in es])
              for v, es in d.get('variants', {}).items()]
        out.append(dict(cp=real.cps(char.cp), errors=[n(e) for e in d.get('errors', [])], warnings=[n(e)[1] for e in d.get('warnings', [])],
                        vars=vs))
    return out


def options(case):
    opts = {}
    if case['opt']['strict']:
        opts['unidb'] = common.unidb()
    val = None
    if case['opt']['hasval']:
        val = opts['validating_repertoire'] = val_of(case)
    if case['optver']:
        opts['unicode_version'] = None if case['optver'] == 'None' else case['optver']
    return opts, val


def status(lgr, t):
    return dict(PASS='pass', WARN='fail').get(lgr.get_rfc7940_validation({t: 'WARNING'}), 'notrun')


def observe(case):
    import proj, real
    if case['kind'] == 'order':
        xml = '<?xml version="1.0"?><lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta>%s</meta><data>%s</data></lgr>' % (
            '<unicode-version>15.1.0</unicode-version>' if case['uver'] else '<version>1</version>',
            ''.join('<char cp="%s"/>%s' % (' '.join('%04X' % c for c in cp), '<range first-cp="0064" last-cp="0066"/>' if case['ranges'][0] and k == 0 else '')
                    for k, cp in enumerate(case['list'])))
        try:
            lgr = real.parse_xml(xml)
            return dict(exc='', order=status(lgr, 'char_ascending_order'), strict=status(lgr, 'char_strict_ascending_order'),
                        explicit=status(lgr, 'explicit_unicode_version'), valid=status(lgr, 'codepoint_valid'))
        except Exception as e:
            return dict(exc=common.exc_name(e))
    from lgr.validate.rebuild_lgr import rebuild_lgr
    try:
        lgr = build(case)
        before = proj.full(lgr)
        o = dict(exc='', chars=proj.chars(lgr), refs=proj.refs(lgr))
        opts, val = options(case)
        keep = dict(opts)
        if case['kind'] == 'rebuild':
            ok, res = rebuild_lgr(lgr, opts)
            want = case['ver'] if case['optver'] in ('', 'None') else case['optver']
            o.update(rep=report(res), options=bool(ok) and opts == keep and res['unicode_version'] == want and res['validating_repertoire'] is val
                     and res['unidb_version'] == ('15.1.0' if case['opt']['strict'] else None), same=proj.full(lgr) == before)
            return o
        if case['rfc']:
            opts['rfc7940'] = True
        if case['rng']:
            import os
            opts['rng_filepath'] = os.path.join(common.REPO, 'resources', 'lgr.rng')
        res = lgr.validate(opts)
        o['names'] = [n for n, _ in res]
        o['rec'] = [[t, status(lgr, t)] for t in TESTS]
        o['same'] = proj.full(lgr) == before
        o['disps'] = [real.s(a.disp) for a in lgr.actions]
        lists = [list(c.references) for c in lgr.repertoire] + [list(v.references) for c in lgr.repertoire for v in c.get_variants()]
        o['reflists'] = [[int(x) if re.match(r'\d+$', x) else -1 for x in l] for l in lists]
        o['samever'] = bool(case['db']) and case['ver'] == '15.1.0'
        if case['rfc']:
            from lgr.validate.miscellaneous import check_miscellaneous
            o['misc'] = bool(check_miscellaneous(lgr, {})[0])
        key = lambda r: [(n, report(x) if n == 'rebuild_lgr' else (sorted(x) if isinstance(x, dict) else type(x).__name__)) for n, x in r]
        res2 = lgr.validate(opts)
        o['names2'] = [n for n, _ in res2]
        o['again'] = key(res) == key(res2)
        d = dict(res)
        from lgr.exceptions import LGRException
        from lgr.validate.symmetry import check_symmetry
        from lgr.validate.transitivity import check_transitivity
        from lgr.validate.conditional_variants import check_conditional_variants
        from lgr.validate.lgr_stats import compute_stats

        def agrees(f, show=repr):
            try:
                return show(d[f.__name__]) == show(f(lgr, opts)[1])
            except LGRException as e:   # a check that cannot be completed is reported as such
                return type(d[f.__name__]) is type(e)
        o['agree'] = [f.__name__ for f in (check_symmetry, check_transitivity, check_conditional_variants, compute_stats) if not agrees(f)] == [] \
            and agrees(rebuild_lgr, report)
        return o
    except Exception as e:
        if __import__('os').environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        return dict(exc=common.exc_name(e))


def model_cases(ctx):
    out = common.model_phase(ctx, 'MC_Validate', 'SPECIFICATION Spec\nINVARIANT Monotone\nINVARIANT Quiet\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
                             workers=1)
    return [dict(kind='rebuild', chars=[x['c']], langs=['en'] if x['o']['scripts'] else [], opt=x['o'], db=True, ver='15.1.0', optver='')
            for x in common.printed_cases(out)]


def run(ctx):
    common.trace_phase(ctx, 'c29', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c29', SPEC, order_cases(ctx) + cases(ctx))
