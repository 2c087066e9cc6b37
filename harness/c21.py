"""C21 metadata."""
import datetime, json, os
import common

SPEC = 'T_C21'
LANGS = ['en', 'fr', 'de', 'ru', 'el', 'ar', 'he', 'ja', 'ko', 'hy', 'und', 'sr', 'zh', 'uz', 'pa', 'pl']
SCRIPTS = ['Latn', 'Cyrl', 'Grek', 'Arab', 'Hebr', 'Hans', 'Hant', 'Hani', 'Jpan', 'Kore', 'Hrkt', 'Geor', 'Geok', 'Latf', 'Syre', 'Aran', 'Deva',
           'Armn', 'Guru']
SUPPRESS = dict(en='Latn', fr='Latn', de='Latn', ru='Cyrl', el='Grek', ar='Arab', he='Hebr', ja='Jpan', ko='Kore', hy='Armn', pa='Guru', pl='Latn')
REGIONS = ['GB', 'FR', 'RU', '419']
BADTAGS = ['', 'english-', 'e', 'qq1', 'fr_FR', 'é', 'en-Xyzq', 'en-GB-FR', '12', 'en GB', 'xx-yy-zz']


def codes(s):
    return [ord(c) for c in s]


def tag(lang, script='', region=''):
    return dict(raw='-'.join(x for x in (lang, script, region) if x), lang=lang, script=script, region=region, junk='')


def rand_tag(rng):
    if rng.random() < .2:
        return dict(raw=rng.choice(BADTAGS), lang='', script='', region='', junk='bad')
    lang = rng.choice(LANGS)
    sc = rng.choice(SCRIPTS) if rng.random() < .5 else ''
    if sc == SUPPRESS.get(lang):
        sc = ''
    return tag(lang, sc, rng.choice(REGIONS) if rng.random() < .3 else '')


def rand_date(rng, today):
    r = rng.random()
    if r < .35:
        return (today + datetime.timedelta(days=rng.choice([-400, -31, -1, -1, 0, 0, 1, 1, 30, 366]))).isoformat()
    if r < .6:
        return '%04d-%02d-%02d' % (rng.choice([1, 999, 1900, 2000, 2023, 2024, 2100, 9999]), rng.choice([1, 2, 2, 4, 6, 12]), rng.choice([1, 28, 29, 30, 31]))
    if r < .8:
        return '%04d-%02d-%02d' % (rng.randint(1990, 2030), rng.randint(0, 13), rng.randint(0, 32))
    return rng.choice(['', '2015', '2015-01', '2015-1-1', '2015-01-01T00:00', '01-01-2015', '2015/01/01', '2015-01-01 ', ' 2015-01-01', '20150101',
                       '2015-001-01', '-2015-01-01', '2015-01-01-', 'abcd-ef-gh', '2015-0a-01', '2015-01--1', '+015-01-01', '12015-01-01', '2015-1-01',
                       '2_15-01-01', '2015-01-1', '015-01-01', '2015-01-01\n', '2015-01-+1'])


UVERS = ['6.3.0', '15.1.0', '1.2.3', '10.0.0', '123.45.678', '6.3', '6', '', '6.3.0.1', '6.3.0a', 'a6.3.0', '6.3.0 ', ' 6.3.0', '6..0', '.3.0', '6.3.',
         '6,3,0', '6.3.0\n', '6.x.0', '6.3.0-beta', '6.3.-1', '٦.٣.x']


def rand_op(rng, today):
    r = rng.random()
    f = rng.random() < .2
    if r < .3:
        d = codes(rand_date(rng, today))
        return dict(op=rng.choice(['date', 'vstart', 'vstart', 'vend', 'vend']), txt=d, force=f and d != [])
    if r < .42:
        return dict(op='uver', txt=codes(rng.choice(UVERS)), force=f)
    if r < .57:
        return dict(op='addlang', tag=rand_tag(rng), force=f)
    if r < .68:
        tags = []
        for _ in range(rng.randint(0, 4)):
            t = rand_tag(rng)
            tags.append(t if t['junk'] == '' or rng.random() < .5 else tag(rng.choice(LANGS)))
        return dict(op='setlangs', tags=tags, force=f)
    if r < .74:
        return dict(op='scope', type=rng.choice(['domain', 'domain', '', 'Domain', 'other', 'http://a.b']))
    if r < .82:
        return dict(op='version', txt=codes(rng.choice(['1', '42', '10', '', '0', '01', '-1', '1.0', 'x', '1 ', '99999999999', 'v1', '1a'])),
                    none=rng.random() < .5)
    if r < .87:
        return dict(op='desc', type=rng.choice(['text/plain', 'text/html', '', 'application/pdf', 'image/png', 'text/css', 'text', 'text/unknown-zz', 'html',
                                                'TEXT']))
    return dict(op='check')


def model_cases(ctx):
    t = lambda a, s='': tag(a, s)
    bad = dict(raw='fr_FR', lang='', script='', region='', junk='bad')
    d0, d1 = codes('2024-02-29'), codes('2999-12-31')
    ops = [dict(op='vstart', txt=d0, force=False), dict(op='vstart', txt=d1, force=False), dict(op='vend', txt=d0, force=False),
           dict(op='vend', txt=codes('2023-02-29'), force=False), dict(op='addlang', tag=t('en'), force=False),
           dict(op='addlang', tag=t('und', 'Hans'), force=False), dict(op='addlang', tag=bad, force=True), dict(op='setlangs', tags=[t('ja'), bad], force=False),
           dict(op='setlangs', tags=[t('el')], force=False), dict(op='uver', txt=codes('6.3.0x'), force=False), dict(op='check'),
           dict(op='version', txt=codes('0'), none=False)]
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(ops=ops), f)
    out = common.model_phase(ctx, 'MC_Meta', 'SPECIFICATION Spec\nINVARIANT OnlyValid\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
                             env=dict(PAR=par, N=str(ctx.scale(3, 4))), workers=1)
    return [dict(h=[ops[k - 1] for k in h], via=n % 2) for n, h in enumerate(common.printed_cases(out))]


def cases(ctx):
    rng = ctx.rng
    today = datetime.date.today()
    out = []
    for n in range(ctx.scale(1500, 12000)):
        out.append(dict(h=[rand_op(rng, today) for _ in range(rng.randint(1, 12))], via=rng.randint(0, 1)))
    return out


def apply(lgr, e):
    from lgr.metadata import Version, Scope, Description
    from lgr.validate.metadata import check_metadata
    m = lgr.metadata
    s = lambda x: ''.join(map(chr, x))
    op = e['op']
    if op == 'date':
        m.set_date(s(e['txt']), force=e['force'])
    elif op == 'vstart':
        m.set_validity_start(s(e['txt']), force=e['force'])
    elif op == 'vend':
        m.set_validity_end(s(e['txt']), force=e['force'])
    elif op == 'uver':
        m.set_unicode_version(s(e['txt']), force=e['force'])
    elif op == 'addlang':
        m.add_language(e['tag']['raw'], force=e['force'])
    elif op == 'setlangs':
        m.set_languages((t['raw'] for t in e['tags']), force=e['force'])
    elif op == 'scope':
        m.scopes.append(Scope('x', e['type'] or None))
    elif op == 'version':
        m.version = Version(s(e['txt']) if e['txt'] or not e['none'] else None)
    elif op == 'desc':
        m.description = Description('text', e['type'] or None)
    else:
        ok, rep = check_metadata(lgr, {})
        return bool(ok)
    return True


def observe(case):
    from lgr.core import LGR
    t0 = datetime.date.today()
    lgr = LGR()
    m = lgr.metadata
    res = []
    c = lambda x: [] if x is None else codes(x)
    for e in case['h']:
        exc, ok = '', True
        try:
            ok = apply(lgr, e)
        except Exception as x:
            exc = common.exc_name(x)
        res.append(dict(exc=exc, ok=ok, scripts=[str(x) for x in m.get_scripts()], scripts2=[str(x) for x in m.get_scripts()],
                        ran=sorted(m.rfc7940_checks.test_result),
                        failed=sorted(t for t, r in m.rfc7940_checks.test_result.items() if not r),
                        m=dict(date=c(m.date), vstart=c(m.validity_start), vend=c(m.validity_end), uver=c(m.unicode_version), langs=list(m.languages),
                               scopes=[s.scope_type or '' for s in m.scopes], version=c(m.version.value) if m.version else [],
                               desc=(m.description.description_type or '') if m.description else '')))
    if datetime.date.today() != t0:
        return observe(case)
    return dict(exc='', res=res, today=codes(t0.isoformat()))


def run(ctx):
    common.trace_phase(ctx, 'c21', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c21', SPEC, cases(ctx))
