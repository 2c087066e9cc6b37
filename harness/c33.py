"""C33 reading XML documents, strictly and leniently."""
import io, json, os, re
from xml.sax.saxutils import escape, quoteattr
import common, edits
from edits import mk

SPEC = 'T_C33'
TESTS = ['parse_xml', 'codepoint_valid', 'metadata_language', 'valid_unicode_version', 'explicit_unicode_version', 'char_ascending_order',
         'char_strict_ascending_order']
# code points around places IDNA 2008 refuses
ALPHAS = [(range(0x5d, 0x66), [0x5d, 0x5e, 0x5f, 0x60]), (range(0x76, 0x7f), list(range(0x7b, 0x90))),
          (range(0xdc, 0xe4), [0xdc, 0xdd, 0xde]), (range(0x3b1, 0x3b8), []), (range(0x61, 0x6a), [])]
DATES = [('2020-02-29', 'yes'), ('2001-12-31', 'yes'), ('2021-02-29', 'no'), ('20200101', 'no'), ('2020-1-1', 'no')]
LANGS = [('en', 'yes'), ('und-Latn', 'yes'), ('fr-CA', 'yes'), ('und-Hebr', 'yes'), ('en_US', 'no'), ('e', 'no'), ('fran\u00e7ais', 'no')]
UVERS = [('6.3.0', 'yes'), ('15.1.0', 'yes'), ('6.3', 'no'), ('15.1.0a', 'no'), ('x', 'no')]
OTHER = ['<odd/>', '<odd xmlns="urn:x">y</odd>']


def rand_doc(rng):
    alpha, inv = rng.choice(ALPHAS)
    bad = rng.choice([0, 0, .15, .4])
    g = edits.Gen(rng, list(alpha), dict(add_cp=5, add_range=2), inv=inv)
    meta = []
    pick = lambda l: rng.choice([x for x in l if x[1] == 'yes' or rng.random() < bad] or l[:1])
    for i in rng.sample(['0', '1', '2', 'A-1', '10'], rng.randint(0, 4)):
        meta.append(dict(k='ref', ok='yes', op=mk('add_ref', id=i, value=rng.choice(['v', 'w']), com=rng.choice(['', 'c'])), txt=''))
        g.ids.append(i)
    if rng.random() < bad / 4 and meta:
        i, ok = rng.choice([(meta[0]['op']['id'], True), ('x y', False), ('abc', False)])
        meta.append(dict(k='ref', ok='yes', op=mk('add_ref', id=i, idok=ok, value='z'), txt=''))
    head = []
    for k, menu, p in (('date', DATES, .4), ('uver', UVERS, .6), ('lang', LANGS, .6), ('lang', LANGS, .4), ('lang', LANGS, .2)):
        if rng.random() < p:
            t, ok = pick(menu)
            if ok == 'never' and rng.random() < .7:
                continue
            head.append(dict(k=k, ok=ok, op=mk(''), txt=t))
    if rng.random() < bad / 3:
        head.append(dict(k='other', ok='yes', op=mk(''), txt=rng.choice(OTHER)))
    rng.shuffle(head)
    meta = head + meta if rng.random() < .8 else meta + head
    els, seen = [], set()
    for _ in range(rng.randint(1, 7)):
        d = g.op()
        if not d['cp'] and d['op'] == 'add_cp':
            continue
        clean(rng, g, d, bad, inv, seen)
        if d['op'] == 'add_range' and d['first'] > d['last']:
            d['last'] = d['first']
        seen |= {tuple(d['cp'])} if d['cp'] else {(c,) for c in range(d['first'], d['last'] + 1)}
        els.append(d)
        if d['op'] == 'add_cp':
            vs = []
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                v = g.common(mk('add_variant', cp=d['cp'], var=g.cp(.5) or [alpha[0]], type=rng.choice(['', 'blocked', 'x'])), tags=False)
                clean(rng, g, v, bad, inv, set())
                if rng.random() > bad and any((v['var'], v['when'], v['nwhen']) == (w['var'], w['when'], w['nwhen']) for w in vs):
                    continue
                vs.append(v)
            els += vs
    if rng.random() < .5:
        els = in_order(els)
    return dict(meta=meta, els=els), list(alpha), inv


def clean(rng, g, d, bad, inv, seen):
    """Most elements of most documents are fine."""
    d['refs'] = list(dict.fromkeys(d['refs']))
    d['tags'] = list(dict.fromkeys(d['tags'])) if len(d['cp']) <= 1 else []
    if d['op'] == 'add_variant':
        d['tags'] = []
    if rng.random() < bad:
        return
    d['refs'] = [i for i in d['refs'] if i in g.ids]
    if d['when'] and d['nwhen']:
        d['nwhen'] = ''
    ok = [c for c in g.alpha if c not in inv]
    for k in ('cp', 'var'):
        if d['op'] == 'add_variant' and k == 'cp':
            continue
        if any(c in inv for c in d[k]):
            d[k][:] = [rng.choice(ok) for _ in d[k]]
    if d['op'] == 'add_cp' and tuple(d['cp']) in seen:
        d['cp'][:] = d['cp'] + [rng.choice(ok) for _ in range(2)]
        d['tags'] = []
    if d['op'] == 'add_range':
        while d['first'] <= d['last'] and (d['last'] in inv or (d['last'],) in seen or d['first'] in inv or (d['first'],) in seen):
            if d['last'] in inv or (d['last'],) in seen:
                d['last'] -= 1
            else:
                d['first'] += 1


def in_order(els):
    groups = []
    for d in els:
        if d['op'] == 'add_variant':
            groups[-1].append(d)
        else:
            groups.append([d])
    groups.sort(key=lambda g: g[0]['cp'] or [g[0]['first']])
    return [d for g in groups for d in g]


def case_of(rng, doc, alpha, inv):
    els = doc['els']
    probes = sorted({(rng.choice(alpha),) for _ in range(3)} | {tuple(d['cp']) for d in els if d['cp']} | {(d['first'],) for d in els if d['first']})
    probes = rng.sample(probes, min(6, len(probes)))
    return dict(doc_=doc, inv=list(inv), strict=rng.random() < .85, lenient=rng.random() < .6, probes=[list(p) for p in sorted(probes)],
                via=rng.choice(['bytes', 'bytes', 'path']), ask=rng.random() < .5, pad=rng.random() < .4, wle=rng.random() < .3, guess=rng.random() < .2)


def cases(ctx):
    rng = ctx.rng
    return [case_of(rng, *rand_doc(rng)) for _ in range(ctx.scale(2500, 40000))]


def hexs(cps):
    return ' '.join('%04X' % c for c in cps)


def attrs(d):
    a = ''
    for k, n in (('when', 'when'), ('nwhen', 'not-when'), ('com', 'comment')):
        if d[k]:
            a += ' %s=%s' % (n, quoteattr(d[k]))
    if d['tags']:
        a += ' tag="%s"' % ' '.join(d['tags'])
    if d['refs']:
        a += ' ref="%s"' % ' '.join(d['refs'])
    return a


def to_xml(case):
    doc, m, refs = case['doc_'], '', ''
    name = dict(date='date', lang='language', uver='unicode-version')
    flush = lambda: '<references>%s</references>' % refs if refs else ''
    for x in doc['meta']:
        if x['k'] == 'ref':
            o = x['op']
            refs += '<reference id=%s%s>%s</reference>' % (quoteattr(o['id']), ' comment=%s' % quoteattr(o['com']) if o['com'] else '', escape(o['value']))
            continue
        m += flush()
        refs = ''
        m += x['txt'] if x['k'] == 'other' else '<%s>%s</%s>' % (name[x['k']], escape(x['txt']), name[x['k']])
    m += flush()
    pad = '\n  ' if case['pad'] else ''
    data, opened = '', False
    for d in doc['els']:
        if d['op'] == 'add_variant':
            data += '<var cp="%s"%s%s/>' % (hexs(d['var']), attrs(d), ' type=%s' % quoteattr(d['type']) if d['type'] else '')
            continue
        if opened:
            data += '</char>' + pad
        opened = d['op'] == 'add_cp'
        if opened:
            data += '<char cp="%s"%s>' % (hexs(d['cp']), attrs(d)) + pad
        else:
            data += '<range first-cp="%04X" last-cp="%04X"%s/>' % (d['first'], d['last'], attrs(d)) + pad + ('<!-- r -->' if pad else '')
    if opened:
        data += '</char>'
    rules = ('<rules><rule name="w0"><start/></rule><rule name="w1"><end/></rule></rules>' if case['wle'] else '')
    return '<?xml version="1.0" encoding="utf-8"?>%s<lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0">%s<data>%s</data>%s</lgr>' % (
        pad, '<meta>%s</meta>' % m if m else '', data, rules)


def observe(case):
    import real, tempfile
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.xml_parser import XMLParser
    from lgr.metadata import Metadata
    xml = to_xml(case).encode('utf-8')
    path = None
    if case['via'] == 'path':
        fd, path = tempfile.mkstemp(suffix='.xml', prefix='vp-c33-')
        os.write(fd, xml)
        os.close(fd)

    def read():
        p = (HeuristicParser if case['guess'] else XMLParser)(path or io.BytesIO(xml), 'the name', force=case['lenient'], allow_invalid_property=not case['strict'])
        p.unicode_database = common.unidb()
        asked = p.unicode_version() if case['ask'] else None
        return p.parse_document(), asked
    try:
        try:
            lgr, asked = read()
        except Exception as e:
            return dict(exc='', x=common.exc_name(e))
        p = edits.project(lgr, case['probes'])
        m = lgr.metadata
        st = lambda t: dict(PASS='pass', WARN='fail').get(lgr.get_rfc7940_validation({t: 'WARNING'}), 'notrun')
        again, _ = read()
        return dict(exc='', x='', p=p, rec=[[t, st(t)] for t in TESTS], same=edits.project(again, case['probes']) == p,
                    m=dict(date=real.s(m.date), uver=real.s(m.unicode_version), langs=list(m.languages), dfltver=real.s(Metadata().unicode_version),
                           asked=real.s(asked if case['ask'] else m.unicode_version), name=lgr.name == 'the name'))
    finally:
        if path:
            os.unlink(path)


def menu():
    return [mk('add_cp', cp=[97], tags=['t1']), mk('add_cp', cp=[97, 98], com='s'), mk('add_cp', cp=[96]), mk('add_cp', cp=[98], refs=['0', '9']),
            mk('add_cp', cp=[99], when='w0', nwhen='w1'), mk('add_range', first=97, last=99), mk('add_range', first=95, last=98, refs=['0']),
            mk('add_range', first=99, last=100, when='w0', nwhen='w1'),
            mk('add_variant', var=[98], type='blocked'), mk('add_variant', var=[98], when='w0'), mk('add_variant', var=[96]),
            mk('add_variant', var=[97, 98], refs=['9'])]


def model_cases(ctx):
    m, n = [], 0
    # a variant needs an entry before it
    for d in menu():
        if d['op'] == 'add_variant':
            for c in ([97], [98]):
                m.append([mk('add_cp', cp=c), dict(d, cp=c)])
        else:
            m.append([d])
    par = os.path.join(ctx.tmp, 'par.json')
    meta = [dict(k='ref', ok='yes', op=mk('add_ref', id='0', value='v'), txt='')]
    with open(par, 'w') as f:
        json.dump(dict(menu=m, meta=meta, len=ctx.scale(3, 4), inv=[95, 96]), f)
    out = common.model_phase(ctx, 'MC_Reading', 'SPECIFICATION Spec\nINVARIANT Sound\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par),
                             workers=1)
    docs = common.printed_cases(out)
    if len(docs) > ctx.scale(1800, 12000):
        docs = ctx.rng.sample(docs, ctx.scale(1800, 12000))
    cs = []
    for n, els in enumerate(docs):
        for lenient in (False, True):
            cs.append(dict(doc_=dict(meta=meta, els=[d for g in els for d in g]), inv=[95, 96], strict=True, lenient=lenient,
                           probes=[[96], [97], [98], [97, 98]], via='bytes', ask=n % 3 == 0, pad=n % 2 == 0, wle=n % 5 == 0, guess=n % 7 == 0))
    return cs


def run(ctx):
    common.trace_phase(ctx, 'c33', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c33', SPEC, cases(ctx))
