"""C19: importing legacy table formats."""
import contextlib, importlib.util, io, json, os, sys, tempfile
import common

SPEC = 'T_C19'
LINE = dict(k='none', id='', value='', com='', date='', dateok=True, cp=[], refs=[], pref=[], vars=[])
CPS = [0x61, 0x62, 0x63, 0x4E00, 0x4E01, 0x4E02, 0xABCD, 0x20000, 0x10FFFF, 0xE9]
WORDS = ['Unicode 3.2', 'GB2312', 'RFC 20 (USASCII)', 'a;b', 'x', 'Version 1 20010101', 'Set of 4E00']
JUNK = ['zz', 'A text line', '; 4E00', '(1)', 'U+', 'U+61', '61', 'U-0061', 'xyz;4E00;4E01', '-', '|U+0061', 'Reference', 'Version x']


def mk(k, **a):
    return dict(LINE, k=k, **a)


# ------------------------------------------------------------------ writing a line
def hx(rng, c, u):
    s = '%04X' % c if rng.random() < .7 else '%04x' % c
    if rng.random() < .1 and len(s) < 6:
        s = s.zfill(6)
    return ('U+' if u else '') + s


def elem(rng, e, u, refs=True):
    s = ' '.join(hx(rng, c, u) for c in e['cp'])
    return s + ('(%s)' % ','.join(e['refs']) if e['refs'] and refs else '')


def comment(rng):
    return rng.choice(['', '', '', '# x', '  # U+0061 LATIN', '\t#4E00;4E01', ' # a | b : c', '#', '#|U+0062', '#see|U+4E00:U+0061-U+0062', '#;4E00(1);4E01', '#U+0061 # x'])


def w3743(rng, l, pure=False):
    u = rng.random() < .5
    gap = lambda: '' if rng.random() < .8 else ' '
    if l['k'] == 'ref':
        return 'Reference%s%s%s%s' % (rng.choice([' ', '  ', '\t']), l['id'], rng.choice([' ', '  ']), l['value']) + \
            (rng.choice([' # ', '  #', '# ']) + l['com'] if l['com'] else '')
    if l['k'] == 'version':
        return 'Version %s %s' % (l['id'], l['raw']) + (rng.choice([' # ', '#', '   #']) + l['com'] if l['com'] else '')
    s = elem(rng, l, u)
    fields = [(gap() + ',' + gap()).join(elem(rng, v, u if rng.random() < .9 else not u) for v in f) for f in (l['pref'], l['vars'])]
    while fields and not fields[-1] and (len(fields) == 2 or not u) and rng.random() < .4:
        fields.pop()
    return s + ''.join(gap() + ';' + gap() + f for f in fields) + comment(rng)


def w4290(rng, l):
    s = '-'.join(hx(rng, c, True) for c in l['cp'])
    if l['vars'] or rng.random() < .3:
        s += '|' + ':'.join('-'.join(hx(rng, c, True) for c in v['cp']) for v in l['vars'])
    return s + comment(rng)


def wline(rng, l):
    return rng.choice([' ', '', ', ', '\t']).join(hx(rng, c, True) for c in l['cp']) + comment(rng) if rng.random() < .9 else \
        ' '.join(hx(rng, c, True) for c in l['cp']) + rng.choice([' some words', '; x', ' (a)'])


def bad(rng, fmt):
    """A malformed line."""
    c, d = hx(rng, rng.choice(CPS), True), hx(rng, rng.choice(CPS), True)
    if fmt == '3743':
        return rng.choice(JUNK[:11] + ['%s,%s;%s;%s' % (c, d, c, d), '%s(1),%s(2);%s;%s' % (c, d, c, d), '110000;%s;%s' % (c, d), 'U+110000(1);;' + c,
                                       'FFFFFF;%s;' % d, 'Reference x y', 'Version 1', 'Version 1 2012'])
    if fmt == '4290':
        return rng.choice(JUNK + ['%s-x|%s' % (c, d), '%s-|%s' % (c, d), '%s-zz-%s|%s:%s' % (c, d, c, d), 'U+110000|%s' % c, 'U+0061-U+110000|' + c])
    return rng.choice([j for j in JUNK if 'U+0061' not in j] + ['U+110000', 'U+0061 U+110000', 'text'])


def blank(rng):
    return rng.choice(['', '  ', '\t', '# comment', '#', '#U+0061', '# 4E00;4E01;', '  # U+0061|U+0062', '#Reference 1 x'])


def write(rng, ls, fmt):
    out = []
    for l in ls:
        if l['k'] == 'none':
            s = blank(rng) if l.get('blank') else bad(rng, fmt)
        else:
            s = dict([('3743', w3743), ('4290', w4290), ('line', wline)])[fmt](rng, l)
        if rng.random() < .1:
            s = rng.choice([' ', '\t']) + s + rng.choice(['', ' '])
        out.append(s)
    return out


# ------------------------------------------------------------------ abstract lines
def seq(rng, pool, p=.25):
    return [rng.choice(pool) for _ in range(rng.randint(2, 3) if rng.random() < p else 1)]


def date(rng):
    y, m, d = rng.randint(1999, 2026), rng.randint(1, 12), rng.randint(1, 28)
    ok = rng.random() < .85
    if not ok:
        m, d = rng.choice([(13, 1), (0, 10), (2, 31), (4, 31), (10, 0)])
    return dict(raw='%04d%02d%02d' % (y, m, d), date='%04d-%02d-%02d' % (y, m, d), dateok=ok)


def rand_line(rng, fmt, pool, ids, force):
    r = rng.random()
    if r < .1:
        return mk('none', blank=True)
    if r < .22:
        return mk('none')
    if fmt == '3743' and r < .35:
        return mk('ref', id=rng.choice(ids), value=rng.choice(WORDS), com=rng.choice(['', '', 'c', 'see U+0061', 'a # b']))
    if fmt == '3743' and r < .4:
        d = date(rng)
        if force and not d['dateok']:
            d = dict(raw='20120704', date='2012-07-04', dateok=True)
        return mk('version', id=rng.choice(['1', '2', '10', '07']), com=rng.choice(['', 'April 12, 2013', 'x']), **d)
    refs = lambda: rng.sample(ids, rng.randint(1, min(2, len(ids)))) if fmt == '3743' and rng.random() < .4 else []
    vs = lambda n: [dict(cp=seq(rng, pool, .3), refs=refs()) for _ in range(rng.randint(0, n))] if fmt != 'line' else []
    return mk('entry', cp=seq(rng, pool, .2), refs=refs(), pref=vs(2) if fmt == '3743' else [], vars=vs(3))


ROUTES = {'3743': ['path', 'text', 'hpath', 'htext', 'hbytes', 'tool'], '4290': ['path', 'text', 'hpath', 'htext', 'hbytes', 'tool'],
          'line': ['path', 'text', 'tool']}


def finish(rng, fmt, ls, force, route=None):
    route = route or rng.choice(ROUTES[fmt])
    if route == 'tool':   # always lenient
        if not all(l['dateok'] for l in ls):
            route = 'path'
        else:
            force = True
    text = write(rng, ls, fmt)
    format = ''
    if route[0] == 'h':
        told = {'3743': lambda t: ';' in t or not t.startswith('U+'), '4290': lambda t: '|' in t}[fmt]
        if not any(l['k'] == 'entry' and told(t.split('#')[0].strip()) for l, t in zip(ls, text)):
            route = rng.choice(['path', 'text'])
        else:
            format = {'3743': 'RFC3743Parser', '4290': 'RFC4290Parser'}[fmt]
    nl = '\n' if 'text' in route else rng.choice(['\n', '\n', '\r\n', '\r'])
    ls = [{k: l[k] for k in LINE} for l in ls]
    # the plain list says nothing of force: refusals are the same
    return dict(fmt=fmt, ls=ls, force=force, route=route, text=text, nl=nl, bom='text' not in route and rng.random() < .2, last=rng.random() < .8,
                format=format, crlf=rng.random() < .2)


def one(rng):
    fmt = rng.choice(['3743', '3743', '3743', '4290', '4290', 'line'])
    force = rng.random() < .5
    pool = rng.sample(CPS, rng.randint(2, 5))
    ids = rng.sample(['0', '1', '2', '7', '10', '12', '123'], rng.randint(1, 4))
    n = rng.randint(1, 9)
    ls = [rand_line(rng, fmt, pool, ids, force) for _ in range(n)]
    if fmt == '3743' and rng.random() < .6:
        ls = [mk('ref', id=i, value=rng.choice(WORDS)) for i in ids if rng.random() < .8] + ls
    return finish(rng, fmt, ls, force)


def model(ctx, fmt, size, emit, count=None):
    v = lambda cp, *r: dict(cp=cp, refs=list(r) if fmt == '3743' else [])
    lines = [mk('none', blank=True), mk('none'), mk('entry', cp=[0x61]), mk('entry', cp=[0x61], vars=[v([0x62], '1')]),
             mk('entry', cp=[0x61], vars=[v([0x62]), v([0x63], '2')]), mk('entry', cp=[0x62], vars=[v([0x61, 0x62])]), mk('entry', cp=[0x61, 0x62], vars=[v([0x62])])]
    if fmt == '3743':
        lines += [mk('ref', id='1', value='a'), mk('ref', id='2', value='b', com='c'), mk('ref', id='1', value='c'),
                  mk('entry', cp=[0x62], refs=['1'], pref=[v([0x61], '1')], vars=[v([0x61])]), mk('entry', cp=[0x63], refs=['2', '1'], pref=[v([0x61], '2')])]
    if fmt == 'line':
        for l in lines:
            l['vars'] = l['pref'] = []
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(lines=[{k: l[k] for k in LINE} for l in lines], size=size, emit=emit), f)
    out = common.model_phase(ctx, 'MC_Import', 'SPECIFICATION Spec\nINVARIANT WF\nINVARIANT Leakless\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
                             env=dict(PAR=par), workers=1 if emit else common.NPROC)
    rng = ctx.rng
    cs = list(common.printed_cases(out))
    return [finish(rng, fmt, [lines[k - 1] for k in m['ks']], rng.random() < .5) for m in (rng.sample(cs, count) if count and count < len(cs) else cs)]


def cases(ctx):
    rng = ctx.rng
    out = model(ctx, '3743', 3, True, ctx.scale(1000, None)) + model(ctx, '4290', 3, True) + model(ctx, 'line', 3, True, ctx.scale(150, None))
    if ctx.thorough:
        out += model(ctx, '3743', 4, True, 12000)
        model(ctx, '3743', 5, False)
    return out + [one(rng) for _ in range(ctx.scale(3000, 30000))]


# ------------------------------------------------------------------ the real parsers
def load(case, path, data):
    from lgr.parser.heuristic_parser import HeuristicParser
    from lgr.parser.line_parser import LineParser
    from lgr.parser.rfc3743_parser import RFC3743Parser
    from lgr.parser.rfc4290_parser import RFC4290Parser
    cls = {'3743': RFC3743Parser, '4290': RFC4290Parser, 'line': LineParser}[case['fmt']]
    r = case['route']
    if r == 'tool':
        from lgr.parser.xml_parser import XMLParser
        name = {'3743': 'rfc3743_dump', '4290': 'rfc4290_dump', 'line': 'one_per_line_dump'}[case['fmt']]
        spec = importlib.util.spec_from_file_location(name, os.path.join(common.REPO, 'tools', name + '.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        argv, out = sys.argv, path + '.xml'
        stdout = io.StringIO()
        try:
            sys.argv = [name] + (['-o', out] if case['last'] else []) + ['-q', path]
            with contextlib.redirect_stdout(stdout):
                mod.main()
        finally:
            sys.argv = argv
        src = open(out, 'rb') if case['last'] else io.BytesIO(stdout.getvalue().encode('utf-8'))
        p = XMLParser(src, 'x')
        return p, p.parse_document()
    if r[0] == 'h':
        cls, r = HeuristicParser, r[1:]
    src = path if r == 'path' else io.StringIO(data.decode('utf-8')) if r == 'text' else io.BytesIO(data)
    p = cls(src, filename='' if r == 'path' and case['crlf'] else 'table.txt', force=case['force'])
    lgr = p.parse_document()
    return getattr(p, 'lgr_parser', p), lgr


def observe(case):
    import edits, real
    data = case['nl'].join(case['text']) + (case['nl'] if case['last'] else '')
    data = data.encode('utf-8')
    if case['bom']:
        data = b'\xef\xbb\xbf' + data
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'table.txt')
        with open(path, 'wb') as f:
            f.write(data)
        try:
            p, lgr = load(case, path, data)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            return dict(exc=common.exc_name(e))
    o = edits.project(lgr, [])
    m = lgr.metadata
    S = real.s
    more = len(lgr.rules) + len(lgr.classes) + len([a for a in lgr.actions]) + len(m.languages) + len(m.scopes) + (m.description is not None) \
        + (m.validity_start is not None) + (m.validity_end is not None)
    return dict(exc='', chars=o['chars'], refs=o['refs'], version=S(m.version.value if m.version else ''), vcom=S(m.version.comment if m.version else ''),
                date=S(m.date), parser=type(p).__name__, more=more)


def run(ctx):
    common.trace_phase(ctx, 'c19', SPEC, cases(ctx), sig=lambda c, o, cl: c['fmt'] + ':' + ','.join(cl))
    ctx.notes['cases'] = 'RFC 3743, RFC 4290 and plain lists, read from paths, text and bytes, directly, by format detection and by the dump tools'
