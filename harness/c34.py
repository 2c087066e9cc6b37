"""C34: sessions of the commands that read LGRs and write LGRs or reports."""
import copy, datetime, hashlib, io, json, os, re, sys, tempfile, types
import common, docs, gen, pairs, vrel, c15, c17, c19

SPEC = 'T_C34'
TOOL = dict(dump='xml_dump', populate='lgr_populate_variants', union='lgr_compare', inter='lgr_compare', diff='lgr_compare', merge='lgr_merge_set',
            harm='lgr_harmonize', check='rfc7940_validate')
DUMPS = {'3743': 'rfc3743_dump', '4290': 'rfc4290_dump', 'line': 'one_per_line_dump'}
TAKES_LIBS = {'populate': True, 'harm': True, 'check': True, 'merge': None}   # required, or not known
BAD = ['', 'not xml', '<lgr', '<?xml version="1.0"?><lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta></lgr>', '<x/>']


def cmd(op, ins, second=(), out='', opt=False, full=False, rng=False, libs=False, z=False, name=''):
    return dict(op=op, ins=list(ins), second=list(second), out=out, opt=opt, full=full, rng=rng, libs=libs or bool(TAKES_LIBS.get(op)), dir='h', name=name)


# ------------------------------------------------------------------ documents
def from_vrel(rng, chars):
    """A document holding such entries; every rule they name is defined."""
    up = lambda cp: [x + 0x25 if 0x50 <= x <= 0x52 else x for x in cp]    # the tools load only what IDNA allows
    chars = [dict(c, cp=up(c['cp']), rng=up(c['rng']), vars=[dict(v, cp=up(v['cp'])) for v in c['vars']]) for c in chars]
    items, done = [], set()
    for c in chars:
        b = dict(when=c['when'], nwhen=c['nwhen'], tags=list(c['tags']), refs=list(c['refs']), comment=c['com'])
        if c['rng']:
            if tuple(c['rng']) not in done:
                done.add(tuple(c['rng']))
                items.append(dict(b, k='range', first=c['rng'][0], last=c['rng'][1]))
        else:
            items.append(dict(b, k='char', cp=list(c['cp']), vars=[dict(cp=v['cp'], when=v['when'], nwhen=v['nwhen'], type=v['type'], refs=list(v['refs']), comment=v['com'])
                                                                   for v in c['vars']]))
    names = sorted({v[f] for c in chars for v in c['vars'] + [c] for f in ('when', 'nwhen')} - {''})
    decls = [dict(k='rule', name=n, kids=[dict(t='anchor', **gen.ONE)], refs=[], comment='') for n in names]
    if rng.random() < .3:
        decls.append(dict(gen.rand_action(rng, names), refs=[], comment=''))
    return dict(items=items, decls=decls, alpha=[0x61, 0x62])


def vdoc(rng, **k):
    d = from_vrel(rng, vrel.rand(rng, **k))
    docs.rich(rng, dict(items=[], decls=[]))
    m = docs.rich(rng, dict(items=[], decls=[]), pairs.WORDS)['meta']
    m['refs'] = [dict(id=i, value='ref ' + i, comment='') for i in ('0', '1')]
    d['meta'] = m
    return d


def scripts(rng, ds):
    for d, l in zip(ds, rng.sample(c17.LANGS[:6], len(ds))):
        d['meta']['languages'] = [l] + [x for x in d['meta'].get('languages', []) if x not in c17.LANGS]


def rand_docs(rng):
    """Three LGRs related one way or another."""
    r = rng.random()
    if r < .35:
        ds = [vdoc(rng, ranges=rng.random() < .3, missing=rng.choice([.1, .3])) for _ in range(3)]
    elif r < .7:
        ds = c17.member_set(rng)
        ds = (ds + [copy.deepcopy(ds[0])])[:3]
    else:
        a, b = pairs.rand_pair(rng, pairs.WORDS if rng.random() < .7 else None)
        ds = [a, b, pairs.rand_pair(rng, pairs.WORDS)[0]]
    ds = json.loads(json.dumps(ds).replace('\\n', ' '))    # line breaks in comments cannot be read back from a report
    year = datetime.date.today().year
    for d in ds:
        d['meta'].setdefault('languages', ['en'])
        seen = set()
        for r in d['meta'].get('refs', []):      # a reference given twice is read as one
            while (r['value'], r.get('comment', '')) in seen:
                r['value'] += "'"
            seen.add((r['value'], r.get('comment', '')))
        for f in ('validity_start', 'validity_end'):
            if d['meta'].get(f) and rng.random() < .4:
                d['meta'][f] = '%d-06-15' % (year + rng.choice([-2, 2, 3]))
        if rng.random() < .5:
            d['meta']['unicode_version'] = rng.choice(['15.1.0', '6.3.0'])
        if rng.random() < .3:
            rng.shuffle(d['items'])
    scripts(rng, ds)
    return ds


def table(rng, fmt=None):
    while True:
        c = c19.one(rng)
        if any(cp in (0x10FFFF, 0xABCD) for l in c['ls'] for x in [l['cp']] + [y['cp'] for y in l['pref'] + l['vars']] for cp in x):
            continue                             # the tools load only what IDNA allows
        if (fmt is None or c['fmt'] == fmt) and all(l['dateok'] for l in c['ls']):
            return dict(fmt=c['fmt'], ls=c['ls'], text=c['nl'].join(c['text']) + c['nl'] * c['last'])


def rand_session(rng):
    ns = ['a.xml', 'b.xml', rng.choice(['c.lgr', 'c.lgr', 'd/a.xml', 'd/c.lgr'])]
    fs = [dict(n=n, k='lgr', doc=d) for n, d in zip(ns, rand_docs(rng))]
    if rng.random() < .3:
        fs.append(dict(n='t.txt', k='table', **table(rng)))
    if rng.random() < .15:
        fs.append(dict(n='x.xml', k='bad', text=rng.choice(BAD)))
    names = [f['n'] for f in fs if f['n'] != 't.txt']
    h = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        pick = lambda: rng.choice(names)
        op = rng.choice(['dump', 'populate', 'union', 'inter', 'diff', 'diff', 'merge', 'harm', 'harm', 'check'])
        if rng.random() < .5 and fs[-1]['k'] == 'table' or fs[-1]['n'] == 't.txt' and k == 0:
            op = 'import'
        out = rng.choice(['', 'o%d.xml' % k, 'o.xml'])
        flags = dict(rng=rng.random() < .25, libs=rng.random() < .3)
        opt = False
        if op == 'import':
            c = cmd(op, ['t.txt'], out=out, opt=bool(out) and rng.random() < .5)
        elif op == 'dump':
            c = cmd(op, [pick()], out=out, opt=bool(out) and rng.random() < .6, rng=flags['rng'])
        elif op in ('populate', 'check'):
            c = cmd(op, [pick()], out=out if op == 'populate' else '', rng=flags['rng'])
        elif op in ('union', 'inter'):
            one, two = rng.choice([(1, 1)] * 8 + [(2, 2), (1, 2), (2, 1)])
            c = cmd(op, [pick() for _ in range(one)], [pick() for _ in range(two)], out=out, rng=flags['rng'])
        elif op == 'diff':
            if rng.random() < .35:
                one = rng.sample(ns, 2)
                two = rng.sample(ns, rng.choice([2, 2, 3]))
                c = cmd(op, one, two, name=rng.choice(['', 'set']))
            else:
                c = cmd(op, [pick()], rng.choice([[pick()]] * 8 + [[pick(), pick()]]), full=rng.random() < .5, rng=flags['rng'])
        elif op == 'merge':
            n = rng.choice([1, 2, 2, 2, 3])
            c = cmd(op, rng.sample(ns, n), out=out, libs=flags['libs'], name=rng.choice(['', 'm']))
            if 'x.xml' in names and rng.random() < .3:
                c['ins'][-1] = 'x.xml'
        else:
            c = cmd('harm', [pick(), pick()] + ([pick()] if rng.random() < .3 else []), rng=flags['rng'])
        h.append(c)
        if c['out'] and c['op'] != 'check' and not (c['op'] == 'merge' and len(c['ins']) < 2) and len(c['ins']) in (1, 2, 3):
            names.append(c['out'])   # may not come about: the next one is then given no such file
    return dict(files=fs, h=h)


# ------------------------------------------------------------------ running one command
def arguments(c, fmt):
    a = ['-q']
    if c['libs']:
        a += ['-l', '#'.join(map(str, common.ICU))]
    if c['rng']:
        a += ['-r', os.path.join(common.REPO, 'resources', 'lgr.rng')]
    o = ['-o', c['out']] if c['opt'] else []
    op, ins = c['op'], c['ins']
    if op in ('dump', 'import'):
        return a + o + ins
    if op == 'populate':
        return a + ['-x', ins[0]]
    if op == 'check':
        return a + ins
    if op == 'merge':
        return a + (['-n', c['name']] if c['name'] else []) + [x for n in ins for x in ('-s', n)]
    if op == 'harm':
        return a + ['-1', ins[0], '-2', ins[1]] + (['-z', ins[2]] if len(ins) > 2 else []) + [c['dir']]
    return a + [x for n in ins for x in ('-1', n)] + [x for n in c['second'] for x in ('-2', n)] + (['-g'] if c['full'] else []) + \
        (['-n1', c['name'] + '1', '-n2', c['name'] + '2'] if c['name'] else []) + [dict(union='UNION', inter='INTERSECT', diff='DIFF')[op]]


def call(name, args):
    """(what it printed, exception)"""
    import contextlib, importlib.machinery, importlib.util
    import lgr.tools.utils as u
    path = os.path.join(common.REPO, 'tools', name)
    if not os.path.exists(path):
        path += '.py'
    loader = importlib.machinery.SourceFileLoader('tool_' + name, path)
    mod = importlib.util.module_from_spec(importlib.util.spec_from_loader(loader.name, loader))
    argv, manager, out = sys.argv, u.UnicodeDataVersionManager, io.StringIO()
    err = io.StringIO()
    try:
        loader.exec_module(mod)
        u.UnicodeDataVersionManager = lambda: types.SimpleNamespace(register=lambda *a: common.unidb())   # the same database, faster
        sys.argv = [name] + args
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            mod.main()
        exc = ''
    except SystemExit as e:
        exc = 'SystemExit %s' % (e.code,) if e.code else ''
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        exc = common.exc_name(e)
    finally:
        sys.argv, u.UnicodeDataVersionManager = argv, manager
    return out.getvalue(), exc


_SCHEMA = []


def valid(data):
    from lxml import etree
    if not _SCHEMA:
        _SCHEMA.append(etree.RelaxNG(file=os.path.join(common.REPO, 'resources', 'lgr.rng')))
    try:
        return bool(_SCHEMA[0].validate(etree.fromstring(data)))
    except etree.XMLSyntaxError:
        return False


def lgr_file(data):
    d = pairs.abstract(data.decode('utf-8'))
    return dict(doc=d, num=pairs.num(d), valid=valid(data))


NODOC = dict(doc={}, num={}, valid=False)


def snapshot():
    out = {}
    for base, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.relpath(os.path.join(base, f), '.')
            with open(p, 'rb') as x:
                out[p] = hashlib.sha256(x.read()).hexdigest()
    return out


# ------------------------------------------------------------------ reading what was printed
LINE = re.compile(r'^(ERROR|IGNORE|WARNING|PASS): (.*) - (OK|NOK|NOT EXECUTED)$')
SCRIPT = re.compile(r"^Script '(.*?)' is available in LGR set '(.*?)' with LGR '(.*?)' but not in LGR set '(.*?)'\.$", re.M)
PAIR = re.compile(r'^### Compare LGRs for script (\S+): (.*?) - (.*?) ###$', re.M)
REVIEW = re.compile(r'^- (U\+[0-9A-F U+]*?) \((.*)\)$')


def conformance(text):
    from lgr.rfc7940 import LGRFormatTestResults
    back = {v: k for k, v in LGRFormatTestResults.test_desciption.items()}
    rows = text.rstrip('\n').split('\n')
    lines = []
    for r in rows[:-1]:
        m = LINE.match(r)
        lines.append(dict(t=back.get(m.group(2), m.group(2)), head=m.group(1), tail=m.group(3)) if m else dict(t='?' + r, head='', tail=''))
    f = rows[-1]
    return lines, f.partition('Validation result: ')[2] if f.startswith('Validation result: ') else f


def review(text):
    out, cur = [[], []], None
    for l in text.split('\n'):
        if l.startswith('Manual review needed for code points from '):
            cur = out[('first', 'second').index(l.split(' from ')[1].split()[0])]
        elif l:
            m = REVIEW.match(l)
            cp = c15.cp_of(m.group(1))
            if ''.join(map(chr, cp)) != m.group(2):
                raise ValueError('review')
            cur.append(cp)
    return out


def merging(c, ns, docs_, libs):
    """What the merge of these is judged by: the order of its members and their script extensions."""
    order = sorted(ns, key=lambda n: c17.key(docs_[n]['meta']['langs'][0]))
    scx = {}
    for n in ns if libs else ():
        for it in docs_[n]['items']:
            if len(it['cp']) == 1:
                for x in (range(it['rng'][0], it['rng'][1] + 1) if it['rng'] else it['cp']):
                    scx[x] = sorted(common.unidb().get_script_extensions(x))
    today = datetime.date.today().isoformat()
    return dict(ord=order, scx=[[[k], v] for k, v in sorted(scx.items())], today=[today], doc={}, num={})


def step(c, fmt, now):
    """now: the LGRs there are, by name, as documents."""
    o = dict(exc='', written=[], docs=[], printed='', doc={}, num={}, valid=False, sets=[], report={}, missing=[], pairs=[], review=[[], []], lines=[], verdict='',
             quiet='', day=int(datetime.date.today().strftime('%Y%m%d')))
    before = snapshot()
    args = arguments(c, fmt)
    text, o['exc'] = call(DUMPS[fmt] if c['op'] == 'import' else TOOL[c['op']], args[1:] if c['op'] == 'check' else args)
    after = snapshot()
    o['written'] = sorted(n for n in after if before.get(n) != after[n]) + sorted(n for n in before if n not in after)
    # what the named outputs hold afterwards
    for n in sorted(set(o['written']) | ({c['out']} if c['opt'] else set()) | {x for x in after if c['op'] == 'harm' and x.startswith(c['dir'] + '/')}):
        if n in after:
            try:
                with open(n, 'rb') as f:
                    o['docs'].append(dict(lgr_file(f.read()), n=n))
            except Exception:
                pass
    if text.strip():
        try:
            o.update(lgr_file(text.encode('utf-8')), printed='doc')
        except Exception:
            o['printed'] = 'text'
    ok = lambda ns: all(n in now and now[n]['meta']['langs'] for n in ns)
    if c['op'] == 'merge' and ok(c['ins']):
        o['sets'] = [merging(c, c['ins'], now, c['libs'])]
    if c['op'] == 'diff' and o['printed'] == 'text':
        if len(c['ins']) > 1 and len(c['second']) > 1 and ok(c['ins'] + c['second']):
            sets(c, o, text, now)
        else:
            o['report'] = c15.report(text)
    if c['op'] == 'harm' and o['exc'] == '':
        o['review'] = review(text)
    if c['op'] == 'check' and o['exc'] == '':
        o['lines'], o['verdict'] = conformance(text)
        o['quiet'] = call(TOOL['check'], args)[0].strip()
    if c['out'] and not c['opt'] and o['printed'] == 'doc':
        with open(c['out'], 'w', encoding='utf-8') as f:
            f.write(text)
    return o


def sets(c, o, text, now):
    names = [c['name'] + '1', c['name'] + '2'] if c['name'] else ['merged-lgr-set'] * 2
    parts = re.split(r'^(### Compare LGRs for script .*? ###)$', text, flags=re.M)
    head = parts[0]

    def only(m):
        side = 'first' if names[0] != names[1] and m.group(2) == names[0] else 'second' if names[0] != names[1] and m.group(2) == names[1] else None
        for s, ns in (('first', c['ins']), ('second', c['second'])):
            if side in (None, s) and (m.group(1), m.group(3)) in [(now[n]['meta']['langs'][0], os.path.basename(n)) for n in ns] \
                    and m.group(1) not in [now[n]['meta']['langs'][0] for n in (c['second'] if s == 'first' else c['ins'])]:
                o['missing'].append([m.group(1), s, m.group(3)])
                return ''
        o['missing'].append([m.group(1), '?', m.group(3)])
        return ''
    o['report'] = c15.report(SCRIPT.sub(only, head))
    for h, body in zip(parts[1::2], parts[2::2]):
        m = PAIR.match(h)
        o['pairs'].append(dict(script=m.group(1), one=m.group(2), two=m.group(3), report=c15.report(body)))
    for ns in (c['ins'], c['second']):
        m = merging(c, ns, now, False)
        t, exc = call('lgr_merge_set', ['-q'] + [x for n in ns for x in ('-s', n)])
        if exc == '':
            f = lgr_file(t.encode('utf-8'))
            m['doc'], m['num'] = f['doc'], f['num']
        o['sets'].append(m)


def observe(case):
    o = dict(exc='', files=[], res=[])
    with tempfile.TemporaryDirectory() as d:
        here = os.getcwd()
        os.chdir(d)
        try:
            os.mkdir('h')
            now, fmt = {}, ''
            for f in case['doc']:
                data = (gen.to_xml(f['doc']) if f['k'] == 'lgr' else f['text']).encode('utf-8')
                os.makedirs(os.path.dirname(f['n']) or '.', exist_ok=True)
                with open(f['n'], 'wb') as x:
                    x.write(data)
                rec = dict(k=f['k'])
                if f['k'] == 'lgr':
                    l = lgr_file(data)
                    if not l['doc']['meta']['uver']:
                        l['doc']['meta']['uver'], l['num']['uver'] = '6.3.0', [6, 3, 0]
                    rec.update(d=l['doc'], num=l['num'], valid=l['valid'])
                    now[f['n']] = l['doc']
                elif f['k'] == 'table':
                    rec['ls'], fmt = f['ls'], f['fmt']
                o['files'].append(dict(n=f['n'], f=rec))
            for n in {n for c in case['h'] for n in c['ins'] + c['second'] + [c['out']]} - {f['n'] for f in case['doc']} - {''}:
                o['files'].append(dict(n=n, f=dict(k='none')))
            for c in case['h']:
                r = step(c, fmt, now)
                o['res'].append(r)
                for x in r['docs']:
                    now[x['n']] = x['doc']
                if c['out'] and not c['opt'] and r['printed'] == 'doc':
                    now[c['out']] = r['doc']
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            o['exc'] = common.exc_name(e) + ': ' + str(e)[:80]
        finally:
            os.chdir(here)
    return o


# ------------------------------------------------------------------ cases
def small(rng):
    """The files of the model."""
    a = vdoc(rng, ranges=True, missing=.1)
    b = vdoc(rng, missing=.3)
    v = vdoc(rng, missing=.3)
    scripts(rng, [a, b, v])
    for d in (a, b, v):
        d['meta']['unicode_version'] = '15.1.0'
        d['meta'].pop('scopes', None)
        d['meta'].pop('version', None)
        for it in d['items']:
            it['when'] = it['nwhen'] = ''
    v['meta']['scopes'] = [['x', 'domain']]
    v['meta']['date'] = '1 May'      # not a date: refused by the schema
    return [dict(n=n, k='lgr', doc=d) for n, d in (('a.xml', a), ('b.xml', b), ('v.xml', v))] + \
        [dict(n='t.txt', k='table', **table(rng)), dict(n='x.xml', k='bad', text=rng.choice(BAD))]


def commands():
    cs = []
    for x in ('a.xml', 'v.xml', 'x.xml', 'none.xml', 'o.xml'):
        for r in (False, True):
            cs.append(cmd('dump', [x], out='o.xml', opt=r, rng=r))
        cs.append(cmd('populate', [x], out='o.xml', rng=x == 'v.xml'))
        cs.append(cmd('check', [x], rng=x in ('v.xml', 'a.xml')))
    for op in ('union', 'inter', 'diff'):
        cs += [cmd(op, ['a.xml'], ['b.xml'], out='o.xml' if op != 'diff' else ''), cmd(op, ['o.xml'], ['a.xml'], out='p.xml' if op != 'diff' else '', rng=True),
               cmd(op, ['b.xml', 'v.xml'], ['a.xml']), cmd(op, ['b.xml', 'v.xml'], ['a.xml', 'b.xml']), cmd(op, ['x.xml'], ['a.xml'])]
    cs += [cmd('merge', ['a.xml'], out='o.xml'), cmd('merge', ['b.xml', 'a.xml'], out='o.xml'), cmd('merge', ['a.xml', 'x.xml'], out='o.xml'),
           cmd('harm', ['a.xml', 'b.xml']), cmd('harm', ['b.xml', 'o.xml', 'v.xml']), cmd('harm', ['a.xml', 'v.xml'], rng=True), cmd('import', ['t.txt'], out='o.xml'),
           cmd('import', ['t.txt'], out='o.xml', opt=True), cmd('harm', ['a.xml', 'h/a_harmonized.xml'])]
    return cs


def model_cases(ctx):
    cs = commands()
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(cmds=cs, size=2), f)
    out = common.model_phase(ctx, 'MC_Commands', 'SPECIFICATION Spec\nINVARIANT Frame\nINVARIANT Usable\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par), workers=1)
    hs = list(common.printed_cases(out))
    if ctx.thorough:
        with open(par, 'w') as f:
            json.dump(dict(cmds=cs, size=3), f)
        common.model_phase(ctx, 'MC_Commands', 'SPECIFICATION Spec\nINVARIANT Frame\nINVARIANT Usable\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par))
    k = ctx.scale(450, len(hs))
    hs = ctx.rng.sample(hs, k) if k < len(hs) else hs
    return [dict(doc=small(ctx.rng), h=[cs[j - 1] for j in h]) for h in hs]


def cases(ctx):
    out = []
    for _ in range(ctx.scale(1500, 14000)):
        s = rand_session(ctx.rng)
        out.append(dict(doc=s['files'], h=s['h']))
    return out


def run(ctx):
    sig = lambda c, o, cl: ','.join(cl)
    common.trace_phase(ctx, 'c34', SPEC, model_cases(ctx), sig=sig)
    common.trace_phase(ctx, 'c34', SPEC, cases(ctx), sig=sig)
    ctx.notes['cases'] = 'sessions of one to three commands over a folder: dump, populate, union, intersection, comparison (of LGRs and of sets), merge, harmonize, import, conformance'
