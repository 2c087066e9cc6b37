"""C18: collisions in lists of labels."""
import io, json, os, re, sys
import common, docs, gen, pairs, c17

SPEC = 'T_C18'
WIDE = [0x431, 0x432, 0x433, 0x434, 0x435, 0x436]
BAD = ['ab xyz', 'U+zz', 'xn--!!', 'b U+ c', 'U+110000']


def text(cps):
    return ''.join(map(chr, cps))


def form(rng, cps):
    """A line of a label file."""
    r = rng.random()
    if r < .55:
        s = text(cps)
    elif r < .7:
        s = ' '.join('U+%04X' % c for c in cps)
    elif r < .8:
        s = ' '.join(['U+%04x' % cps[0]] + ['%04X' % c for c in cps[1:]])
    elif max(cps) > 0x7f:
        s = 'xn--' + text(cps).encode('punycode').decode()
        if rng.random() < .3:
            s = s.upper()
    else:
        s = text(cps)
    if rng.random() < .2:
        s = rng.choice(['', ' ', '\t', '﻿']) + s + rng.choice(['', ' ', '\t', ' # x', '#y', '\r\n'])
    return s + '\n'


def lines(rng, labels, nbad):
    out = [form(rng, l) for l in labels] + [rng.choice(BAD) + '\n' for _ in range(nbad)]
    out += [rng.choice(['\n', '# comment\n', '  \n', '#\n']) for _ in range(rng.choice([0, 0, 1, 2]))]
    out += [form(rng, rng.choice(labels)) for _ in range(rng.choice([0, 0, 1]))]
    rng.shuffle(out)
    return out


def document(rng, alpha, closed):
    d = gen.rand_doc(rng, alpha=alpha, nchars=(2, 6), ctx_p=.15, ctx_var_p=.1, vars_p=.5, nrules=(0, 2), nclasses=(0, 1), nactions=(0, 2), max_seq=2)
    d['meta'] = dict(unicode_version='15.1.0')
    if closed:
        c17.close(d, rng)
        if rng.random() < .7:
            for it in d['items']:
                it['when'] = it['nwhen'] = ''
                seen = {}
                for v in it.get('vars', ()):
                    v['when'] = v['nwhen'] = ''
                    seen.setdefault(tuple(v['cp']), v)
                it['vars'] = list(seen.values())
    return d


def labels(rng, doc, n, maxlen=3):
    """Labels of which several collide."""
    ent = {tuple(it['cp']): [v['cp'] for v in it['vars']] for it in doc['items'] if it['k'] == 'char'}
    out = []
    while len(out) < n:
        if out and rng.random() < .6:   # substitute variants
            src, lab, k = rng.choice(out), [], 0
            while k < len(src):
                fit = [c for c in ent if list(c) == src[k:k + len(c)]]
                if fit and rng.random() < .7:
                    c = rng.choice(fit)
                    lab += rng.choice(ent[c] + [list(c)])
                    k += len(c)
                else:
                    lab.append(src[k])
                    k += 1
            lab = lab[:maxlen + 1]
        else:
            lab = gen.rand_label(rng, doc, maxlen=maxlen, inside=.95)
        if lab:
            out.append(lab)
    return out


def uniq(ls):
    seen = []
    for l in ls:
        if l not in seen:
            seen.append(l)
    return seen


def finish(rng, c):
    """Derived parts of a case: the lines of the files."""
    c['L'] = [gen.spec_lgr(d) for d in c['doc']]
    c['lines'] = lines(rng, c['given'], c['nbad'])
    c['tldlines'] = lines(rng, c['tlds'], 0) if c['tlds'] else []
    return c


def case(rng, op, doc, ls, **k):
    ls = uniq(ls)
    c = dict(op=op, doc=doc, labels=ls, given=ls, cached=[], tlds=[], collisions=False, dump=False, quiet=rng.random() < .5, nbad=rng.choice([0, 0, 0, 1, 2]),
             notld=False, ann=False, cli=rng.random() < .6)
    c.update(k)
    return finish(rng, c)


def one(rng):
    op = rng.choice(['table', 'short', 'full', 'full', 'diff', 'tool'])
    alpha = rng.choice([gen.LATIN, WIDE])[:rng.randint(3, 5)]
    closed = rng.random() < .8
    d = document(rng, alpha, closed)
    ls = labels(rng, d, rng.randint(1, 5))
    k = {}
    if op == 'table' and rng.random() < .5:
        a, b = rng.sample(ls, rng.randint(1, len(ls))), rng.sample(ls, rng.randint(1, len(ls)))
        ent = lambda x: gen.spec_chars(d['items'])
        k = dict(given=uniq(a), cached=uniq(b))
        ls = a + b
    elif op in ('short', 'full', 'tool') and rng.random() < .8 or op == 'tool':
        t = labels(rng, d, 1) + rng.sample(ls, rng.randint(0, min(2, len(ls))))
        more = [x for x in labels(rng, d, 4) if rng.random() < .5]
        k = dict(tlds=uniq(t + more)[:4])
    if op == 'full':
        k['dump'] = rng.random() < .5
        k['notld'] = not k.get('tlds')
    if op == 'short':
        k['notld'] = not k.get('tlds') and rng.random() < .5
        k['ann'] = rng.random() < .2
    ds = [d]
    if op == 'diff':
        import copy
        e = copy.deepcopy(d)
        for _ in range(rng.choice([0, 1, 2, 4])):
            pairs.mutate(rng, e)
        if rng.random() < .3:
            e = document(rng, alpha, closed)
        elif closed:
            c17.close(e, rng)
        ds = [d, e]
        pairs.same_notation(rng, d, e)
        for x in ds:   # keep it a small matter of combinations
            x['items'] = [it for it in x['items'] if it['k'] != 'range' or it['last'] - it['first'] < 4]
        k = dict(collisions=rng.random() < .6, dump=rng.random() < .5)
        ls = ls[:4]
    return case(rng, op, ds, ls, **k)


def lab(k):
    return [0x60 + k] if k <= 3 else [0x61 + (k - 4) // 3, 0x61 + (k - 4) % 3]


def model(ctx, size, emit, count=None):
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(size=size, emit=emit), f)
    out = common.model_phase(ctx, 'MC_Collide', 'SPECIFICATION Spec\nINVARIANT SameIndex\nINVARIANT VariantsCollide\nINVARIANT Partition\n'
                             'INVARIANT FullReport\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par), workers=1 if emit else common.NPROC)
    rng, res = ctx.rng, []
    cs = list(common.printed_cases(out))
    for m in (rng.sample(cs, count) if count and count < len(cs) else cs):
        items = [dict(k='char', cp=[0x61 + i], when='', nwhen='', tags=[], refs=[], comment='',
                      vars=[dict(cp=[0x61 + j], when='', nwhen='', type='blocked', refs=[], comment='') for j, h in enumerate(m['g']) if h == g and i != j])
                 for i, g in enumerate(m['g']) if g]
        d = dict(meta=dict(unicode_version='15.1.0'), items=items, decls=[], alpha=[0x61, 0x62, 0x63])
        ls = [lab(k) for k in m['xs']]
        rng.shuffle(ls)
        op = rng.choice(['table', 'short', 'full'])
        n = rng.randint(1, len(ls))
        k = dict(tlds=ls[n:], notld=not ls[n:]) if op != 'table' else {}
        res.append(case(rng, op, [d], ls[:n] if op != 'table' else ls, dump=op == 'full' and rng.random() < .6, nbad=0, **{x: v for x, v in k.items()}))
    return res


def cases(ctx):
    rng = ctx.rng
    out = model(ctx, 3, True, ctx.scale(1000, None))
    if ctx.thorough:
        out += model(ctx, 4, True, 8000)
        model(ctx, 5, False)
    while len(out) < ctx.scale(3400, 36000):
        c = one(rng)
        if all(weight(l, x) <= 150 for l in c['L'] for x in c['labels'] + c['tlds']):
            out.append(c)
    return out


def weight(L, lab):
    """A bound on the number of derivations of a label."""
    n = [1] + [0] * len(lab)
    for i in range(len(lab)):
        for ch in L['chars']:
            if lab[i:i + len(ch['cp'])] == ch['cp']:
                n[i + len(ch['cp'])] += n[i] * (1 + len(ch['vars']))
    return n[-1]


# ------------------------------------------------------------------ reading reports
def cp(s):
    return [int(x[2:], 16) for x in s.split()]


HEX = r'\[((?:U\+[0-9A-F]+ ?)+)\]'
BLOCK = re.compile(r"### Collision within the (.*?) ###\n\n```\nLabel: +\t(.*?) *\| (.*?)\nCode points: \t" + HEX + r" *\| " + HEX + r"\nCategory: +\t(\w+) *\| (\w+)\n```\n")


def lit(s):
    return s.strip().strip('⁦⁩').strip("'")


def read_blocks(t):
    out = []
    n = t.count('### Collision within')
    for m in BLOCK.finditer(t):
        a, b = cp(m.group(4)), cp(m.group(5))
        if text(a) != lit(m.group(2)) or text(b) != lit(m.group(3)):
            raise ValueError('label and code points differ')
        out.append(dict(a=a, ca=m.group(6), b=b, cb=m.group(7), col=m.group(1)))
    if len(out) != n:
        raise ValueError('unreadable collision')
    return out


def read_dump(t):
    out = []
    for part in t.split('\n## Dump for label ')[1:]:
        head, rest = part.split(': ##\n', 1)
        lab = cp(re.search(HEX, head).group(1))
        ent = [[m.group(1), cp(m.group(2)), m.group(3)] for m in re.finditer(r'(\w+) Label: .*? ' + HEX + r'\n\tDisposition (.*)\n', rest)]
        counts = [[m.group(1), int(m.group(2))] for m in re.finditer(r'\n - (.*?): (\d+)', rest)]
        if len(ent) != rest.count(' Label: '):
            raise ValueError('unreadable dump')
        out.append(dict(lab=lab, entries=ent, counts=counts))
    return out


def section(t, title):
    """The lines `Label x` below a title."""
    m = re.search('\n?' + re.escape(title) + '\n\n((?:Label .*\n)*)', t)
    return [[ord(c) for c in x[6:]] for x in m.group(1).split('\n')[:-1]] if m else []


def errors(t, word):
    return len(re.findall(r'^%s[^\n:]*: (?!collides|is a TLD|not in LGR).+$' % word, t, re.M))


def o_table(case, lgr):
    from lgr.tools.diff_collisions import get_collisions
    cached = {text(l): lgr.generate_index_label(l) for l in case['cached'] if inside(lgr, l)} or None
    was = dict(cached) if cached else None
    res = get_collisions(lgr, iter(case['lines']), quiet=case['quiet'], cached_indexes=cached)
    assert cached == was
    for v in res.values():
        for e in v:
            assert text(e['cp']) == e['label'] and e['index'] == [k for k in res if res[k] is v][0] if 'index' in e else True
    return dict(table=[dict(index=list(k), entries=[dict(lab=list(e['cp']), cat=e['cat'], disp=[[[ord(c) for c in l], d] for l, d in e['disp'].items()])
                                                    for e in v]) for k, v in res.items()])


def inside(lgr, l):
    from lgr.exceptions import NotInLGR
    try:
        lgr.generate_index_label(l)
        return True
    except NotInLGR:
        return False


def o_short(case, lgr):
    from lgr.tools.diff_collisions import basic_collision
    t = ''.join(basic_collision(lgr, iter(case['lines']), None if case['notld'] else iter(case['tldlines']), with_annotations=case['ann']))
    if case['ann']:
        if not t.startswith('# Validity #\n\n'):
            raise ValueError('no annotations')
        t = t[t.index('# Collisions #'):]
    cs = lambda s: [ord(c) for c in s]
    two = lambda w: [[cs(a), cs(b)] for a, b in re.findall(r'^(.*): collides with %s (.*)$' % w, t, re.M)]
    body, _, errs = t.partition('\n# Errors #\n\n')
    return dict(labels=two('label'), tlds=two('TLD'), are=[cs(x) for x in re.findall(r'^(.*): is a TLD$', body, re.M)],
                notin=[cs(x) for x in re.findall(r'^(.*): not in LGR$', errs, re.M)], none='No collision\n' in body,
                errors=len([x for x in errs.split('\n') if x and not x.endswith(': not in LGR')]))


NOCLI = dict(ran=False, missing=[], extra=[])


def o_full(case, lgr):
    from lgr.tools.diff_collisions import collision
    t = ''.join(collision(lgr, iter(case['lines']), None if case['notld'] else iter(case['tldlines']), show_dump=case['dump'], quiet=case['quiet']))
    body, _, dump = t.partition('\n# Summary #\n')
    head = t.split('\n# ')[0]
    cs = lambda s: [ord(c) for c in s]
    return dict(cli=command(case, t) if case['cli'] and case['notld'] else NOCLI, blocks=read_blocks(body), dump=read_dump(dump), indexes=[cs(x) for x in re.findall(r"^## Index '(.*)' ##$", body, re.M)],
                are=section(body, '# Labels that are TLDs #'), notin=section(body, '# Labels not in LGR #'),
                none='No collision in the list of labels' in body, errors=len(re.findall('^Label .*: .*$', head, re.M)))


def o_diff(case, l1, l2):
    from lgr.tools.diff_collisions import diff
    t = ''.join(diff(l1, l2, iter(case['lines']), show_collision=case['collisions'], show_dump=case['dump'], quiet=case['quiet']))
    head, _, rest = t.partition('\n# LGR comparison #\n')
    comp, _, coll = rest.partition('\n\n# Collisions for LGR1 #\n')
    if bool(coll) != case['collisions']:
        raise ValueError('collisions')
    labs = []
    for part in comp.split('\n## Comparison on label ')[1:]:
        first, rest = part.split('\n### Test dispositions: ###\n')
        disp, numb = rest.split('\n### Test number of variants: ###\n')
        new = lambda w: [[m.group(1), cp(m.group(2))] for m in re.finditer(w + r' (\w+) in LGR2:\n.*? ' + HEX, numb)]
        labs.append(dict(lab=cp(re.search(HEX, first).group(1)),
                         changes=[[m.group(1), cp(m.group(2)), m.group(3), m.group(4)]
                                  for m in re.finditer(r'^Change in disposition for (\w+) .*? ' + HEX + r' \(2->1\): (.*) => (.*)$', disp, re.M)],
                         same='No changes in disposition.' in disp, new=new('New'), removed=new('Removed'),
                         none='No changes in number of variants.' in numb))
    o = dict(cli=command(case, t) if case['cli'] and case['collisions'] else NOCLI, labels=labs, notin1=section(head, '# Labels not in LGR 1 #'), notin2=section(head, '# Labels not in LGR 2 #'),
             errors=len(re.findall('^Label .*: .*$', head, re.M)), c1=dict(blocks=[], dump=[]), c2=dict(blocks=[], dump=[]))
    if coll:
        a, b = coll.split('\n\n# Collisions for LGR2 #\n')
        for x, k in ((a, 'c1'), (b, 'c2')):
            bl, _, du = x.partition('\n# Summary for LGR')
            if bool(du) != case['dump']:
                raise ValueError('dump')
            o[k] = dict(blocks=read_blocks(bl), dump=read_dump(du))
    return o


def command(case, expected):
    """The report printed by the command, against the same report asked for directly."""
    import collections, tempfile, c34, proj, real
    from lgr.tools.utils import parse_lgr
    with tempfile.TemporaryDirectory() as d:
        args = ['-l', '#'.join(map(str, common.ICU))]
        for k, doc in enumerate(case['doc']):
            p = os.path.join(d, 'l%d.xml' % k)
            with open(p, 'w', encoding='utf-8') as f:
                f.write(gen.to_xml(doc))
            a, b = [proj.full(l) for l in (parse_lgr(p, None, common.unidb()), real.build(doc))]
            if {k: v for k, v in a.items() if k != 'name'} != {k: v for k, v in b.items() if k != 'name'}:
                return dict(ran=False, missing=[], extra=[])    # the command reads these otherwise
            args += ['-%d' % (k + 1), p]
        s = os.path.join(d, 'set')
        with open(s, 'w', encoding='utf-8', newline='') as f:
            f.write('\n'.join(x.replace('\r\n', '') for x in case['lines']) + '\n')
        out, exc = c34.call('lgr_diff_collisions', args + ['-s', s] + (['-g'] if case['dump'] else []) + (['-n'] if case['quiet'] else []))
    if exc:
        return dict(ran=True, missing=['raised ' + exc], extra=[])
    bag = lambda t: collections.Counter(re.sub(r'not in LGR \S+\.xml$', 'not in LGR', x) for x in t.split('\n') if x.strip() and x != 'No second LGR, will only output collisions')
    a, b = bag(expected), bag(out)
    return dict(ran=True, missing=sorted((a - b).elements())[:5], extra=sorted((b - a).elements())[:5])


def o_tool(case, lgr):
    import contextlib, importlib.util, tempfile, real
    spec = importlib.util.spec_from_file_location('lgr_collision_tool', os.path.join(common.REPO, 'tools', 'lgr_collision.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    with tempfile.TemporaryDirectory() as d:
        x, r = os.path.join(d, 'l.xml'), os.path.join(d, 'refs')
        doc = case['doc'][0]
        with open(x, 'w', encoding='utf-8') as f:
            f.write(gen.to_xml(doc))
        with open(r, 'w', encoding='utf-8') as f:
            f.write('\n'.join(text(l) for l in case['tlds']) + '\n')
        argv, stdin = sys.argv, sys.stdin
        out = io.StringIO()
        try:
            sys.argv = ['lgr_collision.py', '-l', '#'.join(map(str, common.ICU)), '-s', r] + (['-g'] if case['ann'] else []) + [x]
            sys.stdin = io.TextIOWrapper(io.BytesIO('\n'.join(text(l) for l in case['labels']).encode('utf-8')), encoding='utf-8')
            with contextlib.redirect_stdout(out):
                mod.main()
        finally:
            sys.argv, sys.stdin = argv, stdin
    ans = []
    cs = lambda s: [ord(c) for c in s]
    for ln in out.getvalue().split('\n'):
        m = re.match(r"Check label '(.*)'$", ln)
        if m:
            ans.append(dict(lab=cs(m.group(1)), answer='', **{'with': []}))
        m = re.match(r"Collision for label '(.*)' \[(.*)\] with '(.*)' \[(.*)\]$", ln)
        if m:
            ans[-1].update(answer='collision' if cs(m.group(1)) == ans[-1]['lab'] == cp(m.group(2)) else '?', **{'with': cs(m.group(3))})
        m = re.match(r"No collision for label (.*) \[(.*)\]$", ln)
        if m:
            ans[-1]['answer'] = 'none' if cs(m.group(1)) == ans[-1]['lab'] else '?'
        m = re.match(r"Label '?(.*?)'? .*not in LGR", ln)
        if m:
            ans[-1]['answer'] = 'out' if cs(m.group(1)) == ans[-1]['lab'] else '?'
    return dict(answers=ans)


def observe(case):
    import real, proj
    lgrs = [real.build(d) for d in case['doc']]
    before = [proj.full(l) for l in lgrs]
    f = dict(table=o_table, short=o_short, full=o_full, diff=o_diff, tool=o_tool)[case['op']]
    o = dict(exc='', errors=0)
    try:
        o.update(f(case, *lgrs))
    except SystemExit:
        o['exc'] = 'SystemExit'
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        o['exc'] = common.exc_name(e)
    o['same'] = [proj.full(l) for l in lgrs] == before
    return o


def run(ctx):
    common.trace_phase(ctx, 'c18', SPEC, cases(ctx), sig=lambda c, o, cl: c['op'] + ':' + ','.join(cl))
    ctx.notes['cases'] = 'tables, short and full reports, differences between two LGRs, and the checking tool'
