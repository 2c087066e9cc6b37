"""C30: the label tools report for each label what evaluating it alone gives."""
import io, os, re, sys, types
import common, docs, gen, c18

SPEC = 'T_C30'
REST = [('allocatable', 'first'), ('valid', 'kept'), ('invalid', 'no way')]
# permitted, context, refused by IDNA 2008 (for IDNA 2003 too or not), unassigned
IDNA = [0x61, 0x62, 0xe9, 0x3b1, 0x431, 0x4e00, 0x200d, 0x200c, 0xb7, 0x41, 0x2460, 0xbd, 0xdf, 0x3c2, 0x2665, 0xa9, 0x378, 0x2e, 0x5f, 0xfb01, 0x2028, 0x30fb, 0x660, 0x2603, 0xad]


def comments(rng, doc):
    out = []
    for d in doc['decls']:
        if d['k'] == 'action':
            d['comment'] = rng.choice(['', 'a', 'second one', 'x: y', 'rule %d' % len(out)])
            out.append(d['comment'])
    return out


def lines(rng, labels, long=False):
    """Text lines and what they say."""
    src, say = [], []
    for l in labels:
        if rng.random() < .08:
            bad = rng.choice(c18.BAD)
            src.append(bad + rng.choice(['\n', '  \n', ' #x\n']))
            say.append(dict(lab=[ord(c) for c in bad], bad=True))
        src.append(c18.form(rng, l))
        say.append(dict(lab=l, bad=False))
        if rng.random() < .15:
            src.append(rng.choice(['\n', '# comment\n', '  \n', '#\n']))
    if long and rng.random() < .1:
        n = rng.choice([63, 64, 70])
        l = [rng.choice(labels)[0]] * n
        src.append(c18.text(l) + '\n')
        say.append(dict(lab=l, bad=False))
    return src, say


def simple(rng, alpha, lang):
    d = gen.rand_doc(rng, alpha=alpha, nchars=(2, 5), ctx_p=0, ctx_var_p=0, vars_p=.6, nrules=(0, 2), nclasses=(0, 1), nactions=(0, 2), max_seq=2)
    d['meta'] = dict(unicode_version='15.1.0', languages=[lang])
    return d


def one(rng):
    op = rng.choice(['annotate', 'annotate', 'annotate', 'validate', 'exercise', 'idna'])
    if op == 'idna':
        return idna(rng)
    alpha = rng.choice([gen.LATIN, c18.WIDE])[:rng.randint(3, 5)]
    set_ = op != 'exercise' and rng.random() < .5
    tool = op != 'annotate' or rng.random() < .3
    if set_ and tool:
        ds = [simple(rng, alpha, 'und-Latn'), simple(rng, rng.sample(alpha, 2) + [0x71], 'und-Cyrl')]
    else:
        ds = [gen.rand_doc(rng, alpha=alpha, nchars=(2, 6), ctx_p=rng.choice([0, .3]), ctx_var_p=.1, vars_p=.6, nrules=(0, 3), nclasses=(0, 1), nactions=(0, 3), max_seq=3)]
        ds[0]['meta'] = dict(unicode_version='15.1.0', languages=['und-Latn'])
        if set_:
            ds.append(c18.document(rng, alpha, rng.random() < .8))
    com = comments(rng, ds[0])
    ls = []
    while len(ls) < rng.randint(1, 5):
        l = gen.rand_label(rng, rng.choice(ds + ds[:1] * 3), 4, rng.choice([1, .95, .7]))
        if l and sum(c18.weight(gen.spec_lgr(d), l) for d in ds) < 60:
            ls.append(l)
    for l in list(ls):
        if rng.random() < .3:   # a variant of another
            ls += [x for x in c18.labels(rng, ds[0], 2, 4) if c18.weight(gen.spec_lgr(ds[0]), x) < 60][:1]
    if rng.random() < .1:
        ls.append(rng.choice(ls))
    c = dict(op=op, doc=ds, L=[gen.spec_lgr(d) for d in ds], comments=com, set=bool(set_), tool=bool(tool), gen=rng.random() < .6, libs=rng.random() < .2)
    c['labels'] = ls
    c['src'], c['lines'] = lines(rng, ls, not set_ and not c['L'][0]['rules'])
    sl = [rng.choice(ls)] * (rng.random() < .3)
    for _ in range(rng.randint(0, 3)):
        sl += [x for x in c18.labels(rng, rng.choice(ds), 1, 4) if all(c18.weight(l, x) < 60 for l in c['L'])]
    if rng.random() < .2:
        sl.append(gen.rand_label(rng, ds[0], 3, .5))
    rng.shuffle(sl)
    c['ssrc'], c['slines'] = lines(rng, sl) if set_ and sl else ([], [])
    return c


def idna(rng):
    alpha = rng.sample(IDNA, rng.randint(2, 7))
    items, seen = [], set()
    for _ in range(rng.randint(1, 6)):
        cp = [rng.choice(alpha) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if tuple(cp) in seen:
            continue
        seen.add(tuple(cp))
        vs, vseen = [], set()
        for _ in range(rng.choice([0, 0, 1, 2])):
            v = rng.choice([cp, cp, [rng.choice(alpha)]])
            if tuple(v) not in vseen:
                vseen.add(tuple(v))
                vs.append(dict(cp=v, when='', nwhen='', type=rng.choice(['out-of-repertoire-var', 'out-of-repertoire', 'Out-of-Repertoire-x', 'blocked', 'not-out-of-repertoire', '']),
                               refs=[], comment=''))
        items.append(dict(k='char', cp=cp, when='', nwhen='', tags=[], refs=[], comment='', vars=vs))
    d = dict(meta=dict(unicode_version='15.1.0'), items=items, decls=[], alpha=alpha)
    if rng.random() < .3:
        a = rng.choice([0x62, 0xe0, 0x40, 0x3fe])
        if not any(len(i['cp']) == 1 and a <= i['cp'][0] <= a + 3 for i in items):
            items.append(dict(k='range', first=a, last=a + 3, when='', nwhen='', tags=[], refs=[], comment=''))
    chars = [dict(cp=x['cp'], types=[v['type'].lower() for v in x['vars'] if v['cp'] == x['cp']]) for x in gen.spec_chars(items)]
    return dict(op='idna', doc=[d], chars=chars, L=[dict(chars=[], classes=[], rules=[], actions=[])], set=False)


def cases(ctx):
    return [one(ctx.rng) for _ in range(ctx.scale(3000, 40000))]


# ------------------------------------------------------------------ reading reports
def cs(s):
    return [ord(c) for c in s]


def parts(s):
    """`0061 (not in repertoire) 0062 (r1,r2)`"""
    return [dict(cp=int(m.group(1), 16), rules=[] if m.group(2) == 'not in repertoire' else m.group(2).split(',')) for m in re.finditer(r'([0-9A-F]{4,}) \((.*?)\)', s)]


NOTES = {'Label is in the LGR set labels': 'in', 'Label collides with the LGR set labels': 'collides'}
REASON = re.compile(r"^ Code point U\+([0-9A-F]+) (not in repertoire|does not comply with rules '(.*)')$")


def blocks(ls):
    out = []
    for ln in ls:
        m = re.match(r'^ Rule (\d+): (.*)$', ln)
        if m:
            out[-1]['rules'].append([int(m.group(1)), m.group(2)])
            continue
        m = REASON.match(ln)
        if m:
            out[-1]['parts'].append(dict(cp=int(m.group(1), 16), rules=m.group(3).split(',') if m.group(3) is not None else []))
            continue
        lab, sep, disp = ln.partition(': ')
        if not sep:
            raise ValueError('unreadable line')
        disp, sep, note = disp.partition(' - ')
        out.append(dict(lab=cs(lab), disp=disp, note=NOTES.get(note, '?' + note) if sep else '', rules=[], parts=[]))
    return out


HEAD, TAIL = '# The following labels from the set labels are invalid\n', '# End of filtered set labels\n\n'


def refused(t):
    head, _, body = t.partition(TAIL)
    return [dict(lab=cs(x.partition(': ')[0])) for x in head[len(HEAD):].split('\n')[:-1] if x], body


def annotated(case, t):
    ref = []
    if case['set']:
        if not t.startswith(HEAD) or TAIL not in t:
            raise ValueError('set labels')
        ref, t = refused(t)
    if t and not t.endswith('\n'):
        raise ValueError('last line')
    return dict(refused=ref, blocks=blocks(t.split('\n')[:-1]))


def o_annotate(case, lgrs):
    from lgr.tools.annotate import annotate, lgr_set_annotate
    if case['set']:
        t = ''.join(lgr_set_annotate(lgrs[1], lgrs[0], iter(case['ssrc']), iter(case['src'])))
    else:
        t = ''.join(annotate(lgrs[0], iter(case['src'])))
    return annotated(case, t)


def tool(name, args, stdin=''):
    import contextlib, importlib.util, logging
    spec = importlib.util.spec_from_file_location('tool_' + name, os.path.join(common.REPO, 'tools', name + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    argv, sin = sys.argv, sys.stdin
    out = io.StringIO()
    import lgr.tools.utils as u
    manager = u.UnicodeDataVersionManager
    try:
        u.UnicodeDataVersionManager = lambda: types.SimpleNamespace(register=lambda *a: common.unidb())   # the same database, faster
        sys.argv = [name + '.py', '-l', '#'.join(map(str, common.ICU))] + args
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode('utf-8')), encoding='utf-8')
        with contextlib.redirect_stdout(out):
            mod.main()
    finally:
        sys.argv, sys.stdin = argv, sin
        u.UnicodeDataVersionManager = manager
    return out.getvalue()


def files(case, d):
    names = []
    for k, doc in enumerate(case['doc']):
        names.append(os.path.join(d, '%d.xml' % k))
        with open(names[-1], 'w', encoding='utf-8') as f:
            f.write(gen.to_xml(doc))
    args = ['-q']
    for n in names:
        args += ['-x', n]
    if case['set']:
        s = os.path.join(d, 'set')
        with open(s, 'w', encoding='utf-8', newline='') as f:
            f.write(''.join(case['ssrc']))
        args += ['-s', 'und-Latn'] + (['-f', s] if case['ssrc'] else [])
    return names, args


def merged(names):
    import proj, real
    from lgr.tools.utils import merge_lgrs
    m, _ = merge_lgrs(names, unidb=common.unidb())
    return [dict(cp=e['cp'], when=e['when'], nwhen=e['nwhen'], tags=[], vars=[dict(cp=v['cp'], when=v['when'], nwhen=v['nwhen'], type=v['type']) for v in e['vars']])
            for e in proj.flat_chars(m)]


def o_tool(case):
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        names, args = files(case, d)
        mg = merged(names) if case['set'] else []
        if case['op'] == 'annotate':
            i, o = os.path.join(d, 'in'), os.path.join(d, 'out')
            with open(i, 'w', encoding='utf-8', newline='') as f:
                f.write(''.join(case['src']))
            if tool('lgr_annotate', args + ['-o', o, i]):
                raise ValueError('output')
            r = annotated(case, open(o, encoding='utf-8').read())
        elif case['op'] == 'validate':
            t = tool('lgr_validate', args + (['-g'] if case['gen'] else []), '\n'.join(map(c18.text, case['labels'])))
            r = dict(refused=[])
            if case['set']:
                t = t.replace('\n\n', '\n') if False else t
                head, sep, body = t.partition('# End of filtered set labels')
                if not sep:
                    raise ValueError('set labels')
                r['refused'] = [dict(lab=cs(x.partition(': ')[0])) for x in head.split('\n') if x and not x.startswith('# ')]
                t = body
            r['blocks'] = [validated(b) for b in t.split('\nLabel: ')[1:]]
        else:
            t = tool('lgr_cli', ['-q', '-t', '-c'] + (['-i'] if case['gen'] else []) + names, '\n'.join(map(c18.text, case['labels'])))
            r = dict(blocks=[exercised(b) for b in t.split('Validation: ')[1:]])
    r['merged'] = mg
    return r


def validated(b):
    r = dict(lab=[], cp=[], ok=False, disp='', valid=[], parts=[], collision='', variants=[], shown=False, **{'with': []})
    ls = b.split('\n')
    m = re.match(r'^(.*) \[(.*)\]$', ls[0])
    r['lab'], r['cp'] = cs(m.group(1)), c18.cp(m.group(2))
    it = iter(ls[1:])
    for ln in it:
        m = re.match(r"^(\tEligible: |\tDisposition: |Collisions:|Labels is in|Label collides with LGR set label |\tNone$|Variants:|\tVariant |- Valid code points from label:|- Invalid code points from label: |$)(.*)$", ln)
        if not m:
            raise ValueError('unreadable line')
        k, v = m.groups()
        if k == '\tEligible: ':
            r['ok'] = {'True': True, 'False': False}[v]
        elif k == '\tDisposition: ':
            r['disp'] = v
        elif k == 'Labels is in':
            r['collision'] = 'in'
        elif k.startswith('Label coll'):
            r['collision'], r['with'] = 'with', cs(v[1:-1])
        elif k == '\tNone':
            r['collision'] = 'none'
        elif k == 'Variants:':
            r['shown'] = True
        elif k == '\tVariant ':
            m = re.match(r'^(.*) \[(.*)\]$', v)
            n = re.match(r"^\t- Disposition: '(.*)'$", next(it))
            if c18.cp(m.group(2)) != cs(m.group(1)):
                raise ValueError('variant')
            r['variants'].append([cs(m.group(1)), n.group(1)])
        elif k.startswith('- Valid'):
            r['valid'] = [int(x, 16) for x in v.split()]
        elif k.startswith('- Invalid'):
            r['parts'] = parts(v)
    return r


def by(name, n):
    return [name, int(n)]


def exercised(b):
    ls = [x for x in b.split('\n') if x]
    m = re.match(r'^(.*) \((.*)\): Result: (valid|INVALID)$', ls[0])
    hexes = lambda s: [int(x, 16) for x in s.split()]
    r = dict(lab=cs(m.group(1)), cp=hexes(m.group(2)), ok=m.group(3) == 'valid', disp='', by=['', 0], variants=[])
    for ln in ls[1:]:
        m = re.match(r'^Disposition: (.*) \((.*)\): Result: (.*) due to (\w+)\[(-?\d+)\]$', ln)
        if m:
            if cs(m.group(1)) != r['lab'] or hexes(m.group(2)) != r['cp'] or r['disp']:
                raise ValueError('disposition')
            r['disp'], r['by'] = m.group(3), by(*m.groups()[3:])
            continue
        m = re.match(r'^Variant: \((.*)\): \[\{(.*)\}\] ==> (.*) due to (\w+)\[(-?\d+)\]$', ln)
        r['variants'].append(dict(cp=hexes(m.group(1)), types=[x for x in m.group(2).split(',') if x], disp=m.group(3), by=by(*m.groups()[3:])))
    return r


def o_idna(case, lgr):
    from lgr.tools.idna2008_compliance import check_idna2008_compliance
    db = common.unidb()
    r = check_idna2008_compliance(lgr)
    cps = sorted({c for x in case['chars'] for c in x['cp']})
    return dict(any=bool(r['contains_non_compliant']), count=int(r['compliant_nbr']),
                listed=[dict(cp=list(x['cp']), old=bool(x['idna2003_compliant']), prop=x['idna_property'].split(), gc=x['category'].split()) for x in r['non_compliant']],
                props=[dict(cp=c, ok=db.get_idna_prop(c) in ('PVALID', 'CONTEXTJ', 'CONTEXTO'), prop=db.get_idna_prop(c), gc=str(db.get_prop_value(c, 'General_Category')),
                            old=not db.is_idna2003_disallowed(c)) for c in cps])


def observe(case):
    import real
    o = dict(exc='', merged=[], refused=[], blocks=[], listed=[], any=False, count=0, props=[])
    try:
        if case['op'] == 'idna':
            o.update(o_idna(case, real.build(case['doc'][0], parser_db=False)))
        elif case['tool']:
            o.update(o_tool(case))
        else:
            o.update(o_annotate(case, [real.build(d) for d in case['doc']]))
    except SystemExit:
        o['exc'] = 'SystemExit'
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        o['exc'] = common.exc_name(e)
    return o


def run(ctx):
    common.trace_phase(ctx, 'c30', SPEC, cases(ctx), sig=lambda c, o, cl: c['op'] + (':set' if c['set'] else '') + (':tool' if c.get('tool') else '') + ':' + ','.join(cl))
    ctx.notes['cases'] = 'annotation (of labels alone and against the labels of a set, by function and by command), validation and exercising commands, IDNA 2008 compliance'
