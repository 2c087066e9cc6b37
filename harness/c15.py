"""C15: comparison reports, of two LGRs and of label dispositions."""
import ast, re
import common, gen, pairs

SPEC = 'T_C15'


def cp_of(t):
    return [int(x[2:], 16) for x in t.split()]


def E(where, what, side, txt='', cp=()):
    return dict(where=list(where), what=what, side=side, txt=txt, cp=list(cp))


def none(t):
    return '' if t == 'None' else t


VAR = re.compile(r'Variant ((?:U\+[0-9A-F]+ ?)+): type=(.*?) - when=(.*?) - not-when=(.*?) - comment=(.*?)(?=, Variant U\+|$)', re.S)
ACT = re.compile(r'Action (\S*): match=(\S*) - not-match=(\S*)((?: - (?:any|all|only)-variants?=[^,]*)*)(?:, |$)')


def members(what, where, side, txt):
    """One side of a comparison of sets."""
    if what == 'variants':
        return [E(where, what, side, '|'.join(none(x) for x in m[1:]), cp_of(m[0])) for m in VAR.findall(txt)]
    if what == 'actions':
        out = []
        for d, m, n, v in ACT.findall(txt):
            vs = [x.split('=') for x in v.split(' - ')[1:]]
            out.append(E(where, what, side, '|'.join([d, none(m), none(n)] + ['%s %s' % (k.split('-')[0], x) for k, x in vs])))
        return out
    if what == 'repertoire':
        return [E(where, what, side, '', cp_of(x)) for x in txt.split(', ') if x]
    if what == 'scopes':
        return [E(where, what, side, '|'.join(none(y) for y in x.split(': ', 1))) for x in txt.split(', ') if x]
    return [E(where, what, side, x) for x in (ast.literal_eval(txt) if txt else [])]


VALUES = re.compile(r"^(?P<n>[A-Z][^\n]*) values differ:\nFirst LGR: '(?P<a>.*?)'\.\nSecond LGR: '(?P<b>.*?)'\.$", re.S | re.M)
SETS = re.compile(r"^(?P<n>[A-Z][^\n]*) values differ:\nValues only in first LGR: (?P<a>[^\n]*)\.\nValues only in second LGR: (?P<b>[^\n]*)\.$(?:\n+Common values: (?P<c>[^\n]*)\.$)?",
                  re.M)
DEFS = re.compile(r"^Definitions of '(?P<n>[^\n]*)' in (?P<k>rules|classes) differ:\nFirst LGR: '(?P<a>.*?)'\.\nSecond LGR: '(?P<b>.*?)'\.$", re.S | re.M)
MISSING = re.compile(r"^(?:Compare \w+:)?(First|Second) LGR has no (version|description)$", re.M)
SAME = re.compile(r"^Same (?P<n>[a-z -]+) value for both LGR: '(?P<v>.*?)'\.(?=Same|$)", re.M)
SETLIKE = {'scopes', 'languages', 'references', 'repertoire', 'tags', 'variants', 'actions', 'rules', 'classes'}
HEAD = re.compile(r"^    \+ Compare code point ((?:U\+[0-9A-F]+ ?)+)", re.M)


def report(text):
    """The report as entries; `same` is what it states to be in both, `rest` what could not be read."""
    out = dict(entries=[], same=[], listed=[], identical=0, rest=[])
    parts = re.split(r'^(    \+ Compare code point (?:U\+[0-9A-F]+ ?)+|\*\* Compare WLE \*\*)', text, flags=re.M)
    secs = [([], parts[0])]
    for h, body in zip(parts[1::2], parts[2::2]):
        if 'WLE' in h:
            secs.append(([], body))
        else:
            cp = cp_of(HEAD.match(h).group(1))
            out['listed'].append(cp)
            secs.append((cp, body))
    for where, t in secs:
        t = re.sub(r'^Compare (Version|Description):', '\n', t, flags=re.M)

        def value(m):
            n = m.group('n').lower()
            if n == 'tags':
                for s, k in (('1', 'a'), ('2', 'b')):
                    out['entries'] += [E(where, n, s, x) for x in ast.literal_eval(m.group(k))]
                out['entries'].append(E(where, n, ''))
            else:
                out['entries'] += [E(where, n, '1', none(m.group('a'))), E(where, n, '2', none(m.group('b')))]
            return ''

        def sets(m):
            n = m.group('n').lower()
            for s, k in (('1', 'a'), ('2', 'b')):
                out['entries'] += members(n, where, s, m.group(k))
            if m.group('c') not in (None, 'None'):
                out['same'] += members(n, where, '=', m.group('c'))
            return ''

        def same(m):
            n, v = m.group('n').lower(), m.group('v')
            out['same'] += members(n, where, '=', v) if n in SETLIKE else [E(where, n, '=', none(v))]
            return ''

        def defs(m):
            out['entries'].append(E(where, m.group('k') + '-definition', '', m.group('n')))
            return ''

        def missing(m):
            out['entries'].append(E(where, 'no-' + m.group(2), '1' if m.group(1) == 'First' else '2'))
            return ''
        t = DEFS.sub(defs, t)
        t = SETS.sub(sets, t)
        t = VALUES.sub(value, t)
        t = MISSING.sub(missing, t)
        t = SAME.sub(same, t)
        for line in t.split('\n'):
            line = line.strip()
            m = re.match(r'^(\d+) code points are identical$', line)
            if m:
                out['identical'] = int(m.group(1))
            elif line and not re.match(r'^\*\* Compare .* \*\*$', line) and not line.startswith('Same '):
                out['rest'].append(line)
    return out


def u(lab):
    return ''.join(map(chr, lab))


LAB = re.compile(r"## Comparison on label \u2066'(.*?)'\u2069 \[(.*?)\]\n")


def labels_report(l1, l2, labels):
    import real
    from lgr.tools.diff_collisions import diff
    o = dict(exc='', per=[], inboth=[], in1only=[], in2only=[], innone=[], out1=[], out2=[])
    text, o['exc'] = real.catch(lambda: ''.join(diff(l1, l2, [u(x) for x in labels], show_collision=False, quiet=True)))
    if o['exc']:
        return o
    disp = {}
    for lab in labels:
        ds = []
        for l in (l1, l2):
            _, e = real.catch(l.generate_index_label, lab)
            ds.append(None if e == 'NotInLGR' else sorted([real.cps(v[0]), v[1]] for v in l.compute_label_disposition(lab, include_invalid=True)))
        k = 'inboth' if all(d is not None for d in ds) else 'innone' if ds == [None, None] else 'in1only' if ds[1] is None else 'in2only'
        if lab not in o[k]:
            o[k].append(lab)
        disp[tuple(lab)] = ds
    cur = None
    lines = text.split('\n')
    sec = 0
    for line in lines:
        m = re.match(r'# Labels not in LGR (\d) #', line)
        if m:
            sec = int(m.group(1))
            continue
        if line.startswith('# LGR comparison'):
            sec = 0
        m = re.match(r'Label (\S+)$', line)
        if m and sec:
            o['out%d' % sec].append([ord(c) for c in m.group(1)])
        m = re.match("## Comparison on label \u2066'(.*?)'\u2069", line)
        if m:
            lab = [ord(c) for c in m.group(1)]
            d1, d2 = disp.get(tuple(lab), ([], []))
            cur = dict(label=lab, d1=d1 or [], d2=d2 or [], changed=[], new=[], removed=[], nochange=False, novariants=False)
            o['per'].append(cur)
        m = re.match(r"Change in disposition for \w+ \u2066'.*?'\u2069 \[(.*?)\] \(2->1\): (\S+) => (\S+)$", line)
        if m:
            cur['changed'].append([cp_of(m.group(1)), m.group(2), m.group(3)])
        m = re.match(r"(New|Removed) \w+ in LGR2:", line)
        if m:
            kind = m.group(1).lower()
        m = re.match(r"\u2066'.*?'\u2069 \[(.*?)\]$", line)
        if m:
            cur[kind].append(cp_of(m.group(1)))
        if line.startswith('No changes in disposition'):
            cur['nochange'] = True
        if line.startswith('No changes in number of variants'):
            cur['novariants'] = True
    return o


TWICE = re.compile(r"More than one LGR in set '(.*?)' match script '(.*?)'")
ONLY = re.compile(r"^Script '(.*?)' is available in LGR set '(.*?)' with LGR '(.*?)' but not in LGR set '(.*?)'\.$", re.M)
PAIR = re.compile(r'^### Compare LGRs for script (\S+): (.*?) - (.*?) ###$', re.M)


def sets_report(case):
    """The comparison of two sets made of the two LGRs under various names and languages."""
    import real
    from lgr.tools.compare.diff import diff_lgr_sets
    sides = []
    for m in case['sets']:
        side = []
        for x in m:
            l = real.build(case['doc'][x['doc']])
            l.name = x['name']
            l.metadata.set_languages(x['langs'], force=True)
            side.append(l)
        sides.append(side)
    heads = [real.build(d) for d in case['doc'][:2]]
    for h, n in zip(heads, ('S1', 'S2')):
        h.name = n
    text, exc = real.catch(diff_lgr_sets, heads[0], heads[1], sides[0], sides[1], case['full'])
    o = dict(exc=exc, twice=[], missing=[], pairs=[], head={})
    if exc:
        return o
    parts = re.split(r'^(### Compare LGRs for script .*? ###)$', text, flags=re.M)

    def twice(m):
        o['twice'].append(list(m.groups()))
        return ''

    def only(m):
        o['missing'].append([m.group(1), m.group(2), m.group(3).split("', '"), m.group(4)])
        return ''
    o['head'] = report(ONLY.sub(only, TWICE.sub(twice, parts[0])))
    for h, body in zip(parts[1::2], parts[2::2]):
        m = PAIR.match(h)
        o['pairs'].append(dict(script=m.group(1), one=m.group(2), two=m.group(3), report=report(body)))
    return o


def observe(case):
    from lgr.tools.compare import diff_lgrs

    def op(l1, l2):
        import real
        rd = lambda a, b, s: report(diff_lgrs(a, b, show_same=s))
        return dict(diff=rd(l1, l2, False), swap=rd(l2, l1, False), full=rd(l1, l2, True), self=rd(l1, l1, False),
                    labels=labels_report(*[real.build(d) for d in case['doc'][2:]], labels=case['labels']), sets=sets_report(case))
    return pairs.observe_pair(case, op)


def close(doc):
    """Make the variant relation symmetric and transitive, without context rules."""
    chars = [it for it in doc['items'] if it['k'] == 'char']
    comp = {tuple(it['cp']): tuple(it['cp']) for it in chars}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    types = {}
    for it in chars:
        it['when'] = it['nwhen'] = ''
        for v in it['vars']:
            if tuple(v['cp']) in comp:
                comp[find(tuple(it['cp']))] = find(tuple(v['cp']))
                types[tuple(it['cp']), tuple(v['cp'])] = v
    for it in chars:
        a = tuple(it['cp'])
        it['vars'] = [dict(cp=list(b), when='', nwhen='', type=types.get((a, b), {}).get('type', 'blocked'), refs=[], comment='')
                      for b in sorted(comp) if find(a) == find(b) and (a != b or (a, a) in types)]
    for it in doc['items']:
        it['when'] = it['nwhen'] = ''
    return doc


def cases(ctx):
    import copy
    rng = ctx.rng
    ps = pairs.model_pairs(ctx)
    if len(ps) > ctx.scale(1000, 20000):
        ps = rng.sample(ps, ctx.scale(1000, 20000))
    ps += [pairs.rand_pair(rng, pairs.WORDS) for _ in range(ctx.scale(1200, 9000))]
    out = []
    for a, b in ps:
        x = close(gen.rand_doc(rng, nchars=(2, 4), ctx_p=0, ctx_var_p=0, ranges=0, seqs=rng.choice([0, 0, .3]), alpha=[0x61, 0x62, 0x63, 0x64]))
        y = copy.deepcopy(x)
        for _ in range(rng.randint(0, 3)):
            pairs.mutate(rng, dict(y, meta={}))
        y = close(y)
        for z in (x, y):
            z['meta'] = dict(unicode_version='15.1.0')
        labels = [gen.rand_label(rng, rng.choice([x, y]), 3, .97) for _ in range(rng.randint(1, 3))]
        sets = [[dict(doc=rng.randint(0, 1), name='%d%d' % (k, j), langs=rng.choice([['und-Latn']] * 3 + [['und-Grek'], ['und-Grek', 'und-Latn'], ['und-Cyrl'], []]))
                 for j in range(rng.choice([1, 1, 2, 2, 3]))] for k in (1, 2)]
        out.append(dict(doc=[a, b, x, y], labels=labels, sets=sets, full=rng.random() < .5, seqs=any(len(it.get('cp', [0])) > 1 for z in (x, y) for it in z['items'])))
    return out


def run(ctx):
    common.trace_phase(ctx, 'c15', SPEC, cases(ctx))
