"""C35: the IDNA2008 repertoire made of the registry."""
import os, tempfile
import common

SPEC = 'T_C35'
PROPS = ['PVALID', 'CONTEXTO', 'CONTEXTJ', 'DISALLOWED', 'UNASSIGNED']
VERSIONS = [[5, 2, 0], [6, 0, 0], [6, 1, 0], [6, 3, 0], [12, 1, 0], [5, 10, 0], [6, 0, 1]]
STARTS = [0x2d, 0x30, 0x61, 0x7a, 0xb7, 0x375, 0x5d0, 0x620, 0x200c, 0x4e00, 0xfffd, 0x10000, 0x1f600, 0x20000, 0x10fffd]


def name(v):
    return 'idna-tables-properties' if v > [6, 0, 0] else 'idna-tables-%d.%d.%d-properties' % tuple(v)


def case(v, groups, rng):
    members = [x for g in groups for r in g['records'] for x in (r['first'] - 1, r['first'], (r['first'] + r['last']) // 2, r['last'], r['last'] + 1)]
    ps = sorted({x for x in members if 0 < x <= 0x10ffff})
    return dict(version=v, table=groups, probes=ps if len(ps) < 14 else sorted(rng.sample(ps, 14)), style=rng.randint(0, 7))


def model(ctx):
    out = common.model_phase(ctx, 'MC_Registry', 'SPECIFICATION Spec\nINVARIANT Sound\nINVARIANT OneName\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
                             env=dict(N='2'), workers=1)
    cs = list(common.printed_cases(out))
    want = ctx.scale(1500, 20000)
    res = []
    for m in ctx.rng.sample(cs, want) if len(cs) > want else cs:
        groups = []
        for i in sorted({x['id'] for x in m['rs']}):
            groups.append(dict(id=i, records=[{k: v for k, v in x.items() if k != 'id'} for x in m['rs'] if x['id'] == i]))
        res.append(case(m['v'], groups, ctx.rng))
    if ctx.thorough:
        common.model_phase(ctx, 'MC_Registry', 'SPECIFICATION Spec\nINVARIANT Sound\nINVARIANT OneName\nCHECK_DEADLOCK FALSE\n', env=dict(N='3'))
    return res


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(400, 5000)):
        v = rng.choice(VERSIONS)
        groups = []
        for i in [name(v)] + rng.sample(['idna-tables-context', name([6, 0, 0]), name([5, 2, 0]), name([6, 3, 0])], rng.randint(0, 2)):
            if i in [g['id'] for g in groups]:
                continue
            at, recs = rng.choice([0x20, 0x2d, 0x61, 0x600]), []
            for _ in range(rng.randint(0, 12)):
                at = max(at, rng.choice(STARTS)) if rng.random() < .3 else at + rng.choice([0, 0, 1, 5])
                last = at + rng.choice([0, 0, 0, 1, 2, 25, 300])
                if last > 0x10ffff:
                    break
                recs.append(dict(first=at, last=last, prop=rng.choice(PROPS)))
                at = last + 1
            if rng.random() < .15:
                rng.shuffle(recs)
            groups.append(dict(id=i, records=recs))
        rng.shuffle(groups)
        out.append(case(v, groups, rng))
    return out


def write(case):
    st = case['style']
    hexa = lambda c: '%04X' % c
    out = ['<?xml version="1.0" encoding="UTF-8"?>\n<registry xmlns="http://www.iana.org/assignments" id="idna-tables-%d.%d.%d">\n' % tuple(case['version']),
           '<title>IDNA Parameters</title>\n']
    for g in case['table']:
        out.append('<registry id="%s">\n' % g['id'])
        if st & 1:
            out.append('<title>IDNA Derived Properties</title><!-- values --><xref type="rfc" data="rfc5892"/>\n')
        for r in g['records']:
            cp = hexa(r['first']) if r['first'] == r['last'] else hexa(r['first']) + '-' + hexa(r['last'])
            kids = ['<codepoint>%s</codepoint>' % cp, '<property>%s</property>' % r['prop'], '<description>SOME LETTER..OTHER PVALID</description>']
            if st & 2:
                kids = kids[1:] + kids[:1]
            out.append('<record%s>' % (' date="2010-09-07"' if st & 4 else '') + ('\n  ' if st & 1 else '').join(kids) + '</record>\n')
        out.append('</registry>\n')
    return ''.join(out + ['</registry>\n'])


def observe(case):
    import contextlib, importlib.util, io, logging, sys
    from lgr.core import LGR
    from lgr.exceptions import LGRException
    from lgr.parser.xml_parser import XMLParser
    spec = importlib.util.spec_from_file_location('make_idna', os.path.join(common.REPO, 'tools', 'make_idna_repertoire.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    o = dict(exc='', entries=[], plain=True, probes=[])
    v = '%d.%d.%d' % tuple(case['version'])
    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, 'idna-tables-%s.xml' % v), 'w', encoding='utf-8') as f:
            f.write(write(case))
        mod.IDNATABLES_URL = os.path.join(d, 'idna-tables-{version}.xml')
        out, argv = io.StringIO(), sys.argv
        try:
            sys.argv = ['make_idna_repertoire', v]
            with contextlib.redirect_stdout(out):
                mod.main()
            p = os.path.join(d, 'out.xml')
            with open(p, 'w', encoding='utf-8') as f:
                f.write(out.getvalue())
            made = XMLParser(p, force=False).parse_document()
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            o['exc'] = common.exc_name(e)
            return o
        finally:
            sys.argv = argv
    for c in made.repertoire:
        a, b = c.cp[0], getattr(c, 'last_cp', None) or c.cp[-1]
        o['entries'].append(dict(first=a, last=b))
        o['plain'] = o['plain'] and len(c.cp) == 1 and not list(c.get_variants()) and not c.tags and not c.references and c.when is None and c.not_when is None
    for x in case['probes']:
        l = LGR()
        try:
            l.add_cp([x], validating_repertoire=made)
            ok = True
        except LGRException:
            ok = False
        o['probes'].append(dict(cp=x, ok=ok))
    return o


def run(ctx):
    common.trace_phase(ctx, 'c35', SPEC, model(ctx) + cases(ctx))
