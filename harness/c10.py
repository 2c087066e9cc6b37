"""C10 XML round trip."""
import io
import common, gen, docs

SPEC = 'T_C10'


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(1100, 9000)):
        alpha = rng.choice([None, None, [0x61, 0x62, 0xe9, 0x3b1, 0x430, 0x4e00], [0x10330, 0x10331, 0x10332, 0x61, 0x20000]])
        doc = gen.rand_doc(rng, alpha=alpha, nchars=(0, 7), nrules=(0, 3), nclasses=(0, 4), nactions=(0, 4), ctx_p=.2, ctx_var_p=.3, ranges=.4)
        if rng.random() < .1:
            doc['decls'] = []
            for it in doc['items']:
                it['when'] = it['nwhen'] = ''
                for v in it.get('vars', ()):
                    v['when'] = v['nwhen'] = ''
                if it.get('vars'):
                    it['vars'] = [v for k, v in enumerate(it['vars']) if v['cp'] not in [w['cp'] for w in it['vars'][:k]]]
        docs.rich(rng, doc)
        xml = docs.write(doc, rng, docs.rand_style(rng))
        labels = [gen.rand_label(rng, doc, 3) for _ in range(3)] if max(doc['alpha']) < 0x10000 else []
        out.append(dict(doc=dict(xml=xml), D=docs.abstract(doc), L=gen.spec_lgr(doc), labels=labels, db=rng.random() < .5,
                        force=rng.random() < .5))
    return out


def ask(lgr, lab):
    import real
    r, exc = real.catch(lgr.test_label_eligible, lab)
    return dict(exc=exc, ok=False, disp='', idx=0) if exc else dict(exc='', ok=bool(r[0]), disp=real.s(r[3]), idx=int(r[4]))


def p(lgr):
    import proj
    d = proj.full(lgr)
    d.pop('xml')
    for k in d['classes'] + d['rules']:
        k.pop('text')
    return d


def observe(case):
    import real, docs
    from lgr.parser.xml_parser import XMLParser
    from lgr.parser.xml_serializer import serialize_lgr_xml
    xml = case['doc']['xml']
    try:
        l1 = real.parse_xml(xml, db=case['db'], force=case['force'])
        uver = XMLParser(io.BytesIO(xml.encode('utf-8')), 't.xml').unicode_version()
        p1 = p(l1)
        b1 = serialize_lgr_xml(l1)
        p1b = p(l1)
        l2 = real.parse_xml(b1.decode('utf-8'), db=case['db'], force=case['force'])
        p2 = p(l2)
        b2 = serialize_lgr_xml(l2)
        l3 = real.parse_xml(serialize_lgr_xml(l1, pretty_print=True).decode('utf-8'), db=case['db'], force=case['force'])
        p3 = p(l3)
        for l in (l1, l2):
            l.unicode_database = common.unidb()
        return dict(exc='', p1=p1, p1b=p1b, p2=p2, pretty=p3, x=docs.read(b1), stable=b1 == b2, uver=real.s(uver),
                    v1=[ask(l1, lab) for lab in case['labels']], v2=[ask(l2, lab) for lab in case['labels']])
    except Exception as e:
        if common.os.environ.get('VERIF_DEBUG'):
            raise
        return dict(exc=common.exc_name(e) + ': ' + str(e)[:80])


def run(ctx):
    common.trace_phase(ctx, 'c10', SPEC, cases(ctx))
