"""C24, the tool: reviews of several tables against several references."""
import json, os, tempfile
import common, gen, pairs

SPEC = 'T_C24r'
RNG = os.path.join(common.REPO, 'resources', 'lgr.rng')


def cases(ctx):
    import c24
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(60, 500)):
        nt, nr = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)])
        base = c24.cases(_One(ctx))[0]
        ds = []
        for k in range(nt + nr):
            d = json.loads(json.dumps(base['doc'][k % 2]))
            if k > 1:
                for _ in range(rng.choice([0, 1, 2])):
                    pairs.mutate(rng, d)
                pairs.same_notation(rng, base['doc'][0], d)
            ds.append(d)
        bad = [rng.random() < .25 for _ in ds]
        names = ['t%d.xml' % k for k in range(nt)] + ['r%d.xml' % k for k in range(nr)]
        again = rng.random() < .3
        out.append(dict(doc=ds, names=names, bad=bad, nt=nt, again=again, schema=any(bad) or rng.random() < .3, there=rng.random() < .4))
    return out


class _One:
    """A context for one case at a time."""
    def __init__(self, ctx):
        self.rng, self.thorough = ctx.rng, False

    def scale(self, a, b):
        return 1


def observe(case):
    import c34, real
    from lgr.tools.idn_review.review import review_lgr
    from lgr.tools.utils import parse_lgr
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            for n, d, b in zip(case['names'], case['doc'], case['bad']):
                text = gen.to_xml(d)
                text = text if isinstance(text, bytes) else text.encode('utf-8')
                if b:
                    # an element the schema does not know
                    k = text.rindex(b'</')
                    text = text[:k] + b'<unknown/>' + text[k:]
                with open(n, 'wb') as f:
                    f.write(text)
            rng = RNG if case['schema'] else None
            unidb = common.unidb()
            lgrs, oks = {}, {}
            for n in case['names']:
                with open(n, 'rb') as f:
                    oks[n] = rng is None or c34.valid(f.read())
                if oks[n]:
                    lgrs[n], exc = real.catch(parse_lgr, n, None, unidb)
                    if exc:
                        return dict(skip=True)
            ts, rs = case['names'][:case['nt']], case['names'][case['nt']:]
            direct = {}
            for t in ts:
                for r in rs:
                    if oks[t] and oks[r]:
                        x, exc = real.catch(review_lgr, lgrs[t], lgrs[r])
                        if exc:
                            return dict(skip=True)
                        direct[t, r] = json.loads(json.dumps(x, default=str))
            args = ['-o', 'out', '-t'] + ts + (ts[:1] if case['again'] else []) + ['-x'] + rs + (rs[-1:] if case['again'] else [])
            if case['schema']:
                args += ['-r', RNG]
            args += ['-l', 'x#y#15.1.0']
            if case['there']:
                os.mkdir('out')
            before = {n: open(n, 'rb').read() for n in case['names']}
            text, exc = c34.call('lgr_idn_table_review', args)
            files = []
            for n in sorted(os.listdir('out')) if os.path.isdir('out') else []:
                with open(os.path.join('out', n)) as f:
                    try:
                        j = json.load(f)
                    except ValueError:
                        j = {}
                h = j.get('header', {})
                p = [h.get('idn_table', {}).get('filename', ''), h.get('reference_lgr', {}).get('name', '')]
                d = direct.get(tuple(p))
                for x in (j, d or {}):
                    x.get('header', {}).pop('date', None)
                files.append(dict(n=n, pair=p, same=d == j))
            stay = sorted(x for x in os.listdir('.') if x != 'out') == sorted(before) and all(open(n, 'rb').read() == before[n] for n in before)
            return dict(skip=False, exc=exc, files=files, inputs=stay,
                        tables=[dict(n=n, ok=oks[n]) for n in ts], refs=[dict(n=n, ok=oks[n]) for n in rs])
        finally:
            os.chdir(cwd)


def run(ctx):
    cs = cases(ctx)
    common.trace_phase(ctx, 'c24r', SPEC, cs)
