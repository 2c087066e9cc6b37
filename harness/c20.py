"""C20 conformance verdicts."""
import itertools, re
import common

SPEC = 'T_C20'
PS = ['ERROR', 'WARNING', 'IGNORE']
REAL = ['parse_xml', 'validity_started', 'basic_symmetry', 'strict_symmetry', 'standard_dispositions', 'schema', 'codepoint_valid',
        'metadata_language', 'char_ascending_order']
LINE = re.compile(r'^(ERROR|IGNORE|WARNING|PASS): (.*) - (OK|NOK|NOT EXECUTED)$')


def model_cases(ctx):
    out = common.model_phase(ctx, 'MC_Conf', 'SPECIFICATION Spec\nINVARIANT Sticky\nINVARIANT Agree\nINVARIANT Monotone\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n',
                             env=dict(N=str(ctx.scale(4, 5))), workers=1)
    pols = []
    for x, y, z in itertools.product(['-'] + PS, ['-'] + PS, ['-'] + PS):
        pols.append([dict(t=t, p=p) for t, p in zip('abc', (x, y, z)) if p != '-'])
    return [dict(h=h, via=['direct', 'lgr'][n % 2], asks=[dict(at=len(h), has=False, pol=[])] + [dict(at=len(h), has=True, pol=p) for p in pols])
            for n, h in enumerate(common.printed_cases(out))]


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(600, 8000)):
        tests = rng.sample(REAL + ['own test', 'x'], rng.randint(1, 6))
        pf = rng.choice([.1, .3, .6])
        h = [dict(t=rng.choice(tests), ok=rng.random() > pf) for _ in range(rng.randint(0, 14))]
        asks = []
        for _ in range(5):
            names = rng.sample(tests, rng.randint(0, len(tests))) + rng.sample(['never'], rng.choice([0, 0, 0, 1]))
            asks.append(dict(at=rng.randint(0, len(h)), has=rng.random() < .85, pol=[dict(t=t, p=rng.choice(PS)) for t in names]))
        asks.sort(key=lambda a: a['at'])
        out.append(dict(h=h, via=rng.choice(['direct', 'lgr']), asks=asks))
    return out


def observe(case):
    from lgr.rfc7940 import LGRFormatTestResults
    from lgr.core import LGR
    lgr = LGR()
    rec = lgr.metadata.rfc7940_checks
    desc = LGRFormatTestResults.test_desciption
    res, pos = [], 0
    k = 0
    for q in case['asks']:
        while pos < q['at']:
            e = case['h'][pos]
            k += 1
            if case['via'] == 'lgr':
                (lgr.notify_tested if e['ok'] else lgr.notify_error)(e['t'])
            elif k % 2:
                rec.add_test_result(e['t'], e['ok'])
            else:
                (rec.tested if e['ok'] else rec.error)(e['t'])
            pos += 1
        pol = {x['t']: x['p'] for x in q['pol']} if q['has'] else None
        f = lgr.get_rfc7940_validation if case['via'] == 'lgr' else rec.get_final_result
        try:
            v = f(pol)
            rep = f(pol, verbose=True)
            back = {desc.get(t, t): t for t in (pol or {})}
            lines = []
            rows = rep.rstrip('\n').split('\n')
            for r in rows[:-1]:
                m = LINE.match(r)
                lines.append(dict(t=back.get(m.group(2), '?'), head=m.group(1), tail=m.group(3)) if m else dict(t='?', head=r, tail=''))
            final = rows[-1]
            pre = 'Validation result: '
            final = final[len(pre):] if final.startswith(pre) else (final if pol is None else '?' + final)
            res.append(dict(exc='', verdict=v, reported=final, lines=lines))
        except Exception as e:
            res.append(dict(exc=common.exc_name(e), verdict='', reported='', lines=[]))
    return dict(exc='', res=res)


def run(ctx):
    common.trace_phase(ctx, 'c20', SPEC, model_cases(ctx))
    common.trace_phase(ctx, 'c20', SPEC, cases(ctx))
