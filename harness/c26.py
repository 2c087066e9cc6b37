"""C26 asking questions changes nothing."""
import hashlib, io, json
import common, gen

SPEC = 'T_C26'
GROUPS = dict(elig=['elig'], gen=['disp', 'summary'], index=['index', 'out'], est=['est'],
              validate=['validate', 'validate7940', 'checks', 'stats'], compare=['diff', 'union', 'intersect', 'harmonize', 'merge', 'difflab'],
              ser=['ser', 'str', 'pickle', 'copy'], look=['look', 'annotate', 'collide', 'idna', 'review', 'rng', 'rulematch'])
ALL = sorted({k for v in GROUPS.values() for k in v})
SLOTS = ['g0', 'g1']


def rand_case(rng):
    doc = gen.rand_doc(rng, vars_p=.7, ctx_p=.2, nrules=(0, 3), meta=dict(unicode_version=rng.choice(['15.1.0', '6.3.0']),
                       version='1', languages=rng.sample(['und-Latn', 'en', 'fr'], rng.randint(1, 2)), refs=[dict(id='0', value='v')]))
    other = gen.rand_doc(rng, vars_p=.5, ctx_p=.2, nrules=(0, 3), meta=dict(unicode_version='15.1.0', version='2',
                         languages=['und-Latn'] if rng.random() < .5 else ['und-Cyrl']))
    if rng.random() < .25:   # a rule that cannot be evaluated
        bad = dict(t='ref', name='undefined', **gen.ONE) if rng.random() < .5 else dict(t='class', cls=dict(t='cref', name='undefined'), **gen.ONE)
        doc['decls'] = [d for d in doc['decls'] if d['k'] != 'action'] + [dict(k='rule', name='bad', kids=[dict(t='start', **gen.ONE), bad])] + \
            [d for d in doc['decls'] if d['k'] == 'action'] + [dict(k='action', disp='blocked', match='bad', nmatch='', vk='none', vs=[])]
        if rng.random() < .5:
            for it in doc['items']:
                if it['k'] == 'char' and rng.random() < .4:
                    it['when'], it['nwhen'] = 'bad', ''
    labels = [gen.rand_label(rng, doc, 4, .97) for _ in range(3)] + [[0x7a, 0x61]]
    broken = any(d['k'] == 'rule' and d['name'] == 'bad' for d in doc['decls'])
    return dict(doc=doc, doc2=other, L=gen.spec_lgr(doc), labels=labels, broken=broken, lax=rng.random() < .4)


def rand_hist(rng, n):
    out, open_ = [], set()
    for _ in range(n):
        r = rng.random()
        if r < .3:
            s = rng.choice(SLOTS)
            op = 'open' if s not in open_ else rng.choice(['step', 'step', 'step', 'drop'])
            (open_.add if op == 'open' else open_.discard if op == 'drop' else lambda x: 0)(s)
            out.append(dict(op=op, k='', s=s))
        else:
            if out and rng.random() < .2 and any(h['op'] == 'ask' for h in out):   # ask something again
                out.append(dict(rng.choice([h for h in out if h['op'] == 'ask'])))
            else:
                out.append(dict(op='ask', k=rng.choice(ALL), s='', n=rng.randint(0, 5)))
    return out


# ------------------------------------------------------------------ asking
def dig(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def clean(x):
    """Answer of an arbitrary function as plain data without identities and set orders."""
    import real
    from lgr.core import LGR
    from lgr.char import CharBase, Variant
    if isinstance(x, LGR):
        import proj
        p = proj.full(x)
        p.pop('xml')
        for k in ('classes', 'rules', 'actions', 'refs', 'lookups'):
            p[k] = sorted(map(dig, p[k]))
        p['meta']['langs'].sort()
        p['meta']['scopes'].sort()
        return p
    if isinstance(x, Variant):
        return ['var', list(x.cp), str(x.when), str(x.not_when)]
    if isinstance(x, CharBase):
        return ['char', list(x.cp)]
    if isinstance(x, BaseException):
        return ['exc', type(x).__name__]
    if isinstance(x, dict):
        return sorted(([clean(k), clean(v)] for k, v in x.items()), key=lambda y: json.dumps(y, default=str))
    if isinstance(x, (set, frozenset)):
        return sorted((clean(v) for v in x), key=lambda y: json.dumps(y, default=str))
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    if hasattr(x, '__next__'):
        return [clean(v) for v in x]
    return type(x).__name__


def lines(t):
    return sorted(str(t).split('\n'))


def u(lab):
    return ''.join(map(chr, lab))


def ask(lgr, other, case, k, n):
    import copy, pickle, real, proj
    L = case['labels']
    lab = L[n % len(L)]
    if k == 'elig':
        r = lgr.test_label_eligible(lab, is_variant=n % 2 == 1, collect_log=n % 3 == 0, generate_chars=n == 5)
        return [r[0], clean(r[1]), clean(r[2]), r[3], r[4], clean(r[6]) if n == 5 else 0]
    if k == 'disp':
        return sorted(clean(x[:4] + (sorted(x[4]),)) for x in lgr.compute_label_disposition(
            lab, include_invalid=n % 2 == 0, collect_log=n % 3 == 0, hide_mixed_script_variants=n == 4))
    if k == 'summary':
        s, g = lgr.compute_label_disposition_summary(lab, include_invalid=n % 2 == 0)
        if n % 3 == 1:
            return clean(dict(s))
        return [clean(dict(s)), sorted(clean(x[:4]) for x in g)]
    if k == 'index':
        return clean(lgr.generate_index_label(lab))
    if k == 'out':
        return clean(lgr.generate_index_label([0x7a, 0x7a]))
    if k == 'est':
        return lgr.estimate_variant_number(lab, hide_mixed_script_variants=n == 2)
    if k in ('validate', 'validate7940'):
        from lgr.validate import validate_lgr
        o = {} if n % 2 else dict(unidb=common.unidb())
        if k == 'validate7940':
            o['rfc7940'] = True
        if n == 3:
            o['validating_repertoire'] = other
        if n == 2:
            o['rng_filepath'] = common.REPO + '/resources/lgr.rng'
        return clean([(a, b) for a, b in validate_lgr(lgr, o)])
    if k == 'checks':
        from lgr.validate import (check_symmetry, check_transitivity, check_conditional_variants, check_metadata, check_miscellaneous,
                                  rebuild_lgr)
        return [clean(f(lgr, {})) for f in (check_symmetry, check_transitivity, check_conditional_variants, check_metadata,
                                            check_miscellaneous, rebuild_lgr)]
    if k == 'stats':
        from lgr.validate.lgr_stats import generate_stats
        return clean(generate_stats(lgr))
    if k in ('diff', 'difflab', 'union', 'intersect', 'harmonize', 'merge'):
        a, b = (lgr, other) if n % 2 == 0 else (other, lgr)
        if k == 'diff':
            from lgr.tools.compare import diff_lgrs
            return lines(diff_lgrs(a, b, show_same=n % 3 == 0))
        if k == 'difflab':
            from lgr.tools.diff_collisions import diff
            return lines('\n'.join(diff(a, b, [u(x) for x in L], show_collision=True, show_dump=n % 3 == 0, quiet=n % 2 == 0)))
        if k == 'union':
            from lgr.tools.compare import union_lgrs
            union_lgrs(a, b)
            return 0
        if k == 'intersect':
            from lgr.tools.compare import intersect_lgrs
            intersect_lgrs(a, b)
            return 0
        if k == 'harmonize':
            from lgr.tools.harmonize import harmonize
            harmonize(a, b)
            return 0
        from lgr.tools.merge_set import merge_lgr_set
        merge_lgr_set([a, b], 'm')
        return 0
    if k == 'ser':
        from lgr.parser.xml_serializer import serialize_lgr_xml
        return dig(serialize_lgr_xml(lgr, pretty_print=n % 2 == 0, encoding='unicode', xml_declaration=False))
    if k == 'str':
        str(lgr), repr(lgr), [str(c) for c in lgr.repertoire]
        return [sorted(map(str, lgr.all_tags())), len(lgr.effective_actions), len(lgr.repertoire)]
    if k == 'pickle':
        return dig(proj.full(pickle.loads(pickle.dumps(lgr))))
    if k == 'copy':
        return dig(proj.full(copy.deepcopy(lgr) if n % 2 else copy.copy(lgr)))
    if k == 'look':
        return [clean(x) for c in lgr.repertoire.all_repertoire() for x in
                (real.catch(lambda: list(lgr.get_variants(c.cp))), real.catch(lambda: lgr.get_char(c.cp)), real.catch(lambda: c.cp in lgr.repertoire))] + \
            [clean(real.catch(lgr.get_char, [0x7a])), clean(real.catch(lgr.check_cp, [0x7b]))]
    if k == 'rng':
        return clean(list(lgr.check_range(*[(0x60, 0x66), (0x5a, 0x60), (0x78, 0x7d), (0x7a, 0x61), (0x41, 0x41), (0x2d, 0x3a)][n])))
    if k == 'annotate':
        from lgr.tools.annotate import annotate
        return list(annotate(lgr, [u(x) for x in L]))
    if k == 'collide':
        from lgr.tools import diff_collisions as d
        return [lines('\n'.join(map(str, x))) for x in (
            d.basic_collision(lgr, [u(x) for x in L], None, with_annotations=n % 2 == 0),
            d.collision(lgr, [u(x) for x in L], None, show_dump=n % 3 == 0, quiet=n % 2 == 0))] + [
            sorted(map(str, d.get_collisions(lgr, [u(x) for x in L])))]
    if k == 'idna':
        from lgr.tools.idna2008_compliance import check_idna2008_compliance
        return check_idna2008_compliance(lgr)['compliant_nbr']
    if k == 'review':
        from lgr.tools.idn_review.review import review_lgr
        review_lgr(lgr, other)
        return 0
    if k == 'rulematch':
        return [clean(real.catch(lgr.rules_lookup[r].matches, u(lab), *([] if True else []))) for r in []] + \
            [real.catch(lambda: lgr.classes_lookup[c].get_pattern(lgr.rules_lookup, lgr.classes_lookup, common.unidb()))[1] for c in lgr.classes]
    raise ValueError(k)


def item(x):
    return dig([list(x[0]), x[1], clean(x[2]), x[3], sorted(x[4])])


def generator(lgr, case, s):
    if s == 'g0':
        return lgr.compute_label_disposition(case['labels'][0], include_invalid=True)
    return lgr.compute_label_disposition(case['labels'][1], include_invalid=False, collect_log=True, hide_mixed_script_variants=False)


def answer(f):
    try:
        return dig(f())
    except Exception as e:
        return 'exc ' + common.exc_name(e)


ENV0 = {}
TABLES = []


def worker_setup():
    """Import everything, then note the logging configuration and the library's global tables."""
    import sys, logging, pkgutil, importlib
    import lgr
    for m in pkgutil.walk_packages(lgr.__path__, 'lgr.'):
        if 'test' in m.name:
            continue
        importlib.import_module(m.name)
    for name, m in sorted(sys.modules.items()):
        if name == 'lgr' or name.startswith('lgr.'):
            for a, v in sorted(vars(m).items()):
                if not a.startswith('_') and isinstance(v, (list, dict, set)) and len(v):
                    TABLES.append((name + '.' + a, v))
    global KNOWN
    KNOWN = sorted(n for n in logging.root.manager.loggerDict if n.split('.')[0].startswith('lgr'))


def env():
    import logging

    def one(l):
        return [l.level, l.disabled, l.propagate, len(l.filters), sorted(type(h).__name__ for h in l.handlers)]
    names = sorted(set(KNOWN) | {n for n in logging.root.manager.loggerDict if n.split('.')[0].startswith('lgr')})
    default = [0, False, True, 0, []]
    logs = [[n, one(logging.getLogger(n))] for n in names]
    logs = [x for x in logs if x[1] != default]
    return dig([one(logging.root), logs, logging.root.manager.disable, [[n, repr(sorted(map(rep, v))) if isinstance(v, (set, dict)) else
               [rep(x) for x in v]] for n, v in TABLES], [[n, sorted(repr(x) for x in v.items())] for n, v in TABLES if isinstance(v, dict) and 'function' not in repr(v)]])


def rep(x):
    if callable(x):
        return getattr(x, '__name__', type(x).__name__)
    return str(x)


def observe(case):
    import copy, detach, pickle, proj, real
    db = not case['broken']

    def mk():
        x = real.build(case['doc'], parser_db=db)
        if case['lax']:
            x.raise_on_invalid_property = False
        return x
    lgr, exc = real.catch(mk)
    if exc:
        return dict(exc='' if case['broken'] else 'build ' + exc, steps=[], fresh=[], copy=[], shared=[], elig=[], st0='', st20='', env0='')
    other = real.build(case['doc2'])
    st = lambda: dig([proj.full(lgr), lgr.raise_on_invalid_property])
    st2 = lambda: dig([proj.full(other), other.raise_on_invalid_property])
    o = dict(exc='', st0=st(), st20=st2(), env0=env(), steps=[], fresh=[], copy=[], shared=[], elig=[])
    gens = {}
    qs = {}
    for h in case['hist']:
        op, s = h['op'], h['s']
        if op == 'open':
            gens[s] = [generator(lgr, case, s), 0]
            q, a = 'open', ''
        elif op == 'drop':
            if len(o['steps']) % 2:
                gens[s][0].close()
            del gens[s]
            q, a = 'drop', ''
        elif op == 'step':
            q = '%s@%d' % (s, gens[s][1])
            qs[q] = (s, gens[s][1])
            a = answer(lambda: item(next(gens[s][0])))
            gens[s][1] += 1
        else:
            n = h.get('n', 0)
            q = '%s/%d' % (h['k'], n)
            qs[q] = (h['k'], n)
            a = answer(lambda: ask(lgr, other, case, h['k'], n))
        o['steps'].append(dict(q=q, a=a, st=st(), st2=st2(), env=env()))
    gens.clear()
    o['steps'].append(dict(q='end', a='', st=st(), st2=st2(), env=env()))

    def alone(x, k, n):
        if k in SLOTS:
            g = generator(x, case, k)

            def nth():
                for j in range(n):
                    try:
                        next(g)
                    except Exception:   # a generator that ended in an error goes on as ended
                        pass
                return item(next(g))
            a = answer(nth)
            return a
        return answer(lambda: ask(x, real.build(case['doc2']), case, k, n))
    for q, (k, n) in sorted(qs.items()):
        o['fresh'].append(dict(q=q, a=alone(mk(), k, n)))
        c = copy.deepcopy(lgr) if n % 2 else pickle.loads(pickle.dumps(lgr))
        c.unicode_database = common.unidb()
        if case['lax']:
            c.raise_on_invalid_property = False
        o['copy'].append(dict(q=q, a=alone(c, k, n)))
    if not case['broken']:
        for j in range(3):
            for isv in (False, True):
                r = lgr.test_label_eligible(case['labels'][j], is_variant=isv, collect_log=False)
                o['elig'].append(dict(lab=j + 1, isv=isv, ok=bool(r[0]), disp=r[3], idx=r[4]))
    o['steps'].append(dict(q='elig', a='', st=st(), st2=st2(), env=env()))
    # an LGR and its copies share nothing
    c, d = copy.deepcopy(lgr), pickle.loads(pickle.dumps(lgr))
    o['shared'] = detach.shared([c], [d, lgr]) + detach.shared([d], [lgr])
    return o


CFG = '''CONSTANTS Kinds = {"elig", "gen", "index", "validate", "compare", "ser", "look"}
Slots = {"g0", "g1"}
MaxLen = %d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
INVARIANT Emit
'''


def run(ctx):
    rng = ctx.rng
    out = common.model_phase(ctx, 'MC_History', CFG % ctx.scale(3, 4), workers=1)
    cases = []
    pool = [rand_case(rng) for _ in range(60)]
    hists = common.printed_cases(out)
    if len(hists) > ctx.scale(1200, 9000):
        hists = rng.sample(hists, ctx.scale(1200, 9000))
    for h in hists:
        h = [dict(x, n=rng.randint(0, 5)) for x in h]
        for x in h:
            if x['op'] == 'ask':
                x['k'] = rng.choice(GROUPS[x['k']])
        cases.append(dict(rng.choice(pool), hist=h))
    for _ in range(ctx.scale(600, 5000)):
        c = rand_case(rng)
        c['hist'] = rand_hist(rng, rng.randint(4, 12))
        cases.append(c)
    common.trace_phase(ctx, 'c26', SPEC, cases, secs=30.0)
