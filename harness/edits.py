"""Editing histories (C07, C08, C09, C27): random and model-generated trees of calls on a real LGR."""
import common, gen

SPEC = 'T_EDIT'
BASE = dict(op='', parent=0, cp=[], var=[], first=0, last=0, com='', refs=[], tags=[], when='', nwhen='', type='', id='', idok=True,
            value='', ovr=False, force=False, hasval=False, val=[], list=[])
IDS = [('0', True), ('1', True), ('2', True), ('A-1', True), ('B.2', True), ('10', True), ('-3', True), ('07', True), ('x y', False),
       ('abc', False), ('A b', False), ('É', False)]


def mk(op, **k):
    d = dict(BASE, op=op)
    d.update(k)
    return d


class Gen(object):
    def __init__(self, rng, alpha, weights, pclean=0.8, inv=(), valp=0.0, forcep=0.0):
        self.rng, self.alpha, self.w = rng, alpha, weights
        self.ranges, self.cps, self.vars = [], [], []
        self.ids = []
        self.pclean, self.valp, self.forcep, self.inv = pclean, valp, forcep, list(inv)

    def cp(self, known=.45):
        r = self.rng
        if self.cps and r.random() < known:
            return list(r.choice(self.cps))
        if r.random() < .02:
            return []
        n = 1 if r.random() < .7 else r.randint(2, 3)
        return [r.choice(self.alpha) for _ in range(n)]

    def refs(self):
        r = self.rng
        if r.random() < .55:
            return []
        pool = self.ids if self.ids and r.random() < .85 else [i for i, _ in IDS]
        out = r.sample(pool, min(len(pool), r.randint(1, 2)))
        if r.random() < .06:
            out = out + out[:1]
        return out

    def ctx(self):
        r = self.rng
        x = r.random()
        if x < .65:
            return '', ''
        if x < .8:
            return r.choice(['w0', 'w1']), ''
        if x < .95:
            return '', r.choice(['w0', 'w1'])
        return 'w0', 'w1'

    def tags(self):
        r = self.rng
        if r.random() < .5:
            return []
        t = r.sample(['t0', 't1', 't2'], r.randint(1, 2))
        if r.random() < .05:
            t = t + t[:1]
        return t

    def common(self, d, tags=True):
        r = self.rng
        d['com'] = r.choice(['', '', 'note', 'other'])
        d['refs'] = self.refs()
        d['when'], d['nwhen'] = self.ctx()
        if tags:
            d['tags'] = self.tags() if len(d['cp']) <= 1 or r.random() < .1 else []
        if r.random() < self.valp:
            d['hasval'] = True
            d['val'] = [c for c in self.alpha if r.random() < .6]
            d['ovr'] = r.random() < .4
        if r.random() < self.forcep:
            d['force'] = True
            d['refs'] = list(dict.fromkeys(d['refs']))
            d['tags'] = list(dict.fromkeys(d['tags'])) if len(d['cp']) <= 1 else []
        return d

    def rng_pair(self, existing=.5):
        r = self.rng
        if self.ranges and r.random() < existing:
            return r.choice(self.ranges)
        a = r.choice(self.alpha)
        b = a + r.choice([1, 1, 2, 3, -1] if r.random() < .3 else [1, 1, 2, 3])
        return a, b

    def op(self):
        r = self.rng
        names = list(self.w)
        o = r.choices(names, [self.w[n] for n in names])[0]
        if o == 'add_cp':
            d = self.common(mk(o, cp=self.cp()))
            if d['cp']:
                self.cps.append(tuple(d['cp']))
            return d
        if o == 'del_cp':
            return mk(o, cp=self.cp(.75))
        if o == 'add_range':
            a = r.choice(self.alpha)
            b = a + r.choice([0, 1, 2, 2, 3, 4])
            if r.random() < .03:
                b = a - 1
            self.ranges.append((a, b))
            self.cps += [(c,) for c in range(a, b + 1)]
            return self.common(mk(o, first=a, last=b))
        if o == 'rep_range':
            a = r.choice(self.alpha)
            b = a + r.choice([1, 2, 3, 5])
            self.ranges.append((a, b))
            w, n = self.ctx()
            return mk(o, first=a, last=b, com=r.choice(['', 'rr']), when=w, nwhen=n)
        if o in ('del_range', 'expand_range'):
            a, b = self.rng_pair(.8)
            if a == b:
                b = a + 1
            return mk(o, first=a, last=b)
        if o == 'check_range':
            a, b = self.rng_pair(.3)
            return self.common(mk(o, first=a, last=b))
        if o == 'add_variant':
            if self.vars and r.random() < .3:
                c, v, w, n = r.choice(self.vars[-4:])
                d = self.common(mk(o, cp=c, var=v, type=r.choice(['', 'y'])), tags=False)
                if r.random() < .3:
                    d['when'], d['nwhen'] = w, n
                else:   # a namesake under other rules
                    d['when'], d['nwhen'] = r.choice([('w0', ''), ('w1', ''), ('', 'w0'), ('', 'w1'), ('', '')])
                    self.vars.append((c, v, d['when'], d['nwhen']))
                return d
            d = self.common(mk(o, cp=self.cp(.8), var=self.cp(), type=r.choice(['', 'blocked', 'allocatable', 'x'])), tags=False)
            self.vars.append((d['cp'], d['var'], d['when'], d['nwhen']))
            return d
        if o == 'del_variant':
            if self.vars and r.random() < .8:
                c, v, w, n = r.choice(self.vars)
                if r.random() < .15:
                    w, n = self.ctx()
                return mk(o, cp=c, var=v or [self.alpha[0]], when=w, nwhen=n)
            w, n = self.ctx()
            return mk(o, cp=self.cp(), var=self.cp() or [self.alpha[0]], when=w, nwhen=n)
        if o == 'del_tag':
            return mk(o, id=r.choice(['t0', 't1', 't2', 't9']))
        if o == 'add_ref':
            if r.random() < .45:
                for k in range(4):
                    if str(k) not in self.ids:
                        self.ids.append(str(k))
                        break
                return mk(o, id='', value=r.choice(['v', 'w']), com=r.choice(['', 'c']))
            i, ok = r.choice(IDS)
            if ok:
                self.ids.append(i)
                self.ids = list(dict.fromkeys(self.ids))
            return mk(o, id=i, idok=ok, value=r.choice(['v', 'w']), com=r.choice(['', 'c']))
        if o == 'del_ref':
            return mk(o, id=r.choice(self.ids) if self.ids and r.random() < .85 else r.choice(IDS)[0])
        if o == 'upd_ref':
            return mk(o, id=r.choice(self.ids) if self.ids and r.random() < .85 else r.choice(IDS)[0], value=r.choice(['', 'nv']),
                      com=r.choice(['', 'nc']))
        if o == 'add_codepoints':
            k = r.randint(1, min(5, len(self.alpha)))
            d = mk(o, list=r.sample(self.alpha, k), com=r.choice(['', 'bulk']), tags=self.tags()[:1], refs=self.refs()[:1])
            self.cps += [(c,) for c in d['list']]
            return d
        return mk(o)


def namesakes(rng, g, ops):
    """Several variants of the same code points under different rules, some of them deleted, in between other calls."""
    c, v = g.cp(.9) or [g.alpha[0]], g.cp() or [g.alpha[0]]
    own = [mk('add_cp', cp=c)] if rng.random() < .8 else []
    rules = rng.sample([('', ''), ('w0', ''), ('w1', ''), ('', 'w0'), ('', 'w1')], rng.randint(2, 4))
    own += [mk('add_variant', cp=c, var=v, type=rng.choice(['', 'blocked', 'x']), when=w, nwhen=n) for w, n in rules]
    own += [mk('del_variant', cp=c, var=v, when=w, nwhen=n) for w, n in rng.sample(rules, rng.randint(1, len(rules) - 1))]
    at = sorted(rng.randint(0, len(ops)) for _ in own)
    out = list(ops)
    for k, d in reversed(list(zip(at, own))):
        out.insert(k, d)
    return out


def history(rng, n, alpha, weights, inv=(), strict=True, valp=0.0, forcep=0.0, seed_ops=()):
    g = Gen(rng, alpha, weights, inv=inv, valp=valp, forcep=forcep)
    for d in seed_ops:
        if d['op'] == 'add_ref' and d['id']:
            g.ids.append(d['id'])
    ops = [g.op() for _ in range(n)]
    if weights.get('del_variant') and rng.random() < .3:
        ops = namesakes(rng, g, ops)
    ops = [dict(d) for d in seed_ops] + ops
    for k, d in enumerate(ops):
        d['parent'] = k
    probes = probe_set(rng, ops, alpha)
    return dict(ops=ops, inv=list(inv), strict=strict, db=bool(inv), probes=probes)


def probe_set(rng, ops, alpha):
    p = {(rng.choice(alpha),) for _ in range(3)}
    pool = sorted({tuple(d['cp']) for d in ops if d['cp']} | {(d['first'],) for d in ops if d['first']} |
                  {(d['last'],) for d in ops if d['last']})
    rng.shuffle(pool)
    p |= set(pool[:6])
    return [list(x) for x in sorted(p)]


# ------------------------------------------------------------------ the real thing
def none(x):
    return x if x != '' else None


def call(lgr, d):
    """Make the call; returns (exception name, ret, cps, rets, retok)."""
    import re
    from lgr.core import LGR
    o, k = d['op'], {}
    if o in ('add_cp', 'add_range', 'add_variant'):
        if d['com']:
            k['comment'] = d['com']
        if d['refs']:
            k['ref'] = list(d['refs'])
        if d['when']:
            k['when'] = d['when']
        if d['nwhen']:
            k['not_when'] = d['nwhen']
        if d['force']:
            k['force'] = True
        if d['ovr']:
            k['override_repertoire'] = True
        if d['tags'] and o != 'add_variant':
            k['tag'] = list(d['tags'])
    if d['hasval']:
        v = LGR()
        if len(d['val']) % 3 == 0:
            for a, b in gen.runs(sorted(d['val'])):
                v.add_range(a, b) if b > a else v.add_cp([a])
        else:
            for c in d['val']:
                v.add_cp([c])
        if len(d['val']) % 2 == 0:      # sequences and variants put no code point of theirs in a repertoire
            for c in sorted(set(d['cp'] + d['var'] + d['list'] + list(range(d['first'], d['last'] + 1))) - set(d['val'])):
                v.add_cp([c, 0x3b2])
                v.add_cp([0x3b2, c])
                v.add_variant([c, 0x3b2], [c])
        k['validating_repertoire'] = v
    if o == 'add_cp':
        lgr.add_cp(d['cp'][0] if len(d['cp']) == 1 and d['com'] == 'note' else list(d['cp']), **k)
    elif o == 'del_cp':
        lgr.del_cp(d['cp'])
    elif o == 'add_range':
        lgr.add_range(d['first'], d['last'], **k)
    elif o == 'del_range':
        lgr.del_range(d['first'], d['last'])
    elif o == 'expand_range':
        lgr.expand_range(d['first'], d['last'])
    elif o == 'expand_ranges':
        lgr.expand_ranges()
    elif o == 'rep_range':
        lgr.repertoire.add_range(d['first'], d['last'], comment=none(d['com']), when=none(d['when']), not_when=none(d['nwhen']))
    elif o == 'add_variant':
        if d['type']:
            k['variant_type'] = d['type']
        lgr.add_variant(d['cp'], d['var'], **k)
    elif o == 'del_variant':
        r = lgr.del_variant(d['cp'], d['var'], when=none(d['when']), not_when=none(d['nwhen']))
        return 'true' if r is True else 'false' if r is False else repr(r), [], [], True
    elif o == 'del_tag':
        lgr.del_tag(d['id'])
    elif o == 'add_ref':
        k = {}
        if d['com']:
            k['comment'] = d['com']
        if d['id']:
            k['ref_id'] = d['id']
        r = lgr.add_reference(d['value'], **k)
        return r if isinstance(r, str) else repr(r), [], [], bool(isinstance(r, str) and re.match(r'[-_.:0-9A-Z]*\Z', r))
    elif o == 'del_ref':
        lgr.del_reference(d['id'])
    elif o == 'upd_ref':
        lgr.reference_manager.update_reference(d['id'], value=none(d['value']), comment=none(d['com']))
    elif o == 'add_codepoints':
        lgr.add_codepoints(list(d['list']), comment=none(d['com']), ref=list(d['refs']) or None, tag=list(d['tags']) or None)
    elif o == 'check_range':
        r = lgr.check_range(d['first'], d['last'], **({'validating_repertoire': k['validating_repertoire']} if d['hasval'] else {}))
        return '', [int(c) for c, _ in r], ['' if e is None else common.exc_name(e) for _, e in r], True
    else:
        raise ValueError(o)
    return '', [], [], True


def name_of(f, *a):
    try:
        return '', f(*a)
    except Exception as e:
        return common.exc_name(e), None


def project(lgr, probes):
    import real
    from lgr.char import RangeChar
    S = real.s

    def rng(c):
        return [int(c.first_cp), int(c.last_cp)] if isinstance(c, RangeChar) else []

    rep = lgr.repertoire
    chars = []
    for c in rep.all_repertoire():
        chars.append(dict(cp=real.cps(c.cp), when=S(c.when), nwhen=S(c.not_when), tags=[S(t) for t in c.tags],
                          refs=[S(x) for x in c.references], com=S(c.comment), rng=rng(c),
                          vars=[dict(cp=real.cps(v.cp), when=S(v.when), nwhen=S(v.not_when), type=S(v.type),
                                     refs=[S(x) for x in v.references], com=S(v.comment)) for v in c.get_variants()]))
    chars.sort(key=lambda e: e['cp'])
    pr = []
    for p in probes:
        get, ch = name_of(lgr.get_char, p)
        ce, chk = name_of(lgr.check_cp, p)
        ve, vs = name_of(lambda: list(lgr.get_variants(p)))
        nv = len(vs) if not ve else -1
        if not ve:   # the other way to ask for the same
            same = {}
            for v in vs:
                same.setdefault(v.cp, []).append(v)
            for vcp, lst in same.items():
                e, got = name_of(lgr.get_variant, p, vcp)
                if e or [id(x) for x in got] != [id(x) for x in lst]:
                    nv = -2
        pr.append(dict(cp=p, mem=bool(p in rep) and (len(p) > 1 or bool(p[0] in rep)), get=get,
                       chk=ce or ('true' if chk is True else 'false' if chk is False else 'odd'), nvars=nv))
    pf = []
    for c in sorted({p[0] for p in probes}):
        e, l1 = name_of(rep.get_chars_from_prefix, c)
        e2, l2 = name_of(lambda: rep.get_chars_from_prefix(c, only_variants=True))
        pf.append(dict(c=c, exc=e, cps=[real.cps(x.cp) for x in l1 or ()], vcps=[real.cps(x.cp) for x in l2 or ()]))
    tc = [dict(tag=t, cps=sorted(int(x) for x in k.codepoints)) for t, k in sorted(lgr.get_tag_classes().items())]
    return dict(chars=chars, len=len(rep), ranges=[[int(a), int(b)] for a, b in rep.ranges],
                iter=[dict(cp=real.cps(c.cp), rng=rng(c)) for c in rep], probes=pr, prefix=pf, tagcls=tc,
                vsets=[[real.cps(c) for c in vs] for vs in rep.get_variant_sets()],
                alltags=[S(t) for t in lgr.all_tags()],
                refs=[dict(id=S(i), value=S(r.get('value')), com=S(r.get('comment'))) for i, r in lgr.reference_manager.items()])


def fresh(case):
    from lgr.core import LGR
    db = common.unidb() if case['db'] else None
    return LGR(unicode_database=db, allow_invalid_property=not case['strict'])


def one_step(lgr, d, probes):
    try:
        ret, cps, rets, ok = call(lgr, d)
        o = dict(exc='', ret=ret, cps=cps, rets=rets, retok=ok)
    except Exception as e:
        o = dict(exc=common.exc_name(e), ret='', cps=[], rets=[], retok=True)
    o.update(project(lgr, probes))
    return o


def observe(case):
    ops = case['ops']
    steps = [None] * len(ops)
    path, lgr = [], fresh(case)
    for k, d in enumerate(ops):
        want = []
        p = d['parent']
        while p:
            want.append(p - 1)
            p = ops[p - 1]['parent']
        want.reverse()
        if path != want:    # another branch: replay the prefix on a new object
            lgr, path = fresh(case), []
            for j in want:
                try:
                    call(lgr, ops[j])
                except Exception:
                    pass
            path = want
        steps[k] = one_step(lgr, d, case['probes'])
        path = want + [k]
    return dict(steps=steps)


C07 = ('entries', 'attributes', 'variants-listed', 'size', 'ranges', 'iteration', 'lookup', 'prefix', 'variant-sets',
       'tags-carried', 'citations')
C08 = ('tags-carried', 'tag-class', 'tag-list', 'tag-removed')
C09 = ('citations', 'reference-table', 'dangling')
ENTRY_OPS = ('add_cp', 'del_cp', 'add_range', 'del_range', 'expand_range', 'expand_ranges', 'rep_range', 'add_variant', 'del_variant',
             'add_codepoints')
REF_OPS = ('add_ref', 'del_ref', 'upd_ref')


def keeper(names, ops):
    def keep(clauses):
        return [c for c in clauses if c in names or c == 'unevaluable' or
                (c.split('-', 1)[0] in ('outcome', 'result') and c.split('-', 1)[1] in ops)]
    return keep


def model(ctx, name, ops, depth, strict=True, inv=(), probes=(), limit=None):
    """Exhaustive histories of the editing machine over `ops`; every state's history is replayed, then every call tried."""
    import json, os
    opf, parf = os.path.join(ctx.tmp, 'ops.json'), os.path.join(ctx.tmp, 'par.json')
    with open(opf, 'w') as f:
        json.dump(ops, f)
    with open(parf, 'w') as f:
        json.dump(dict(depth=depth, strict=strict, inv=list(inv)), f)
    cfg = 'SPECIFICATION Spec\nVIEW View\nINVARIANT WF\nINVARIANT Emit\nPROPERTY Local\nCHECK_DEADLOCK FALSE\n'
    out = common.model_phase(ctx, 'MC_Edits', cfg, workers=1, env=dict(OPS=opf, PAR=parf))
    cases = []
    for path in common.printed_cases(out):
        steps = [dict(ops[k - 1], parent=j) for j, k in enumerate(path)]
        n = len(steps)
        steps += [dict(d, parent=n) for d in ops]
        cases.append(dict(ops=steps, inv=list(inv), strict=strict, db=bool(inv), probes=[list(p) for p in probes]))
    ctx.notes.setdefault('model_states_replayed', {})[name] = len(cases)
    if limit and len(cases) > limit:
        cases = ctx.rng.sample(cases, limit)
    return cases
