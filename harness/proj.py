"""Projection of a whole LGR to plain data, through public attributes only."""
import real

S = real.s


def var(v):
    return dict(cp=real.cps(v.cp), when=S(v.when), nwhen=S(v.not_when), type=S(v.type), refs=[S(x) for x in v.references], com=S(v.comment))


def entry(c):
    from lgr.char import RangeChar
    rng = [int(c.first_cp), int(c.last_cp)] if isinstance(c, RangeChar) else []
    return dict(cp=real.cps(c.cp), rng=rng, when=S(c.when), nwhen=S(c.not_when), tags=[S(t) for t in c.tags],
                refs=[S(x) for x in c.references], com=S(c.comment), vars=[var(v) for v in c.get_variants()])


def chars(lgr):
    """Entries in iteration order, a range once."""
    return [entry(c) for c in lgr.repertoire]


def flat_chars(lgr):
    """Every code point and sequence, ranges member by member."""
    return sorted((entry(c) for c in lgr.repertoire.all_repertoire()), key=lambda e: e['cp'])


def meta(lgr):
    m = lgr.metadata
    d = m.description
    v = m.version
    return dict(version=[] if v is None else [S(v.value), S(v.comment)], date=S(m.date), langs=[S(x) for x in m.languages],
                scopes=[[S(x.value), S(x.scope_type)] for x in m.scopes], vstart=S(m.validity_start), vend=S(m.validity_end),
                uver=S(m.unicode_version), desc=[] if d is None else [S(d.value), S(d.description_type)])


def refs(lgr):
    return [dict(id=S(i), value=S(r.get('value')), com=S(r.get('comment'))) for i, r in lgr.reference_manager.items()]


def action(a):
    vk, vs = 'none', []
    for k, x in (('any', a.any_variant), ('all', a.all_variants), ('only', a.only_variants)):
        if x:
            vk, vs = k, sorted(x)
    return dict(disp=S(a.disp), match=S(a.match), nmatch=S(a.not_match), vk=vk, vs=vs, com=S(a.comment), refs=[S(x) for x in a.references])


def cls(c):
    return dict(name=S(c.name), com=S(c.comment), refs=[S(x) for x in c.references], text=str(c))


def full(lgr):
    return dict(name=S(lgr.name), meta=meta(lgr), refs=refs(lgr), chars=chars(lgr), nchars=len(lgr.repertoire),
                ranges=[[int(a), int(b)] for a, b in lgr.repertoire.ranges],
                classes=[cls(lgr.classes_lookup[n]) for n in lgr.classes], rules=[cls(lgr.rules_lookup[n]) for n in lgr.rules],
                lookups=[sorted(map(S, lgr.classes_lookup)), sorted(map(S, lgr.rules_lookup))],
                tagcls=[[S(t), sorted(int(x) for x in k.codepoints)] for t, k in sorted(lgr.get_tag_classes().items())],
                actions=[action(a) for a in lgr.actions], types=sorted(S(t) for t in lgr.types),
                xml=[list(map(S, lgr.classes_xml)), list(map(S, lgr.rules_xml)), list(map(S, lgr.actions_xml))])
