"""The results of an operation share nothing with its inputs: editing one leaves the other as it was."""
import proj


def churn(l, word):
    """Edit everything there is to edit."""
    from lgr.metadata import Scope
    def cite(x):
        if isinstance(getattr(x, 'references', None), list):
            x.references.append('9' + word)
    for c in list(l.repertoire):
        c.comment = word
        cite(c)
        if isinstance(c.tags, list):
            c.tags.append(word)
        for v in list(c.get_variants()):
            v.comment = v.type = word
            cite(v)
        try:
            c.add_variant(tuple(map(ord, word)), variant_type='blocked')
        except Exception:
            pass
    m = l.metadata
    try:
        m.add_language('zz' + word, force=True)
    except Exception:
        pass
    for x in (m.version, m.description):
        if x is not None:
            x.value = word
    del m.scopes[:1]
    m.scopes.append(Scope(word))
    try:
        l.add_reference(word, 'c', '99' + word)
    except Exception:
        pass
    for _, d in l.reference_manager.items():
        d['comment'] = word
    for x in l.actions:
        x.comment = x.disp = word
        cite(x)
    for d in (l.classes_lookup, l.rules_lookup):
        for x in d.values():
            x.comment = word
            cite(x)
    for x in (l.classes, l.rules):
        del x[-1:]
    for x in (l.classes_xml, l.rules_xml, l.actions_xml):
        x.append(word)
    l.types.add(word)
    for k in l.get_tag_classes().values():
        k.codepoints.add(0x7b)
    # and take away
    for c in list(l.repertoire)[:1]:
        try:
            l.del_cp(c.cp)
        except Exception:
            pass
    del l.actions[1:2]


def shared(results, inputs):
    """The parts of either that change when the other is edited."""
    out = []
    for word, edited, others in (('qa', results, inputs), ('qb', inputs, results)):
        before = [proj.full(x) for x in others]
        for x in edited:
            churn(x, word)
        for b, x in zip(before, others):
            a = proj.full(x)
            out += [('input ' if word == 'qa' else 'result ') + k for k in b if a[k] != b[k]]
    return sorted(set(out))
