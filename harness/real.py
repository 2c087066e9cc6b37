"""Building real LGR objects from abstract documents, and projecting them back (public API only)."""
import io, sys
from common import unidb, exc_name
import gen


def parse_xml(xml, db=True, force=True, name='t.xml', parser_db=True):
    from lgr.parser.xml_parser import XMLParser
    p = XMLParser(io.BytesIO(xml.encode('utf-8')), name, force=force)
    if db and parser_db:
        p.unicode_database = unidb()
    lgr = p.parse_document()
    if db and not parser_db:
        lgr.unicode_database = unidb()
    return lgr


def build(doc, db=True, parser_db=True, force=True):
    d = dict(doc)
    if d.get('meta') is None:
        d['meta'] = dict(unicode_version='15.1.0')
    return parse_xml(gen.to_xml(d), db=db, parser_db=parser_db, force=force)


def catch(f, *a, **k):
    try:
        return f(*a, **k), ''
    except Exception as e:
        return None, exc_name(e)


def s(x):
    return '' if x is None else str(x)


def cps(x):
    return [int(c) for c in x]


# ------------------------------------------------------------------ building through the programming interface
def mk_class(c, name=None):
    from lgr.classes import (Class, ComplementClass, UnionClass, IntersectionClass, DifferenceClass,
                             SymmetricDifferenceClass)
    t = c['t']
    if t == 'cps':
        return Class(name=name, codepoints=c['cps'])
    if t == 'tag':
        return Class(name=name, from_tag=c['tag'])
    if t == 'prop':
        return Class(name=name, unicode_property='%s:%s' % (c['name'], c['value']))
    if t == 'cref':
        return Class(by_ref=c['name'])
    k = dict(union=UnionClass, inter=IntersectionClass, diff=DifferenceClass, symd=SymmetricDifferenceClass,
             compl=ComplementClass)[t](name=name)
    for x in c['kids']:
        k.add_child(mk_class(x))
    return k


def count_of(n):
    if not n.get('cnt'):
        return None
    if n['max'] == -1:
        return '%d+' % n['min']
    return '%d' % n['min'] if n['max'] == n['min'] else '%d:%d' % (n['min'], n['max'])


def mk_matcher(n):
    from lgr import matcher as m
    from lgr.rule import Rule
    t = n['t']
    if t == 'start':
        return m.StartMatcher()
    if t == 'end':
        return m.EndMatcher()
    if t == 'anchor':
        return m.AnchorMatcher()
    if t == 'any':
        return m.AnyMatcher(count=count_of(n))
    if t == 'char':
        return m.CharMatcher(n['cps'], count=count_of(n))
    if t == 'class':
        return m.ClassMatcher(mk_class(n['cls']), count=count_of(n))
    if t == 'ref':
        return m.RuleMatcher(Rule(by_ref=n['name']), count=count_of(n))
    if t == 'rule':
        r = Rule()
        for k in n['kids']:
            r.add_child(mk_matcher(k))
        return m.RuleMatcher(r, count=count_of(n))
    x = m.ChoiceMatcher(count=count_of(n)) if t == 'choice' else \
        m.LookAheadMatcher() if t == 'ahead' else m.LookBehindMatcher()
    for k in n['kids']:
        x.add_child(mk_matcher(k))
    return x


def mk_rule(d):
    from lgr.rule import Rule
    r = Rule(name=d['name'])
    for k in d['kids']:
        r.add_child(mk_matcher(k))
    return r
