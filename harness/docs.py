"""Rich LGR documents: metadata, references, comments; several ways to write the same document; an independent reader."""
import random
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
import gen

NS = gen.NS
LISTS = ('ref', 'tag', 'any-variant', 'all-variants', 'only-variants')
TEXTS = ['x', 'a & b', '<b>"q"</b>', "it's", 'a  b', 'né Ω', '漢字 𐌰', 'p]]>q', 'l1\nl2', 'tab\there', '&amp;', '-- x', '0', '{%s}', 'é']
DATES = ['2010-01-01', '2012-02-29', '1999-12-31', '2024-10-05']
LANGS = ['en', 'fr', 'und-Latn', 'zh-Hans', 'sr-Latn', 'und-Cyrl', 'el']


def rich(rng, doc, vals=None):
    """Decorate a random document with metadata, references and comments (in place)."""
    texts = vals or TEXTS
    m = {}
    if rng.random() < .9:
        if rng.random() < .6:
            m['version'] = rng.choice(['1', '2.0', 'v 3', 'draft'] + texts[:3])
            if rng.random() < .5:
                m['version_comment'] = rng.choice(texts)
        if rng.random() < .6:
            m['date'] = rng.choice(DATES)
        if rng.random() < .6:
            m['languages'] = rng.sample(LANGS, rng.randint(1, 3))
        if rng.random() < .6:
            m['scopes'] = [[rng.choice(['example.com', '.', 'a.b'] + texts[:2]), rng.choice(['domain', 'http://x.y/z?a=1&b', ''])]
                           for _ in range(rng.randint(1, 3))]
        if rng.random() < .4:
            m['validity_start'] = rng.choice(DATES)
        if rng.random() < .4:
            m['validity_end'] = rng.choice(DATES)
        if rng.random() < .7:
            m['unicode_version'] = rng.choice(['6.3.0', '15.1.0', '10.0.0'])
        if rng.random() < .5:
            m['description'] = rng.choice(texts)
            m['description_type'] = rng.choice(['', 'text/plain', 'text/html', 'text/html', 'x/unknown'])
        if rng.random() < .75:
            ids = rng.sample(['0', '1', '2', '10', 'A', 'B-1', 'Z_.:9', '007'], rng.randint(1, 5))
            m['refs'] = [dict(id=i, value=rng.choice(texts), comment=rng.choice(texts) if rng.random() < .4 else '') for i in ids]
    doc['meta'] = m
    ids = [r['id'] for r in m.get('refs', ())]

    def deco(x):
        if ids and rng.random() < .5:
            x['refs'] = rng.sample(ids, rng.randint(1, min(3, len(ids))))
        else:
            x.setdefault('refs', [])
        x['comment'] = rng.choice(texts) if rng.random() < .35 else ''
    for it in doc['items']:
        deco(it)
        for v in it.get('vars', ()):
            deco(v)
    for d in doc['decls']:
        deco(d)
        if d['k'] == 'class' and d['def']['t'] not in ('cps', 'tag', 'prop'):
            d['refs'] = []
    return doc


# ------------------------------------------------------------------ writing in many styles
def ws(rng, style, need=False):
    if style['ws'] == 0:
        return ' ' if need else ''
    return ''.join(rng.choice([' ', '\n', '\t', '  ']) for _ in range(rng.randint(1 if need else 0, 2)))


def att(rng, style, name, val):
    if name in LISTS and style['lists']:
        val = rng.choice(['', ' ']) + (' ' * rng.randint(1, 3)).join(val.split()) + rng.choice(['', '  '])
    q = escape(val, {'"': '&quot;', '\n': '&#10;', '\t': '&#9;'})
    if style['refs'] and q == val and rng.random() < .3 and val:
        q = '&#x%X;' % ord(val[0]) + val[1:]
    if style['quote'] and "'" not in q and '&quot;' not in q:
        return "%s%s=%s'%s'" % (name, ws(rng, style), ws(rng, style), q)
    return '%s%s=%s"%s"' % (name, ws(rng, style), ws(rng, style), q)


ASIDE = ['<!-- c -->', '<!-- <char cp="0070"/> -->', '<!---->', '<?note x="<char/>"?>', '<?pi?>']


def comment(rng, style):
    return rng.choice(ASIDE) if style['com'] and rng.random() < .3 else ''


TEXTUAL = ('version', 'date', 'language', 'scope', 'validity-start', 'validity-end', 'unicode-version', 'description', 'reference')


def emit(e, rng, style, top=True):
    tag = e.tag.split('}')[1]
    p = style['prefix']
    ats = [att(rng, style, k, v) for k, v in e.attrib.items()]
    if style['shuf']:
        rng.shuffle(ats)
    if top:
        ats.insert(rng.randint(0, len(ats)), 'xmlns%s="%s"' % (':' + p[:-1] if p else '', NS))
    head = '<' + p + tag + ''.join((ws(rng, style, True)) + a for a in ats)
    if tag in TEXTUAL:
        t = e.text or ''
        if tag == 'description' and style['cdata'] and ']]>' not in t:
            body = '<![CDATA[' + t + ']]>'
        else:
            k = rng.randint(0, len(t))
            body = escape(t[:k]) + comment(rng, style) + escape(t[k:])
        return head + '>' + body + '</' + p + tag + '>'
    kids = list(e)
    if tag == 'rules' and style['mix']:
        kids = interleave(rng, kids)
    if tag == 'meta' and style['shuf']:
        kids = shuffle_meta(rng, kids)
    body = ''
    if tag == 'class' and e.text and e.text.strip():
        toks = e.text.split()
        if style['cranges']:
            spans = [[int(x, 16) for x in t.split('-')] for t in toks]
            toks = compress(rng, [c for s in spans for c in range(s[0], s[-1] + 1)])
        body = ws(rng, style) + (ws(rng, style, True)).join(toks) + ws(rng, style)
        if style['com'] and rng.random() < .3:
            k = rng.randint(0, len(toks))
            body = ' '.join(toks[:k]) + ws(rng, style, True) + rng.choice(ASIDE) + ' '.join(toks[k:]) + ws(rng, style)
    for k in kids:
        body += ws(rng, style) + comment(rng, style) + emit(k, rng, style, False)
    if kids:
        body += comment(rng, style) + ws(rng, style)
    if not body and tag != 'class' and style['self']:
        return head + ws(rng, style) + '/>'
    return head + '>' + body + '</' + p + tag + '>'


def compress(rng, cps):
    out, k = [], 0
    while k < len(cps):
        j = k
        while j + 1 < len(cps) and cps[j + 1] == cps[j] + 1:
            j += 1
        if j > k:
            out.append('%04X-%04X' % (cps[k], cps[j]))
        else:
            out.append(rng.choice(['%04X', '%04x', '%06X']) % cps[k])
        k = j + 1
    return out


def interleave(rng, kids):
    """Any order that keeps the declarations before their uses: move actions between."""
    acts = [k for k in kids if k.tag.endswith('}action')]
    rest = [k for k in kids if not k.tag.endswith('}action')]
    pos = sorted(rng.randint(0, len(rest)) for _ in acts)
    out = []
    for n in range(len(rest) + 1):
        while pos and pos[0] == n:
            out.append(acts.pop(0))
            pos.pop(0)
        if n < len(rest):
            out.append(rest[n])
    return out


def shuffle_meta(rng, kids):
    """Elements of different names may come in any order."""
    names = []
    for k in kids:
        if k.tag not in names:
            names.append(k.tag)
    rng.shuffle(names)
    return [k for n in names for k in kids if k.tag == n]


def rand_style(rng):
    s = {k: rng.random() < .4 for k in ('shuf', 'com', 'cdata', 'lists', 'refs', 'quote', 'mix', 'cranges')}
    s['self'] = rng.random() < .7
    s['ws'] = rng.randint(0, 1)
    s['prefix'] = rng.choice(['', '', '', 'l:'])
    s['decl'] = rng.choice(['<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="utf-8"?>', '', "<?xml version='1.0' encoding='UTF-8' standalone='yes'?>"])
    s['nometa'] = rng.random() < .5
    s['norules'] = rng.random() < .5
    return s


def write(doc, rng, style):
    root = ET.fromstring(gen.to_xml(doc).split('?>', 1)[1].strip())
    meta = root.find('{%s}meta' % NS)
    if meta is not None and len(meta) == 0 and style['nometa']:
        root.remove(meta)
    rules = root.find('{%s}rules' % NS)
    if rules is None and not style['norules']:
        ET.SubElement(root, '{%s}rules' % NS)
    return style['decl'] + comment(rng, style) + emit(root, rng, style) + comment(rng, style)


# ------------------------------------------------------------------ abstract documents
def tree(e):
    """Canonical form of a declaration element."""
    tag = e.tag.split('}')[-1]
    at = []
    for k, v in sorted(e.attrib.items()):
        if k in LISTS:
            v = ' '.join(v.split())
        at.append([k, v])
    toks = []
    if tag == 'class' and len(e) == 0:
        for t in (e.text or '').split():
            if '-' in t:
                a, b = t.split('-')
                toks += list(range(int(a, 16), int(b, 16) + 1))
            else:
                toks.append(int(t, 16))
    return dict(tag=tag, at=at, tx=toks, kids=[tree(k) for k in e])


def read(text):
    """Independent reader: XML text -> abstract document."""
    root = ET.fromstring(text)
    q = lambda n: '{%s}%s' % (NS, n)
    m = dict(version=[], date='', langs=[], scopes=[], vstart='', vend='', uver='', desc=[])
    refs = []
    meta = root.find(q('meta'))
    for c in (meta if meta is not None else []):
        t, tx = c.tag.split('}')[1], c.text or ''
        if t == 'version':
            m['version'] = [tx, c.get('comment', '')]
        elif t == 'date':
            m['date'] = tx
        elif t == 'language':
            m['langs'].append(tx)
        elif t == 'scope':
            m['scopes'].append([tx, c.get('type', '')])
        elif t == 'validity-start':
            m['vstart'] = tx
        elif t == 'validity-end':
            m['vend'] = tx
        elif t == 'unicode-version':
            m['uver'] = tx
        elif t == 'description':
            m['desc'] = [tx, c.get('type', '')]
        elif t == 'references':
            refs = [dict(id=r.get('id'), value=r.text or '', com=r.get('comment', '')) for r in c]
        else:
            raise ValueError('unexpected ' + t)
    items = []
    for c in root.find(q('data')):
        base = dict(when=c.get('when', ''), nwhen=c.get('not-when', ''), tags=c.get('tag', '').split(), refs=c.get('ref', '').split(),
                    com=c.get('comment', ''))
        if c.tag == q('range'):
            a, b = int(c.get('first-cp'), 16), int(c.get('last-cp'), 16)
            items.append(dict(base, cp=[a], rng=[a, b], vars=[]))
        else:
            vs = [dict(cp=[int(x, 16) for x in v.get('cp').split()], when=v.get('when', ''), nwhen=v.get('not-when', ''),
                       type=v.get('type', ''), refs=v.get('ref', '').split(), com=v.get('comment', '')) for v in c]
            items.append(dict(base, cp=[int(x, 16) for x in c.get('cp').split()], rng=[], vars=vs))
    rules = root.find(q('rules'))
    return dict(meta=m, refs=refs, items=items, decls=[tree(d) for d in (rules if rules is not None else [])],
                order=[c.tag.split('}')[1] for c in root])


def abstract(doc):
    """What the document says, as the specification sees it."""
    m = doc.get('meta') or {}
    D = dict(meta=dict(version=[m['version'], m.get('version_comment') or ''] if m.get('version') else [], date=m.get('date', ''),
                       langs=list(m.get('languages', ())), scopes=[list(s) for s in m.get('scopes', ())],
                       vstart=m.get('validity_start', ''), vend=m.get('validity_end', ''), uver=m.get('unicode_version', ''),
                       desc=[m['description'], m.get('description_type') or ''] if m.get('description') else []),
             refs=[dict(id=r['id'], value=r['value'], com=r.get('comment') or '') for r in m.get('refs', ())])
    items = []
    for it in doc['items']:
        base = dict(when=it.get('when') or '', nwhen=it.get('nwhen') or '', tags=list(it.get('tags', ())), refs=list(it.get('refs', ())),
                    com=it.get('comment') or '')
        if it['k'] == 'range':
            items.append(dict(base, cp=[it['first']], rng=[it['first'], it['last']], vars=[]))
        else:
            items.append(dict(base, cp=it['cp'], rng=[], vars=[
                dict(cp=v['cp'], when=v.get('when') or '', nwhen=v.get('nwhen') or '', type=v.get('type') or '',
                     refs=list(v.get('refs', ())), com=v.get('comment') or '') for v in it['vars']]))
    D['items'] = items
    D['decls'] = []
    for d in doc['decls']:
        x = dict(k=d['k'], name=d.get('name', ''), com=d.get('comment') or '', refs=list(d.get('refs', ())),
                 tree=tree(ET.fromstring(gen.decl_xml(d))))
        if d['k'] == 'action':
            x.update(disp=d['disp'], match=d['match'], nmatch=d['nmatch'], vk=d['vk'], vs=sorted(d['vs']))
        else:
            x.update(disp='', match='', nmatch='', vk='none', vs=[])
        D['decls'].append(x)
    return D
