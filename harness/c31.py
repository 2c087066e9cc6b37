"""C31 scripts of labels and of language tags."""
import common, gen

SPEC = 'T_C31'
LANGS = [('en', 'eng', 'Latn'), ('ru', 'rus', 'Cyrl'), ('ja', 'jpn', 'Jpan'), ('ko', 'kor', 'Kore'), ('ar', 'ara', 'Arab'), ('sr', 'srp', ''),
         ('zh', 'zho', ''), ('el', 'ell', 'Grek'), ('he', 'heb', 'Hebr'), ('hi', 'hin', 'Deva'), ('th', 'tha', 'Thai'), ('de', 'deu', 'Latn'),
         ('uz', 'uzb', ''), ('ka', 'kat', 'Geor'), ('ur', 'urd', 'Arab'), ('und', '', ''), ('mul', '', '')]
SCRIPTS = ['Latn', 'Cyrl', 'Grek', 'Arab', 'Hans', 'Hant', 'Jpan', 'Kore', 'Hrkt', 'Aran', 'Latf', 'Latg', 'Syre', 'Syrj', 'Syrn', 'Syrc', 'Geok',
           'Geor', 'Hani', 'Hira', 'Kana', 'Hang', 'Deva', 'Thai', 'Hebr', 'Armn', 'Hanb', 'Jamo', 'Cyrs', 'Bopo']
REGIONS = ['DE', 'JP', 'CN', '419', 'RS']
CHARS = {'a': 'Latn', 'z': 'Latn', 'é': 'Latn', 'α': 'Grek', 'б': 'Cyrl', '侃': 'Hani', '一': 'Hani', '々': 'Hani', 'ト': 'Kana', 'マ': 'Kana', 'い': 'Hira',
         '테': 'Hang', 'ー': 'Zyyy', '〆': 'Zyyy', '1': 'Zyyy', '-': 'Zyyy', '・': 'Zyyy', '\u0301': 'Zinh', '\u3099': 'Zinh', 'ա': 'Armn', 'ğ': 'Latn',
         'ا': 'Arab', 'ש': 'Hebr', '\U00020000': 'Hani', '\U00010480': 'Osma'}


def tag(rng):
    l, l3, d = rng.choice(LANGS)
    long = l3 if rng.random() < .25 else ''
    return dict(lang=l, long=long, script=rng.choice(SCRIPTS) if rng.random() < .5 or l in ('und', 'mul') else '',
                region=rng.choice(REGIONS) if rng.random() < .25 else '', default=d)


def text(t):
    return '-'.join(x for x in (t['long'] or t['lang'], t['script'], t['region']) if x)


def cases(ctx):
    rng = ctx.rng
    out = [dict(k='iso', code=s) for s in SCRIPTS]
    for n in range(ctx.scale(6000, 40000)):
        r = rng.random()
        if r < .45:
            pool = list(CHARS)
            if rng.random() < .6:
                pool = [c for c in pool if CHARS[c] in ('Zyyy', 'Zinh', 'Hani', 'Kana', 'Hira', 'Hang')]
            lab = [rng.choice(pool) for _ in range(rng.randint(0, 5))]
            out.append(dict(k='label', label=''.join(lab), scripts=[CHARS[c] for c in lab], sign=any(c in 'ー〆' for c in lab)))
        elif r < .7:
            out.append(dict(k='tag', tag=tag(rng)))
        else:
            steps = []
            for _ in range(rng.randint(1, 4)):
                ts = [tag(rng) for _ in range(rng.randint(0, 3))]
                steps.append(ts if not steps or rng.random() < .6 else rng.choice(steps)[:rng.randint(0, 3)])
            out.append(dict(k='meta', steps=steps, how=[rng.choice(['set', 'assign', 'inplace', 'add']) for _ in steps]))
    return out


def observe(case):
    import real
    k = case['k']
    if k == 'label':
        from lgr.tools.utils import get_rz_label_script
        return dict(exc='', script=get_rz_label_script(case['label'], common.unidb()) or '')
    if k == 'iso':
        from lgr.utils import script_iso15924_to_unicode
        return dict(exc='', scripts=list(script_iso15924_to_unicode(case['code'])))
    if k == 'tag':
        from lgr.utils import tag_to_language_script
        s = text(case['tag'])
        return dict(exc='', plain=[x or '' for x in tag_to_language_script(s)], sup=[x or '' for x in tag_to_language_script(s, True)])
    from lgr.metadata import Metadata
    m = Metadata()
    out = []
    for ts, how in zip(case['steps'], case['how']):
        tags = list(dict.fromkeys(text(t) for t in ts))
        if how == 'set':
            m.set_languages(tags, force=True)
        elif how == 'assign':
            m.languages = tags
        elif how == 'inplace':
            m.languages[:] = tags
        else:
            m.languages = []
            for t in tags:
                m.add_language(t, force=True)
        a, b = sorted(set(m.get_scripts())), sorted(set(m.get_scripts(allow_invalid=True)))
        out.append(dict(strict=a, lenient=b, same=sorted(set(m.get_scripts())) == a and sorted(set(m.get_scripts(True))) == b))
    return dict(exc='', steps=out)


def run(ctx):
    common.trace_phase(ctx, 'c31', SPEC, cases(ctx))
