"""C23 notations of labels and code points."""
import json, os
import common, gen

SPEC = 'T_C23'
# letters of scripts old enough for both IDNA decoders, no bidirectional or contextual rules
SAFE = [0xe9, 0xf6, 0x101, 0x3b1, 0x3b2, 0x430, 0x44f, 0x4e00, 0x6f22, 0x3042, 0x30ab, 0xac00, 0x915, 0x561, 0x10d0]
ASC = [ord(c) for c in 'abcxyzn0159']
FUNNY = [0xa0, 0x3000, 0x2028, 9, 0xfeff, 0x200d, 0x1f600, 0x10480, 0xd7, 0x5d0, 0x2b, 0x55, 0x75, 0x2d, 0x2e, 0x5f]


def t(s):
    return [ord(c) for c in s]


def rand_label(rng, n=6):
    return [rng.choice(SAFE if rng.random() < .5 else ASC) for _ in range(rng.randint(1, n))]


def rand_cp(rng):
    return rng.choice([rng.choice(SAFE), rng.choice(ASC), rng.randint(0x20, 0x2ff), rng.randint(0x300, 0xd7ff), rng.randint(0xe000, 0x10ffff),
                       0x10ffff, 0, 0xfff, 0x1000, 0xffff, 0x10000])


def hexword(rng, cp):
    h = ('%x' if rng.random() < .4 else '%04X' if rng.random() < .7 else '%06x') % cp
    p = rng.choice(['', '', 'U+', 'U+', 'u+', '0x', '0X', 'U+0x'])
    return p + h


def word(rng):
    r = rng.random()
    if r < .6:
        return hexword(rng, rand_cp(rng))
    if r < .75:
        return chr(rng.choice(ASC + SAFE + [0x2b, 0x2d, 0x47]))
    return rng.choice(['U+', 'u+', 'U+110000', '110000', 'U+FFFFFFFF', '12345678901', 'xyz', 'U+00g1', '61g', '0x', '-61', 'U+-1', '+61', 'U+U+61',
                       'ab', 'é1', '1é', 'U 61', 'U+61,', '0061-0062', 'U+D7FF', 'xn--m-0ga', '#61', '..'])


def spaces(rng):
    return rng.choice([' ', ' ', ' ', '  ', '\t', ' \t', '\u00a0', '\u3000 '])


def cplist(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    s = ''.join(word(rng) + (spaces(rng) if k < n - 1 else '') for k in range(n))
    if rng.random() < .2:
        s = spaces(rng) + s
    if rng.random() < .2:
        s += spaces(rng)
    return s


def good_list(rng):
    return spaces(rng).join(hexword(rng, rand_cp(rng)) if rng.random() < .8 else chr(rng.choice(ASC + SAFE)) for _ in range(rng.randint(1, 5)))


def ulabel(rng):
    return ''.join(map(chr, rand_label(rng)))


def ace(rng):
    while True:
        u = ulabel(rng)
        if any(ord(c) > 127 for c in u) and not u.startswith('xn--') and u[2:4] != '--':
            return mixcase(rng, 'xn--' + u.encode('punycode').decode())


def mixcase(rng, s):
    return s.upper() if rng.random() < .1 else ''.join(c.upper() if rng.random() < .15 else c for c in s) if rng.random() < .2 else s


def bad_ace(rng):
    s = list(ace(rng))
    r = rng.random()
    if r < .35 and len(s) > 5:
        del s[rng.randint(4, len(s) - 1)]
    elif r < .7:
        s.insert(rng.randint(4, len(s)), rng.choice('az09-9é z'))
    else:
        return 'xn--' + ''.join(rng.choice('abcz019-') for _ in range(rng.randint(0, 7)))
    return ''.join(s)


def rand_text(rng):
    """(text, is a well-formed A-label of a safe label)"""
    r = rng.random()
    if r < .2:
        return ulabel(rng), False
    if r < .4:
        return ace(rng), True
    if r < .5:
        return bad_ace(rng), False
    if r < .7:
        return good_list(rng), False
    if r < .85:
        return cplist(rng), False
    s = list(ulabel(rng))
    for _ in range(rng.randint(1, 2)):
        s.insert(rng.randint(0, len(s)), chr(rng.choice(FUNNY + [0x20])))
    if rng.random() < .3:
        s.insert(rng.randint(0, len(s)), rng.choice(['U+', 'u+', 'xn--', 'x']))
    return ''.join(s), False


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(9000, 90000)):
        r = rng.random()
        if r < .4:
            s, good = rand_text(rng)
            out.append(dict(k='label', text=t(s), keep=rng.random() < .3, good=good, db=rng.random() < .5))
        elif r < .55:
            out.append(dict(k='cp', text=t(cplist(rng) if rng.random() < .5 else word(rng) if rng.random() < .7 else good_list(rng))))
        elif r < .75:
            a = rand_cp(rng)
            cps = [rand_cp(rng) for _ in range(rng.randint(0, 4))]
            for k in range(rng.randint(0, 5)):
                cps.append(min(a + rng.randint(0, 6), 0x10ffff))
            if rng.random() < .7:
                cps = list(dict.fromkeys(cps))
            out.append(dict(k='format', cps=[c for c in cps if not 0xd800 <= c < 0xe000]))
        else:
            lines = []
            for k in range(rng.randint(0, 6)):
                s = rand_text(rng)[0].replace('\u2028', '').replace('#', '')
                q = rng.random()
                if q < .15:
                    s = rng.choice(['#', ' #', '# ']) + s
                elif q < .3:
                    s = s + rng.choice(['#', ' # ', '\t#']) + rng.choice(['', 'note', '# é'])
                elif q < .4:
                    s = rng.choice(['', ' ', '\t', '\ufeff', '\u00a0'])
                if rng.random() < .2:
                    s = rng.choice([' ', '\t', '\u3000']) + s + rng.choice([' ', '\t', ''])
                if (k == 0 and rng.random() < .3) or rng.random() < .04:
                    s = '\ufeff' + s
                lines.append(t(s + rng.choice(['\n', '\n', '\r\n', ''])))
            out.append(dict(k='file', lines=lines, keepc=rng.random() < .4, db=rng.random() < .6, cp=rng.random() < .5,
                            exc=rng.random() < .4, **{'raise': rng.random() < .25}))
    return out


def txt(a):
    return ''.join(map(chr, a))


def back(x):
    return [ord(c) for c in x] if isinstance(x, str) else [int(c) for c in x]


def observe(case):
    from lgr.tools import utils as tu
    from lgr import utils as u
    from lgr.exceptions import LGRException
    k = case['k']
    if k == 'label':
        s = txt(case['text'])
        args = dict(keep_spaces=case['keep'])
        if case['db']:
            args['idna_decoder'] = common.unidb().idna_decode_label
        r = []
        for as_cp in (True, False):
            v, ok, ex = tu.parse_label_input(s, as_cp=as_cp, **args)
            assert ok == (ex is None) and isinstance(v, list if as_cp else str)
            r.append(dict(v=back(v), valid=bool(ok)))
        raised = False
        try:
            tu.parse_label_input(s, do_raise=True, **args)
        except Exception:
            raised = True
        return dict(exc='', cps=r[0], str=r[1], raised=raised)
    if k == 'cp':
        s = txt(case['text'])
        try:
            one = [tu.parse_single_cp_input(s)]
        except ValueError:
            one = []
        try:
            lst, lok = tu.parse_codepoint_input(s), True
        except ValueError:
            lst, lok = [], False
        return dict(exc='', one=one, list=lst, lok=lok)
    if k == 'format':
        cps = case['cps']
        f = u.format_cp(cps)
        return dict(exc='', fmt=back(f), one=back(u.format_cp(cps[0])) if cps else [], hex=back(u.cp_to_str(cps[0])) if cps else [],
                    u=back(u.cp_to_ulabel(cps)), back=tu.parse_codepoint_input(f), lback=back(tu.parse_label_input(f)[0]),
                    runs=[list(x) for x in u.collapse_codepoints(cps)], col=back(u.format_cp_collapsed(cps)))
    rows, stopped = [], False
    args = dict(keep_commented=case['keepc'], as_cp=case['cp'], do_raise=case['raise'], return_exceptions=case['exc'])
    if case['db']:
        args['unidb'] = common.unidb()
    g = tu.read_labels(iter([txt(l) for l in case['lines']]), **args)
    while True:
        try:
            orig, v, ok, err = next(g)
        except StopIteration:
            break
        except Exception:
            stopped = True
            break
        rows.append(dict(orig=back(orig), v=back(v), valid=bool(ok), err=bool(err is not None and err not in ('', 'None'))))
    return dict(exc='', rows=rows, stopped=stopped)


def model(ctx, alpha, size):
    par = os.path.join(ctx.tmp, 'par.json')
    with open(par, 'w') as f:
        json.dump(dict(alpha=alpha, size=size, emit=True), f)
    out = common.model_phase(ctx, 'MC_Notation', 'SPECIFICATION Spec\nINVARIANT Punycode\nINVARIANT Hex\nINVARIANT Ranges\nINVARIANT TextForm\n'
                             'INVARIANT Emit\nCHECK_DEADLOCK FALSE\n', env=dict(PAR=par), workers=1)
    res = []
    for m in common.printed_cases(out):
        safe = all(c in SAFE or c in ASC for c in m['x'])
        for db in (True, False):
            res.append(dict(k='label', text=m['a'], keep=False, good=safe, db=db))
        res.append(dict(k='format', cps=m['x']))
    return res


def run(ctx):
    common.trace_phase(ctx, 'c23', SPEC, model(ctx, [0x61, 0x2d, 0xe9, 0x3b1, 0x4e00], ctx.scale(4, 6)))
    common.trace_phase(ctx, 'c23', SPEC, cases(ctx))
