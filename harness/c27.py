"""C27 insertion checks: IDNA 2008 validity and validating repertoires, through the editing machine."""
import common, edits
from edits import observe  # noqa

W = dict(add_cp=6, del_cp=1, add_range=5, del_range=1, add_variant=5, del_variant=.5, check_range=4, add_codepoints=2, expand_range=.4)
# RFC 5892 derived property (Unicode 15.1): code points with and without the right to appear in a label
VALID = [0x61, 0x62, 0x7a, 0x2d, 0x30, 0xdf, 0xb7, 0x200d, 0x3b1, 0x5d0, 0x661, 0x4e00, 0x30fb]
BAD = [0x41, 0x5a, 0x5f, 0x2e, 0x20, 0xaa, 0x378, 0x1d00 + 0x2c, 0x2126, 0xfb01, 0x2190]
# windows in which validity alternates: (first, last, invalid ones)
WIN = [(0x5e, 0x64, [0x5e, 0x5f, 0x60]), (0x78, 0x7d, [0x7b, 0x7c, 0x7d]), (0xde, 0xe2, [0xde]), (0x2d, 0x32, [0x2e, 0x2f]),
       (0x374, 0x37b, [0x374, 0x376, 0x378, 0x379, 0x37a]), (0x5be, 0x5c3, [0x5be, 0x5c0, 0x5c3])]


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(700, 6000)):
        if rng.random() < .75:
            a, b, bad = rng.choice(WIN)
            alpha, inv = list(range(a, b + 1)), list(bad)
            alpha = [c for c in alpha if rng.random() < .9] or alpha
            inv_all = [c for c in range(a - 0, b + 1) if c in bad]
            hi = b
            g = Win(rng, alpha, W, valp=.35, forcep=.15)
            g.limit = (a, hi)
        else:
            alpha = rng.sample(VALID, 4) + rng.sample(BAD, 3)
            inv_all = [c for c in alpha if c in BAD]
            g = Win(rng, alpha, dict(W, add_range=0, check_range=0, add_codepoints=0, del_range=0, expand_range=0), valp=.35, forcep=.15)
            g.limit = None
        ops = [dict(g.op(), parent=k) for k in range(rng.randint(6, 16))]
        out.append(dict(ops=ops, inv=inv_all, strict=rng.random() < .7, db=True, probes=edits.probe_set(rng, ops, alpha)))
    return out


class Win(edits.Gen):
    """Keeps every code point inside the window whose validity is known."""
    limit = None

    def op(self):
        while True:
            d = edits.Gen.op(self)
            if self.limit is None:
                return d
            lo, hi = self.limit
            cs = d['cp'] + d['var'] + d['list'] + ([d['first'], d['last']] if d['first'] else [])
            if all(lo <= c <= hi for c in cs):
                return d

    def refs(self):
        return []

    def tags(self):
        return []


def alphabet():
    m = edits.mk
    V = dict(hasval=True, val=[0x61, 0x5f, 0x62])
    out = [m('add_cp', cp=[0x61]), m('add_cp', cp=[0x5f]), m('add_cp', cp=[0x61, 0x5f]), m('add_cp', cp=[0x63], **V),
           m('add_cp', cp=[0x62, 0x63], **V), m('add_cp', cp=[0x63], ovr=True, **V), m('add_cp', cp=[0x63], force=True, **V),
           m('add_cp', cp=[0x5f], force=True), m('add_cp', cp=[0x5f], ovr=True, **V),
           m('add_range', first=0x60, last=0x62), m('add_range', first=0x60, last=0x62, force=True), m('add_range', first=0x61, last=0x63, **V),
           m('add_range', first=0x61, last=0x63, ovr=True, **V), m('add_range', first=0x61, last=0x63, force=True, **V),
           m('add_variant', cp=[0x61], var=[0x62], **V), m('add_variant', cp=[0x61], var=[0x63], **V), m('add_variant', cp=[0x61], var=[0x60]),
           m('add_variant', cp=[0x61], var=[0x62, 0x63], ovr=True, **V), m('add_variant', cp=[0x61], var=[0x64, 0x63], **V),
           m('check_range', first=0x5e, last=0x64), m('check_range', first=0x5f, last=0x63, **V), m('check_range', first=0x62, last=0x61),
           m('add_codepoints', list=[0x60, 0x61, 0x63]), m('del_cp', cp=[0x61]), m('del_cp', cp=[0x5f])]
    return out


def run(ctx):
    ops = edits.ENTRY_OPS + ('check_range',)
    base = edits.keeper(('entries', 'lookup', 'size'), ops)
    def keep(cl):
        return base(cl)
    for strict in (True, False):
        mc = edits.model(ctx, 'C27-%s' % strict, alphabet(), ctx.scale(3, 5), strict=strict, inv=[0x5e, 0x5f, 0x60],
                         probes=[[0x61], [0x5f], [0x63], [0x61, 0x5f]], limit=ctx.scale(250, 3000))
        common.trace_phase(ctx, 'edits', edits.SPEC, mc, keep=keep, invariants=('WF',))
    common.trace_phase(ctx, 'edits', edits.SPEC, cases(ctx), keep=keep, invariants=('WF',))
