"""C09 references."""
import common, edits
from edits import observe  # noqa

W = dict(add_cp=5, del_cp=1, add_range=3, del_range=.5, expand_range=1, expand_ranges=.3, add_variant=5, del_variant=.5,
         add_ref=6, del_ref=4, upd_ref=2, add_codepoints=.8)


class G(edits.Gen):
    def refs(self):
        r = self.rng
        if r.random() < .2:
            return []
        return edits.Gen.refs(self)

    def ctx(self):
        return ('w0', '') if self.rng.random() < .2 else ('', '')

    def tags(self):
        return []


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(700, 6000)):
        base = rng.choice([97, 97, 97, 0xfd, 0xfffc, 0x1fffd])   # also across planes
        alpha = list(range(base, base + rng.randint(3, 6)))
        g = G(rng, alpha, W, forcep=.08)
        ops = [dict(g.op(), parent=k) for k in range(rng.randint(8, 20))]
        out.append(dict(ops=ops, inv=[], strict=True, db=False, probes=edits.probe_set(rng, ops, alpha)))
    return out


def alphabet():
    m = edits.mk
    return [m('add_ref', value='v'), m('add_ref', id='1', value='w', com='c'), m('add_ref', id='A-1', value='u'), m('add_ref', id='-3', value='u'),
            m('add_ref', id='a b', idok=False, value='u'), m('del_ref', id='0'), m('del_ref', id='1'), m('del_ref', id='A-1'), m('del_ref', id='-3'),
            m('upd_ref', id='1', value='nv'), m('upd_ref', id='0', com='nc'),
            m('add_cp', cp=[97], refs=['0', '1']), m('add_cp', cp=[98, 97], refs=['1', 'A-1']), m('add_range', first=98, last=99, refs=['1', '0']),
            m('add_variant', cp=[97], var=[98], refs=['0']), m('add_variant', cp=[97], var=[98], when='w0', refs=['1', '0']),
            m('add_cp', cp=[99], refs=['1', '1']), m('add_cp', cp=[100], refs=['1', '7'], force=True), m('expand_range', first=98, last=99),
            m('del_cp', cp=[97])]


def run(ctx):
    keep = edits.keeper(edits.C09, edits.REF_OPS + ('add_cp', 'add_range', 'add_variant'))
    mc = edits.model(ctx, 'C09', alphabet(), ctx.scale(4, 6), probes=[[97], [98, 97]], limit=ctx.scale(500, 6000))
    common.trace_phase(ctx, 'edits', edits.SPEC, mc, keep=keep, invariants=('WF',))
    common.trace_phase(ctx, 'edits', edits.SPEC, cases(ctx), keep=keep, invariants=('WF',))
