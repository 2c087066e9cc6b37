"""C08 tags and tag classes."""
import common, edits
from edits import observe  # noqa

W = dict(add_cp=7, del_cp=4, add_range=5, del_range=2.5, expand_range=1.5, expand_ranges=.6, add_variant=.5, del_tag=3,
         add_codepoints=1.5, rep_range=.3)
OPS = ('del_tag',)


class G(edits.Gen):
    def tags(self):
        if self.rng.random() < .15:
            return []
        return self.rng.sample(['t0', 't1', 't2'], self.rng.randint(1, 2))


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(700, 6000)):
        base = rng.choice([97, 97, 97, 0xfd, 0xfffc, 0x1fffd])   # also across planes
        alpha = list(range(base, base + rng.randint(3, 7)))
        g = G(rng, alpha, W, forcep=.06)
        ops = [dict(g.op(), parent=k) for k in range(rng.randint(6, 18))]
        out.append(dict(ops=ops, inv=[], strict=True, db=False, probes=edits.probe_set(rng, ops, alpha)))
    return out


def alphabet():
    m = edits.mk
    return [m('add_cp', cp=[97], tags=['t0']), m('add_cp', cp=[98], tags=['t0', 't1']), m('add_cp', cp=[97, 98]),
            m('add_cp', cp=[97, 99], tags=['t0']), m('add_cp', cp=[99]),
            m('add_range', first=97, last=99, tags=['t1']), m('add_range', first=98, last=99, tags=['t0']), m('del_cp', cp=[97]),
            m('del_cp', cp=[98]), m('del_cp', cp=[97, 98]), m('del_range', first=97, last=99), m('del_range', first=98, last=99),
            m('expand_range', first=97, last=99), m('expand_ranges'), m('del_tag', id='t0'), m('del_tag', id='t1'),
            m('add_codepoints', list=[97, 99], tags=['t0']), m('add_cp', cp=[97], tags=['t1', 't1']),
            m('add_range', first=97, last=100, tags=['t1'], force=True)]


def run(ctx):
    keep = edits.keeper(edits.C08, OPS)
    mc = edits.model(ctx, 'C08', alphabet(), ctx.scale(4, 6), probes=[[97], [97, 98]], limit=ctx.scale(500, 6000))
    common.trace_phase(ctx, 'edits', edits.SPEC, mc, keep=keep, invariants=('WF',))
    common.trace_phase(ctx, 'edits', edits.SPEC, cases(ctx), keep=keep, invariants=('WF',))
