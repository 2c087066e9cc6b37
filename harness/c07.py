"""C07 repertoire edits."""
import common, edits
from edits import observe  # noqa

W = dict(add_cp=6, del_cp=3, add_range=4, del_range=1.5, expand_range=1, expand_ranges=.4, rep_range=.8, add_variant=5, del_variant=2,
         del_tag=.3, add_ref=.6, del_ref=.3, add_codepoints=.8, check_range=.4)


def cases(ctx):
    rng = ctx.rng
    out = []
    for n in range(ctx.scale(700, 6000)):
        base = rng.choice([97, 97, 97, 0xfd, 0xfffc, 0x1fffd])   # also across planes
        alpha = list(range(base, base + rng.randint(4, 9)))
        seed = [edits.mk('add_ref', id='0', value='v'), edits.mk('add_ref', id='A-1', value='w')]
        out.append(edits.history(rng, rng.randint(6, 18), alpha, W, valp=.06, forcep=.06, seed_ops=seed))
    return out


def alphabet():
    m = edits.mk
    return [m('add_cp', cp=[97]), m('add_cp', cp=[98], when='w0', com='k'), m('add_cp', cp=[97, 98]), m('add_range', first=97, last=99),
            m('add_range', first=98, last=99, com='r'), m('del_cp', cp=[97]), m('del_cp', cp=[98]), m('del_cp', cp=[99]),
            m('del_cp', cp=[97, 98]), m('del_range', first=97, last=99), m('del_range', first=98, last=99),
            m('expand_range', first=97, last=99), m('expand_ranges'), m('rep_range', first=98, last=100, nwhen='w1'),
            m('add_variant', cp=[97], var=[98], type='blocked'), m('add_variant', cp=[97], var=[98], when='w0', type='x'),
            m('add_variant', cp=[97, 98], var=[97]), m('del_variant', cp=[97], var=[98]), m('del_variant', cp=[97], var=[98], when='w0'),
            m('add_cp', cp=[97], when='w0', nwhen='w1', force=True), m('add_range', first=96, last=99, force=True)]


def run(ctx):
    keep = edits.keeper(edits.C07, edits.ENTRY_OPS)
    probes = [[96], [97], [98], [99], [100], [97, 98], [98, 97]]
    mc = edits.model(ctx, 'C07', alphabet(), ctx.scale(4, 6), probes=probes, limit=ctx.scale(500, 6000))
    common.trace_phase(ctx, 'edits', edits.SPEC, mc, keep=keep, invariants=('WF',))
    common.trace_phase(ctx, 'edits', edits.SPEC, cases(ctx), keep=keep, invariants=('WF',))
