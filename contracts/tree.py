"""Targets shared by the properties about optimize (C01, C02, C04)"""
from pyver import treec

BASE = [
    'exact real arithmetic: floating point numbers of /repo are treated as real numbers',
    'pre: at most one dequantization per path, declared sizes >= 0, at least one channel, zero no-op tolerance (noop_eps=0)',
    'concatenations of at most two parts (bound; nested concatenations give longer ones)',
    'partial correctness: that optimize terminates is not proved (the bounded layer runs it)',
    'index lists are opaque: a selection is known by the identity and the length of its index list only',
    'channel names are opaque: only which source or selection they come from, and how many there are, is modelled',
]


def targets(tier):
    out = [treec.MethodTarget('crop', '_opt_warp_after_crop'), treec.MethodTarget('warp', '_opt_absorb_overview'),
           treec.OptimizeTarget('crop'), treec.OptimizeTarget('warp'),
           treec.MethodTarget('warp', '_opt_split_warp_overview')]
    for k in ('crop', 'warp', 'overview', 'dequant'):
        out.append(treec.OptimizeTarget(k, nocat=True))
    for k in ('crop', 'warp', 'overview', 'dequant', 'concat', 'asx'):
        out.append(treec.OptimizeTarget(k, memo=True))
    for k in ('asx', 'dequant', 'overview', 'concat', 'load', 'ident', 'nans', 'nodata'):
        out.append(treec.OptimizeTarget(k))
    return out
