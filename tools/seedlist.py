SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = (prop, edits, needs, breaks, demo)


LEAF = '''import warnings
warnings.simplefilter('ignore')
import numpy as np
from delayed_image import DelayedIdentity, DelayedNans, DelayedChannelConcat
def leaf(w, h, c, chans, base=0):
    data = (np.arange(h * w * c).reshape(h, w, c) + base).astype(np.float32)
    return DelayedIdentity(data, channels=chans)
'''

seed('fusecrop_square', 'C05', [('delayed_nodes.py',
     'new_ystop = min(inner_ysl.start + outer_ysl.stop, inner_ysl.stop)',
     'new_ystop = min(inner_ysl.start + outer_ysl.stop, inner_xsl.stop)')],
     'a crop of a crop, optimized, where the inner crop stops further down than to the right',
     'the fused crop stops too early', LEAF + '''
im = leaf(6, 20, 2, 'a|b')
v = im[2:18, 1:5][3:12, 0:3]
assert v.optimize().dsize == v.dsize, (v.optimize().dsize, v.dsize)
assert np.array_equal(v.finalize(), v.finalize(optimize=False))
''')

seed('cache_replace', 'C14', [('lazy_loaders.py',
     '        super().__setitem__(key, value)\n        super().move_to_end(key)\n',
     '        new = key not in self\n        super().__setitem__(key, value)\n        if new:\n            super().move_to_end(key)\n')],
     'replacing the value of the oldest key and then inserting until the bound is exceeded',
     'a key that was just stored again is the next one to be evicted', '''
from delayed_image.lazy_loaders import CacheDict
c = CacheDict(cache_len=3)
for k in 'abc':
    c[k] = 1
c['a'] = 2
c['d'] = 3
assert list(c) == ['c', 'a', 'd'], list(c)
''')

seed('autodsize_corner', 'C06', [('helpers.py',
     '            [[0, 0, 1], [sub_w, 0, 1], [0, sub_h, 1], [sub_w, sub_h, 1]]\n',
     '            [[sub_w, 0, 1], [0, sub_h, 1], [sub_w, sub_h, 1]]\n')],
     'a warp that rotates by half a turn and shifts, so that the top left corner becomes the bottom right one',
     'the automatic canvas misses one corner', LEAF + '''
import kwimage
im = leaf(8, 5, 1, 'a')
w = im.warp(kwimage.Affine.coerce(matrix=[[-1, -1, 11], [1, -1, 9], [0, 0, 1]]))
assert w.dsize == (11, 17), w.dsize
''')

seed('nodata_bound', 'C12', [('helpers.py',
     'return info.min <= ival <= info.max',
     'return info.min <= ival < info.max')],
     'a nodata value that equals the largest value of the stored dtype',
     'nodata pixels become real values', '''
import numpy as np
from delayed_image.helpers import dequantize
q = {'orig_min': 0, 'orig_max': 1, 'quant_min': 0, 'quant_max': 254, 'nodata': 255, 'orig_dtype': 'float32'}
r = dequantize(np.array([[0, 254, 255]], dtype=np.uint8), q)
assert np.isnan(r[0, 2]) and not np.isnan(r[0, :2]).any(), r
''')

seed('overview_warp_conj', 'C02', [('delayed_nodes.py',
     '        C = A @ B @ A.inv()\n', '        C = A.inv() @ B @ A\n')],
     'an overview of a warped image that has overviews, with a translation in the warp',
     'the translation is scaled the wrong way', LEAF + '''
import kwimage
im = leaf(32, 32, 1, 'a')
im.meta['num_overviews'] = 3
v = im.warp({'offset': (4, 8)}).get_overview(1)
o = v.optimize()
assert np.allclose(o.get_transform_from_leaf().matrix, v.get_transform_from_leaf().matrix)
''')

seed('implicit_crop_width', 'C01', [('delayed_nodes.py',
     'if new.dsize != dsize:\n', 'if new.dsize[0] != dsize[0]:\n')],
     'a power of two downscale of an image with overviews to a canvas of the overview width but another height',
     'the optimized view has the height of the overview', LEAF + '''
im = leaf(32, 32, 1, 'a')
im.meta['num_overviews'] = 3
v = im.warp({'scale': .5}, dsize=(16, 11))
assert v.optimize().dsize == (16, 11), v.optimize().dsize
''')

seed('undo_unit_square', 'C15', [('delayed_nodes.py',
     'undo_warp = kwimage.Affine.scale((1 / w, 1 / h)) @ undo_warp',
     'undo_warp = kwimage.Affine.scale((1 / max(w, h), 1 / max(w, h))) @ undo_warp')],
     'undoing a warp with squash_nans and return_warp on an image that is not square',
     'the reported transform is not relative to the unit canvas', LEAF + '''
im = leaf(8, 4, 1, 'a')
part, tf = im.scale(2).undo_warp(squash_nans=True, return_warp=True)
c = tf.matrix @ np.array([16, 8, 1])
assert np.allclose(c[:2], [1, 1]), c
''')

seed('crop_contiguous', 'C17', [('delayed_nodes.py',
     '            full_slice = space_slice + (chan_idxs,)\n',
     '            if isinstance(chan_idxs, list) and len(chan_idxs) > 3 and max(chan_idxs) - min(chan_idxs) + 1 == len(set(chan_idxs)) == len(chan_idxs):\n'
     '                full_slice = space_slice + (slice(min(chan_idxs), max(chan_idxs) + 1),)\n'
     '            else:\n'
     '                full_slice = space_slice + (chan_idxs,)\n')],
     'selecting four or more adjacent bands of one image in an order that is not ascending',
     'the bands come in ascending order', LEAF + '''
im = leaf(4, 3, 6, 'a|b|c|d|e|f')
v = im.take_channels('c|b|d|e')
assert v.channels.spec == 'c|b|d|e'
assert np.array_equal(v.finalize(), im.finalize()[:, :, [2, 1, 3, 4]])
''')

seed('segment_full', 'C07', [('delayed_nodes.py',
     '            if curr.start == 0 and curr.stop == curr.comp.num_channels:\n',
     '            if curr.stop == curr.comp.num_channels and sorted(curr.indexes) == curr.indexes and len(curr.indexes) in (1, curr.stop):\n'
     '                curr.indexes = list(range(curr.stop))\n')],
     'selecting only the last channel of a concatenated image, followed by a channel of another image',
     'all channels of that image are returned', LEAF + '''
a = leaf(4, 3, 3, 'a|b|c')
b = leaf(4, 3, 2, 'd|e', 100)
v = DelayedChannelConcat([a, b]).take_channels([2, 3])
assert v.num_channels == 2, v
assert v.channels.spec == 'c|d'
''')

seed('padw_floor', 'C03', [('delayed_nodes.py',
     'padw = int(np.ceil(leaf_w / root_w))', 'padw = int(np.ceil(leaf_w / root_w - .125))')],
     'a crop of an image upscaled at least by eight whose right edge falls on a source pixel border',
     'no extra source column is read on the right', LEAF + '''
im = leaf(20, 20, 1, 'a')
v = im.scale(10)[0:100, 0:100]
o = v.optimize()
sl = o.subdata.meta['space_slice']
assert sl[1].stop >= 11, sl
assert sl[0].stop >= 11, sl
''')

seed('dequant_shared', 'C04', [('delayed_nodes.py',
     '        quantization = self.meta[\'quantization\']\n        new = copy.copy(self.subdata)\n        new.subdata = new.subdata.dequantize(quantization)\n',
     '        quantization = self.meta[\'quantization\']\n        new = self.subdata\n        new.subdata = new.subdata.dequantize(quantization)\n')],
     'optimizing twice a dequantization above an already optimized warp view that is shared',
     'the shared optimized warp is dequantized in place', LEAF + '''
im = DelayedIdentity((np.arange(48).reshape(4, 4, 3) % 7).astype(np.uint8), channels='a|b|c')
w = im.warp({'offset': (1, 1)}).optimize()
q = {'orig_min': 0, 'orig_max': 1, 'quant_min': 0, 'quant_max': 255, 'orig_dtype': 'float32'}
from delayed_image import delayed_base
ctx = delayed_base.OptimizeContext()
w1 = w.optimize(ctx)
before = str(w1.nesting())
w.dequantize(q).optimize(ctx)
assert str(w1.nesting()) == before
assert str(w.optimize(ctx).nesting()) == before
''')

seed('graph_shared', 'C18', [('delayed_base.py',
     "            node_id = f'{item.__class__.__name__}_{next(counter):0{ndigits}d}'\n",
     "            node_id = f'{item.__class__.__name__}_{next(counter):0{ndigits}d}'\n            for other, data in graph.nodes(data=True):\n                if data['obj'] is item and parent_id in graph.pred[other]:\n                    node_id = other\n")],
     'a concatenation that uses the very same view twice',
     'the exported graph has one node for the two occurrences', LEAF + '''
a = leaf(4, 3, 3, 'a|b|c')
c = DelayedChannelConcat([a, a])
g = c.as_graph()
assert len(g.nodes) == 3 and len(g.edges) == 2, g
''')

seed('path_rebind', 'C16', [('delayed_base.py',
     '                                and part.subdata is not prev\n',
     '                                and part.subdata is not prev\n                                and hasattr(part.subdata, \'parts\')\n')],
     'the transform from a view that has two or more operations above a concatenation',
     'the outer operations keep pointing to the concatenation', LEAF + """
a = leaf(40, 30, 1, 'a')
b = leaf(40, 30, 1, 'b')
x = DelayedChannelConcat([a, b]).scale(2)[4:20, 6:20].warp({'offset': (1, 2)})
m = x.get_transform_from(a).matrix
assert np.allclose(m @ [3, 4, 1], [1, 6, 1]), m
""")

seed('overview_of_overview', 'C13', [('lazy_loaders.py',
     'return self.get_absolute_overview(overview + self.overview)',
     'return self.get_absolute_overview(max(overview, self.overview) + (1 if overview and self.overview else 0))')],
     'opening an overview of level two of an overview of level two', 'the wrong level is opened', '''
from delayed_image.lazy_loaders import LazyGDalFrameFile
f = LazyGDalFrameFile('x.tif', overview=2)
assert f.get_overview(2).overview == 4
assert f.get_overview(1).overview == 3
''')

seed('algo_fuse_outer', 'C01', [('delayed_nodes.py',
     "        warp_meta = ub.dict_isect(self.meta, {'dsize'})\n        warp_meta.update(\n            ub.dict_isect(self.subdata.meta, self.subdata._algo_keys)\n",
     "        warp_meta = ub.dict_isect(self.meta, {'dsize'})\n        warp_meta.update(\n            ub.dict_isect(self.subdata.meta, [k for k in self.subdata._algo_keys if k != 'border_value'])\n")],
     'a crop of a warp with an explicit border value', 'the border value is lost when the crop is moved below the warp',
     LEAF + '''
a = leaf(10, 10, 1, 'a')
v = a.warp({'scale': 1.5, 'offset': (3, 3)}, border_value=7)[0:6, 0:6]
o = v.optimize()
assert o.meta['border_value'] == 7, o.meta
''')

seed('shift_crop_axis', 'C02', [('delayed_nodes.py',
     'leaf_y0 = leaf_y0_q - lt_pad_h\n', 'leaf_y0 = leaf_y0_q - min(lt_pad_h, lt_pad_w)\n'),
     ('delayed_nodes.py', 'ty + sy * leaf_y0 - root_y0', 'ty + sy * (leaf_y0_q - lt_pad_h) - root_y0')],
     'a crop of an axis aligned warp that begins at the left border but not at the top border of the source',
     'the view is shifted by one source row', LEAF + '''
a = leaf(20, 20, 1, 'a')
v = a.scale(1.5)[12:20, 0:8]
o = v.optimize()
assert np.allclose(o.get_transform_from_leaf().matrix, v.get_transform_from_leaf().matrix)
''')
