from pyver import viewc
LEVEL = 'proof'
TECHNIQUE = 'contracts on the real view operations, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra'
NOTE = 'Window margins and containment are proved for every scale+shift transform, and for every invertible transform per axis under the contract of the crop constructor; source views are abstract. Exact reals; that optimize calls this rewrite (rather than leaving the crop above the warp, or combining several warps) is covered by the bounded layer and C02.'
PROPS = ['C03']
ASSUMPTIONS = [
    'exact real arithmetic: floating point numbers of /repo are treated as real numbers',
    'pre: declared sizes are non-negative integers, the crop window is not empty, the transform is invertible',
    'library code of kwimage.Boxes.from_slice and kwarray.embed_slice is executed from its installed source, with the text unchanged',
]
targets = viewc.c03
