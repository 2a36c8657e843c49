from pyver import viewc
LEVEL = 'proof'
TECHNIQUE = 'contracts on the real view operations, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra'
NOTE = "Every crop entry point, crop of crop and the unclipped mode are proved for all sizes, all integer or missing slice bounds and any base view; finalized pixels of crops are the bounded layer's (and C17's)."
PROPS = ['C05']
ASSUMPTIONS = [
    'exact real arithmetic: floating point numbers of /repo are treated as real numbers',
    'pre: declared sizes are non-negative integers, slices have no step',
    'library code of kwimage.Boxes.from_slice and kwarray.embed_slice is executed from its installed source, with the text unchanged',
]
targets = viewc.c05
