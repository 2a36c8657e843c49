from pyver import viewc
LEVEL = 'proof'
TECHNIQUE = 'contracts on the real view operations, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra'
NOTE = 'Every size-declaring constructor and entry point is proved for all sizes, matrices, levels and base views over exact reals; rounding of floating point products is not modelled.'
PROPS = ['C06']
ASSUMPTIONS = [
    'exact real arithmetic: floating point numbers of /repo are treated as real numbers',
    'pre: declared sizes are non-negative integers, slices have no step',
    'library code of kwimage.Boxes.from_slice and kwarray.embed_slice is executed from its installed source, with the text unchanged',
]
targets = viewc.c06
