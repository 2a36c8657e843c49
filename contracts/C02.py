from contracts import tree
LEVEL = 'proof'
TECHNIQUE = 'contracts on the real optimize methods, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra'
NOTE = 'The denotation of every node (where each output channel samples its source) is compared before and after each optimize/_opt_* method under the contracts of the children; affine algebra discharged exactly. Exact reals, clean (non-degenerate) geometry, concat arity 2.'
PROPS = ['C02']
ASSUMPTIONS = tree.BASE
targets = tree.targets
