from pyver import tfc
LEVEL = 'proof'
TECHNIQUE = 'contracts on undo_warp / undo_warps / _rectify_retain, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra; bounded differential testing beside it'
NOTE = 'Affine.concise and Affine.coerce of components are taken by contract (opaque components); concatenations of up to 3 parts; numbers are exact reals.'
PROPS = ['C15']
ASSUMPTIONS = ['kwimage.Affine.concise returns the named components of its matrix, leaving out only neutral ones, and Affine.coerce of a set of components is the matrix they describe',
               'get_transform_from_leaf has the contract checked under C16; optimize has the contract checked under C01 and C02',
               'a squashed view has a non-empty undone canvas (exclusion of the statement)']
targets = tfc.c15
