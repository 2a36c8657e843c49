from pyver import tfc
LEVEL = 'proof'
TECHNIQUE = 'contracts on get_transform_from_leaf / _transform_from_subdata / get_transform_from / _leaf_paths, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra; bounded differential testing beside it'
NOTE = 'steps by induction over the operation chain (no bound); paths through a concatenation for chains of bounded length (3 operations above, 1 below it; 4 in the thorough tier); numbers are exact reals.'
PROPS = ['C16']
ASSUMPTIONS = ['kwimage.Affine composes, inverts and builds matrices exactly (real arithmetic)',
               'the transform of the input of an operation is an arbitrary invertible matrix (induction hypothesis)',
               'paths through concatenations: at most 3 (thorough: 4) operations above and 1 below the concatenation, 2 parts']
targets = tfc.c16
