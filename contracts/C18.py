from pyver import travc

LEVEL = 'proof'
TECHNIQUE = 'loop invariants on the real traversal methods, obligations generated by executing one arbitrary iteration of the source; bounded enumeration beside it'
NOTE = ('Every traversal loop is cut by an invariant over the pending entries and holds for trees of any depth and size; the inputs of one operation '
        '(at most 3) and the path of one leaf (at most 4 operations) are unrolled (stated bounds). Termination is not proved.')
PROPS = ['C18']
ASSUMPTIONS = ['stated bound: paths of at most %d operations in the extraction of a path' % travc.Paths.LONG,
               'decimal numerals of different numbers differ (names of graph nodes)']
targets = travc.c18
