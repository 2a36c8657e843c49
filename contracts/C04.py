from contracts import tree
LEVEL = 'proof'
TECHNIQUE = 'contracts on the real optimize methods, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra'
NOTE = 'Frame condition: on every path of every optimize method the metadata of each pre-existing object is unchanged; view constructors and sharing histories are additionally explored by the bounded layer.'
PROPS = ['C04']
ASSUMPTIONS = tree.BASE
targets = tree.targets
