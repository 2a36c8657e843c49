from contracts import tree
LEVEL = 'proof'
TECHNIQUE = 'contracts on the real optimize methods, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra'
NOTE = 'Every optimize/_opt_* method of the tree nodes is executed symbolically with children replaced by their contracts (structural induction); size and channel postconditions are discharged. Named bounds/assumptions (concat arity 2, opaque channel names, exact reals) are in the evidence. The clause about algorithm parameters is decided by the bounded layer only.'
PROPS = ['C01']
ASSUMPTIONS = tree.BASE
targets = tree.targets
