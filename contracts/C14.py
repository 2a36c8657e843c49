from pyver import cachec
LEVEL = 'proof'
TECHNIQUE = 'contracts on CacheDict over an arbitrary state (sequence of entries of arbitrary length, arbitrary capacity), obligations generated by symbolic execution of the source and discharged by z3; bounded differential testing beside it'
NOTE = 'histories by induction: every operation is shown to act like the model from every legal state; OrderedDict is taken by contract; construction from up to 4 initial items (5 in the thorough tier); single-threaded.'
PROPS = ['C14']
ASSUMPTIONS = ['keys are compared by an equality that is an equivalence and hash consistently', 'the cache is used by one thread at a time']
targets = cachec.c14
