from pyver import selc

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real selection methods, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra'
NOTE = ('For any sizes, numbers of channels, integer indexes and positions of names; the number of requested channels (at most 3, thorough 4) and of '
        'concatenated images (at most 3) is a stated bound, longer requests are the bounded layer\'s. The name algebra itself is C08.')
PROPS = ['C07']
ASSUMPTIONS = ['stated bound: at most %d requested channels (quick: 3) from at most %d concatenated images' % (selc.LONG, selc.PARTS),
               'the names of a view are distinct; the position of a name in its expanded channels is the subject of C08',
               'pre: requested indexes are in range, the number of channels of every part is known']
targets = selc.c07
