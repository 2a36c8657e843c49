from pyver import spect

LEVEL = 'proof'
TECHNIQUE = 'loop invariants over code sequences of any length on the real packing methods; bounded enumeration beside it'
NOTE = ('Streams and packed inputs have any number of codes; at most 3 streams (ranges, unpack) or 2 streams and 2 packed inputs (pack), axis 0 to 3 (stated bounds). '
        'Unpacking after packing is the identity: a stream array is the data of its codes in order, and unpacking cuts it at the ends of the codes.')
PROPS = ['C10']
ASSUMPTIONS = ['stated bound: at most 3 streams (2 when packing), at most 2 packed inputs, axes 0 to 3',
               'numpy slicing and kwarray cat by contract (a cat of pieces holds their data in order)', 'no code is repeated, every code of a stream is packed in one input']
targets = spect.c10
