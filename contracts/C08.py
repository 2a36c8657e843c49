from pyver import spect

LEVEL = 'proof'
TECHNIQUE = 'loop invariants over code sequences of any length on the real spec methods; bounded enumeration beside it'
NOTE = ('Fused specs have any number of codes with arbitrary names and numbers; comma separated specs have at most 3 streams (stated bound), '
        'each of any length.')
PROPS = ['C08']
ASSUMPTIONS = ['stated bound: comma separated specs of at most %d streams; index lists of at most 3 indexes' % spect.STREAMS]
targets = spect.c08
