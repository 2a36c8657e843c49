from pyver import spect

LEVEL = 'proof'
TECHNIQUE = 'contracts of the algebra methods over code sequences of any length, decided on arbitrary elements; bounded enumeration beside it'
NOTE = 'Fused specs have any number of codes; comma separated specs have at most 2 streams per operand (stated bound), each of any length.'
PROPS = ['C09']
ASSUMPTIONS = ['stated bound: comma separated operands of at most 2 streams', 'ub.oset by contract (insertion order, no repetitions); no channel is repeated inside a stream']
targets = spect.c09
