from pyver import pixc
LEVEL = 'proof'
TECHNIQUE = 'contracts on dequantize / quantize_float01 for an arbitrary element of an arbitrary array, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra; bounded differential testing beside it'
NOTE = 'numbers are exact reals (floating point rounding is exercised by the bounded layer); array operations are taken by contract; elements are finite or NaN.'
PROPS = ['C12']
ASSUMPTIONS = ['floating point arithmetic is exact real arithmetic; stored values are finite or NaN', 'quantization parameters are Python numbers (no numpy scalars)',
               'old_min < old_max when quantizing']
targets = pixc.c12
