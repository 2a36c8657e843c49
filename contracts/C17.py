from pyver import pixc
LEVEL = 'proof'
TECHNIQUE = 'contracts on every _finalize and on finalize, evaluate, prepare and the xarray conversion for an arbitrary pixel of an arbitrary array, obligations generated by symbolic execution of the source and discharged by z3 / exact algebra; bounded differential testing beside it'
NOTE = 'resampled pixels (warps, overviews) are out of the claim, only their shape is checked; lazily opened files and dequantized masked arrays are left to the bounded layer; concatenations of up to 3 parts; numpy, kwimage and xarray are taken by contract.'
PROPS = ['C17']
ASSUMPTIONS = ['the array of an input view has its declared shape and a channel axis (induction hypothesis; sources: statement)',
               'windows of crop nodes lie inside their input (established by DelayedCrop.__init__, C05)',
               'optimize keeps size, channels and content (C01, C02)',
               'an indexed lazily opened file equals the indexed loaded array (C13)']
targets = pixc.c17
