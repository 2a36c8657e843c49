from pyver import lazyc

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real lazy readers, obligations generated by symbolic execution of the source and discharged by z3'
NOTE = ('The index handling, band and overview selection and no-data marking of the three readers are executed symbolically for all image sizes, overview '
        'counts and levels, slice bounds, integers and no-data values; up to three bands and band lists of up to three entries (stated bound). GDAL, '
        'rasterio and spectral are taken by their contracts; real files are read by the bounded layer.')
PROPS = ['C13']
ASSUMPTIONS = ['stated bound: files of at most 3 bands, band lists of at most 3 entries',
               'integers in an index are within the range of their axis; slices have unit steps; the requested overview level exists']


def targets(tier):
    return lazyc.c13(tier)
