from pyver import sensc

LEVEL = 'proof'
TECHNIQUE = 'contracts on the real spec methods and parse callbacks over arbitrary sensors and streams, texts split by the real grammar; bounded enumeration beside it'
NOTE = ('Streams have any number of codes and arbitrary names; specs have at most 3 items and 4 pairs of sensor and stream (stated bound); '
        'the lark parser itself is trusted.')
PROPS = ['C11']
ASSUMPTIONS = ['stated bound: specs of at most 3 items, 2 sensors and 2 streams per item; streams of at most 2 codes when splitting',
               'known finding excluded: shortening groups an empty with another stream of a sensor']
targets = sensc.c11
