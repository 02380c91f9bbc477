PROPERTY='P29'
NEEDS='a recommendation for exactly 1000 or exactly 100000 vectors'
BREAKS='the helper recommends another index than the configuration module at the limits of a size class'
EDITS=[('src/valori/utils/helpers.py','''    if num_vectors < 1000:
''','''    if num_vectors <= 1000:
''')]
DEMO='''
import sys
from valori.configs import *
import valori.configs as C
from valori.utils.helpers import get_recommended_index_config as h
g = C.get_recommended_config
a = h(1000, 128)["type"]
b = g(1000, 128)
b = b["index"]["type"]
print(a, b)
sys.exit(a != b)
'''
