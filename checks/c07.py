"""C07: Symbol libraries survive saving and loading"""
from .common import *

TITLE = 'Symbol libraries survive saving and loading'
RULE = ('Random models of every item class of the format (stream items) and of whole documents (streams documents and '
        'files) are built through the public attributes or rendered as a file with drawn layout, then written, read '
        'and written again; attributes and token trees are compared with the model. Non-trivial: an item of at least 4 '
        'tokens, a document of at least 12; distinct by its text. ' + FLAG_DENSITY)
ASSUMPTIONS = [TRUST, DOMAIN]
STREAMS = round_trip_streams('symbol.SymbolLib', ('symbol', 'common'), 60000, 16000)
