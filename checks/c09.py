"""C09: design rules and library tables survive saving and loading"""
from .common import *

TITLE = 'Design rules and library tables survive saving and loading'
RULE = ('Random models of rules, constraints and libraries (stream items) and of whole rule files and library tables of both '
        'kinds (streams documents and files), written, read and written again; attributes and token trees are compared with '
        'the model. Non-trivial: an item of at least 4 tokens, a document of at least 12; distinct by its text. ' + FLAG_DENSITY)
ASSUMPTIONS = [TRUST, DOMAIN, 'Comments in rule files and bare numbers as limits are not generated']
NAMES = ['dru.Constraint', 'dru.Rule', 'libraries.Library']


def items(g, ctx):
    start(g)
    return item_round_trip(g, NAMES)


def documents(g, ctx):
    start(g)
    return document_round_trip(g, ctx, g.pick(('dru.DesignRules', 'libraries.LibTable')))


def files(g, ctx):
    start(g)
    return document_from_file(g, ctx, g.pick(('dru.DesignRules', 'libraries.LibTable')))


def big(g, ctx):
    return big_document(g, ctx, g.pick(('dru.DesignRules', 'libraries.LibTable')))


STREAMS = [Stream('big', big, 48, 1200), Stream('items', items, 50000, 1200000), Stream('documents', documents, 30000, 750000),
           Stream('files', files, 30000, 750000)]
