"""Access to the code under test: always /repo's working tree, never an installed copy."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


def inside(filename):
    """Is this a file of the code under test?"""
    return os.path.realpath(filename).startswith(os.path.realpath(SRC) + os.sep)


def load():
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import kiutils
    where = os.path.realpath(kiutils.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f'kiutils was imported from {where}')
    from . import model
    model.load_classes()
    import kiutils.items.zones as z
    model.CLASSES['zones.Hatch'] = z.Hatch
    return kiutils
