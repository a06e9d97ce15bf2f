"""Where the camellia shared library is, for the reference cipher only."""
import glob
import os

_kw = None


def kwargs():
    global _kw
    if _kw is None:
        import camcrypt
        try:
            camcrypt.CamCrypt()
            _kw = {}
        except OSError:
            _kw = {'libraryPath': glob.glob(os.path.join(
                camcrypt.__path__[0], 'camellia*.so'))[0]}
    return _kw
