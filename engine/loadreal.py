"""Imports /repo's current source (and PyJWT) through the transformer."""
import sys


def load(repo, here):
    from . import instr, models
    site = '/opt/venv/lib/python3.12/site-packages'
    # libraries that stay native are imported before the finder is active
    import six, cryptography, enum, ijson            # noqa
    try:
        import requests                               # noqa
    except ImportError:
        pass
    instr.install({'librksv': (repo, True), 'jwt': (site, False), 'harness': (here, False)})
    models.install_crypto()
    import jwt                                        # noqa
    models.install_jwt()
    models.install_ijson()
    import librksv                                    # noqa
