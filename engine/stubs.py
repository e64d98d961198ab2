"""Stand-ins for native modules in symbolic runs."""
import sys
from . import ec


def install():
    sys.modules['electrumsv_secp256k1'] = ec.module()
    from . import aesm
    aesm.install()
