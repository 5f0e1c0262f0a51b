"""Stand-ins for the outside world: clock, HTTP, randomness.  Patched in at the library boundary, so that how bit's modules
import or wrap those libraries does not matter."""
import time as _time
import types
import requests


def patch_clock(mod, clock):
    """The clock seen by module mod, whether it says `from time import time` or `import time`."""
    out = [(_time, 'time', clock)]
    if 'time' in vars(mod) and not isinstance(vars(mod)['time'], types.ModuleType):
        out.append((mod, 'time', clock))
    return out


def patch_get(mod, get):
    out = [(requests, 'get', get)]
    if 'get' in vars(mod):
        out.append((mod, 'get', get))
    return out
