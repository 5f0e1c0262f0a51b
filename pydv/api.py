"""What a specification module uses.  Harnesses are plain Python: they run natively and inside the verifier."""


class CheckFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label, self.detail = label, detail


class Assumed(Exception):
    pass


COUNT = [0]


def check(cond, label='', *info):
    COUNT[0] += 1
    if not cond:
        raise CheckFailed(label, ', '.join(short(x) for x in info))


def lemma(cond, label=''):
    """A step of the argument about how state is represented, not a promise to users: proved by the verifier, never an alarm."""


def short(x):
    try:
        r = repr(x)
    except Exception as e:
        r = '<%s>' % type(x).__name__
    return r if len(r) < 600 else r[:600] + '...'


def assume(cond):
    if not cond:
        raise Assumed()


CANON = (ValueError, TypeError, KeyError, IndexError, AttributeError, OverflowError, ZeroDivisionError,
         ConnectionError, OSError, StopIteration)


def canon_exc(cls):
    for c in CANON:
        if issubclass(cls, c):
            return c
    return cls


def outcome(fn, *args, **kw):
    """('ok', value) or ('raises', exception class)."""
    try:
        return ('ok', fn(*args, **kw))
    except (CheckFailed, Assumed, MemoryError, KeyboardInterrupt, TimeoutError_):
        raise
    except Exception as e:
        return ('raises', canon_exc(type(e)))


class TimeoutError_(BaseException):
    pass


def raises(cls, fn, *args, **kw):
    r = outcome(fn, *args, **kw)
    return r[0] == 'raises' and issubclass(r[1], cls)


def same(a, b):
    """Structural equality: values by ==, objects by class and fields, kinds must agree."""
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(a[k], b[k]) for k in a)
    if type(a) is type(b) and type(a).__module__.split('.')[0] in ('bit', 'specs'):
        return fields_of(a) == fields_of(b) if not isinstance(a, type) else a is b
    if isinstance(a, (bytes, str)) != isinstance(b, (bytes, str)):
        return False
    return a == b


def fields_of(o):
    d = dict(getattr(o, '__dict__', {}))
    for c in type(o).__mro__:
        sl = c.__dict__.get('__slots__', ())
        for s in ((sl,) if isinstance(sl, str) else sl):
            if hasattr(o, s):
                d[s] = getattr(o, s)
    return d


class Harness:
    def __init__(self, name, props, fn, doms, **opt):
        self.name, self.props, self.fn, self.doms = name, props, fn, doms
        self.uses = list(opt.pop('uses', ()))              # names of contracts the proof relies on
        self.native = opt.pop('native', True)
        self.symbolic = opt.pop('symbolic', True)
        self.bounded = opt.pop('bounded', None)            # text: why / what bound
        self.patch = opt.pop('patch', None)                # () -> list of (object, attribute, value) for both modes
        self.sympatch = opt.pop('sympatch', None)          # only inside the verifier
        self.natpatch = opt.pop('natpatch', None)
        self.budget = opt.pop('budget', 240)
        self.cases = opt.pop('cases', 20000)
        self.secs = opt.pop('secs', 4)
        self.paths = opt.pop('paths', 4000)
        self.setup = opt.pop('setup', None)
        self.extra = opt.pop('extra', {})
        self.anchors = opt.pop('anchors', ())
        self.thorough = opt.pop('thorough', False)         # only in the thorough tier
        self.unroll = opt.pop('unroll', None)
        self.quick_ms = opt.pop('quick_ms', 4000)   # solver time for the questions asked while exploring
        self.split = tuple(opt.pop('split', ()))           # finite parameters whose values are proved in separate processes
        assert not opt, opt


REG = {}
CONTRACT = {}


def harness(props, _name=None, **opt):
    """@harness('P06', _opts..., x=Int(...))  -- lower-case options are given through opt(...)"""
    from .domains import Dom
    props = [props] if isinstance(props, str) else list(props)
    doms = {k: v for k, v in opt.items() if isinstance(v, Dom)}
    rest = {k: v for k, v in opt.items() if not isinstance(v, Dom)}

    def deco(fn):
        name = _name or fn.__module__.split('.')[-1] + '.' + fn.__name__
        assert name not in REG, name
        REG[name] = Harness(name, props, fn, doms, **rest)
        return fn
    return deco


class Contract:
    def __init__(self, name, targets, model, proofs, note=''):
        self.name, self.targets, self.model, self.proofs, self.note = name, targets, model, proofs, note


def contract(name, targets, model, proofs, note=''):
    """targets(): native functions replaced by model(args, kwargs) in callers; proofs: harness names that justify it."""
    CONTRACT[name] = Contract(name, targets, model, proofs, note)


def state_of(fn):
    """Everything the closure of fn can change: its captured variables, by name, as a comparable snapshot."""
    out = []
    fn = getattr(fn, '__func__', fn)
    for n, c in sorted(zip(fn.__code__.co_freevars, fn.__closure__ or ()), key=lambda p: p[0]):
        try:
            out.append(plain(c.cell_contents))
        except ValueError:
            out.append('unbound')
    return out


def plain(v):
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if type(v).__module__.split('.')[0] in ('bit', 'specs') and not isinstance(v, type):
        return [[n, plain(x)] for n, x in sorted(fields_of(v).items())]
    if callable(v):
        return 'function'
    return v
