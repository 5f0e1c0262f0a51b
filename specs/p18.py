"""Failover between services."""
import requests
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import env
import bit.network.services as services
from bit.exceptions import ExcessiveAddress

api = services.NetworkAPI


class Log:
    calls = 0
    last = -1


class Provider:
    """A service with a fixed behaviour: kind 0 answers, 1-5 fail in a way that is skipped, 6 fails otherwise."""

    def __init__(self, kind, answer, pos):
        self.kind, self.answer, self.pos = kind, answer, pos

    def __call__(self, arg):
        if self.kind == 1:
            raise ConnectionError('down')
        if self.kind == 2:
            raise requests.exceptions.ConnectionError('down')
        if self.kind == 3:
            raise requests.exceptions.Timeout('slow')
        if self.kind == 4:
            raise requests.exceptions.ReadTimeout('slow')
        if self.kind == 5:
            raise ExcessiveAddress('too many')
        if self.kind == 6:
            raise ZeroDivisionError('a defect, not an outage')
        return (self.answer, arg)


QUERY = {'get_balance': 'GET_BALANCE', 'get_transactions': 'GET_TRANSACTIONS', 'get_transaction_by_id': 'GET_TRANSACTION_BY_ID',
         'get_unspent': 'GET_UNSPENT'}
ONE = Rec(Provider, kind=Int(0, 5), answer=Int(0, 100), pos=Choice(0))


def keep_lists():
    return [(api, n, list(getattr(api, n))) for n in sorted(vars(api)) if n.endswith(('_MAIN', '_TEST'))]


def broken(x):
    raise AssertionError('service of the other kind or network used')


def install(query, net, providers):
    for q in ('GET_BALANCE', 'GET_TRANSACTIONS', 'GET_TRANSACTION_BY_ID', 'GET_UNSPENT', 'BROADCAST_TX'):
        setattr(api, q + '_MAIN', [broken])
        setattr(api, q + '_TEST', [broken])
    setattr(api, query + ('_MAIN' if net == 'main' else '_TEST'), providers)


@harness('P18', query=Choice(*sorted(QUERY)), net=Choice('main', 'test'), providers=Lst(ONE), arg=Text(), w=Gen(lambda rng: rng.randrange(6), Int(0).sym), patch=keep_lists)
def query_failover(query, net, providers, arg, w):
    install(QUERY[query], net, providers)
    r = outcome(getattr(api, query + ('' if net == 'main' else '_testnet')), arg)
    assume(w < len(providers) or w == 0)
    if all([p.kind != 0 for p in providers]):
        check(r == ('raises', ConnectionError), 'ConnectionError only when all services fail')
    else:
        check(r[0] == 'ok', 'answered when some service answers')
        if providers[w].kind == 0 and all([p.kind != 0 for p in providers[:w]]):
            check(r[1] == (providers[w].answer, arg), 'the first answer, to the very question')


class Gate:
    """A broadcasting service: kind 0 accepts, 1-5 fail and are skipped, 6 rejects."""

    def __init__(self, kind, pos):
        self.kind, self.pos = kind, pos

    def __call__(self, arg):
        if self.kind == 1:
            raise ConnectionError('down')
        if self.kind == 2:
            raise requests.exceptions.ConnectionError('down')
        if self.kind == 3:
            raise requests.exceptions.Timeout('slow')
        if self.kind == 4:
            raise requests.exceptions.ReadTimeout('slow')
        if self.kind == 5:
            raise ExcessiveAddress('too many')
        return self.kind == 0


@harness('P18', net=Choice('main', 'test'), providers=Lst(Rec(Gate, kind=Int(0, 6), pos=Choice(0))), arg=Text(), patch=keep_lists)
def broadcast_failover(net, providers, arg):
    install('BROADCAST_TX', net, providers)
    r = outcome(api.broadcast_tx if net == 'main' else api.broadcast_tx_testnet, arg)
    if any([p.kind == 0 for p in providers]):
        check(r == ('ok', None), 'succeeds as soon as one service accepts')
    else:
        check(r == ('raises', ConnectionError), 'ConnectionError when none accepts')


class Counter:
    """A service that counts its calls."""

    def __init__(self, kind):
        self.kind, self.calls, self.seen = kind, 0, None

    def __call__(self, arg):
        self.calls += 1
        self.seen = arg
        Log.calls += 1
        if self.kind == 1:
            raise ConnectionError('down')
        if self.kind == 2:
            raise requests.exceptions.ConnectionError('down')
        if self.kind == 3:
            raise requests.exceptions.Timeout('slow')
        if self.kind == 4:
            raise requests.exceptions.ReadTimeout('slow')
        if self.kind == 5:
            raise ExcessiveAddress('too many')
        return self.kind == 0


ALL = dict(QUERY, broadcast_tx='BROADCAST_TX')


@harness('P18', query=Choice(*sorted(ALL)), net=Choice('main', 'test'), kinds=Lst(Int(0, 6), n=3), patch=keep_lists, paths=20000,
         bounded='three services')
def called_in_order(query, net, kinds):
    providers = [Counter(k) for k in kinds]
    install(ALL[query], net, providers)
    outcome(getattr(api, query + ('' if net == 'main' else '_testnet')), 'x')
    done = False
    for p in providers:
        if done:
            check(p.calls == 0, 'no further service is asked after an answer')
        else:
            check(p.calls == 1 and p.seen == 'x', 'every service up to the first answer is asked once')
        done = done or p.kind == 0 or p.kind == 6 and query != 'broadcast_tx'


class Flaky:
    """A service that is up or down, differently in each round."""

    def __init__(self, name, up):
        self.name, self.up, self.round, self.calls = name, up, 0, []

    def __call__(self, arg):
        self.calls.append(self.round)
        if not self.up[self.round]:
            raise ConnectionError('down')
        return self.name


@harness('P18', query=Choice(*sorted(ALL)), net=Choice('main', 'test'), up=Lst(Tup(Bool(), Bool(), Bool()), n=3), patch=keep_lists, paths=20000,
         bounded='three services, three queries after each other')
def order_survives(query, net, up):
    """Whatever failed before, every query tries the services in the configured order."""
    providers = [Flaky('abc'[j], up[j]) for j in range(3)]
    install(ALL[query], net, providers)
    ask = getattr(api, query + ('' if net == 'main' else '_testnet'))
    for r in range(3):
        for p in providers:
            p.round = r
        got = outcome(ask, 'x')
        answered = False
        for p in providers:
            check((r in p.calls) == (not answered), 'asked in the configured order, up to the first answer')
            if not answered and p.up[r]:
                answered = True
                check(got == ('ok', p.name if query != 'broadcast_tx' else None), 'the first answer')
        if not answered:
            check(got == ('raises', ConnectionError), 'ConnectionError only when all services fail')


class Session:
    verify = None


def patch_node():
    return keep_lists() + [(requests, 'Session', Session), (services.requests, 'Session', Session)]


@harness(['P18', 'P10'], testnet=Bool(), both=Bool(), patch=patch_node)
def node(testnet, both):
    names = [q + n for q in ('GET_BALANCE', 'GET_TRANSACTIONS', 'GET_TRANSACTION_BY_ID', 'GET_UNSPENT', 'BROADCAST_TX') for n in ('_MAIN', '_TEST')]
    before = {n: getattr(api, n) for n in names}
    kept = {n: list(getattr(api, n)) for n in names}
    host = api.connect_to_node('user', 'password', host='localhost', port=1, testnet=testnet)
    here = '_TEST' if testnet else '_MAIN'
    for n in names:
        now = getattr(api, n)
        if n.endswith(here):
            check(len(now) == 1 and now[0].__self__ is host, 'the node is the only service of its network')
        else:
            check(now is before[n] and list(now) == kept[n], 'services of the other network are left alone')
    if both:
        second = api.connect_to_node('user', 'password', host='localhost', port=2, testnet=not testnet)
        for n in names:
            now = getattr(api, n)
            check(len(now) == 1 and now[0].__self__ is (host if n.endswith(here) else second), 'a node for each network')
