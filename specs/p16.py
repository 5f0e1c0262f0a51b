"""Amounts."""
import decimal
from decimal import getcontext
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
import bit.network.rates as rates
import bit.network.services as services
import bit.utils as utils

SUPPLY = 21 * 10 ** 14
UNITS = (('satoshi', 1, 0), ('ubtc', 100, 2), ('mbtc', 100000, 5), ('btc', 100000000, 8))
FIAT = ('usd', 'eur', 'gbp', 'jpy', 'cny', 'cad', 'aud', 'nzd', 'rub', 'brl', 'chf', 'sek', 'dkk', 'isk', 'pln', 'hkd',
        'krw', 'sgd', 'thb', 'twd', 'clp')
PLACES = {'jpy': 0, 'krw': 0, 'clp': 0}


def floor(x):
    """Largest integer not above x >= 0."""
    return int(x)


class Service:
    rate = 0


def fiat_rate():
    return Service.rate


def patch_rates():
    d = dict(rates.EXCHANGE_RATES)
    for c in FIAT:
        d[c] = fiat_rate
    return [(rates, 'EXCHANGE_RATES', d), (rates, 'currency_to_satoshi_local_cached', rates.currency_to_satoshi_local_cache(fiat_rate))]


@harness('P16', n=Int(0, SUPPLY), u=Choice(*UNITS))
def whole_amounts(n, u):
    name, mult, places = u
    assume(n * mult <= SUPPLY)
    check(rates.currency_to_satoshi(n, name) == n * mult, 'int amounts')
    check(rates.currency_to_satoshi_cached(n, name) == n * mult, 'int amounts (cached)')


@harness('P16', x=Real(0, 21 * 10 ** 6, places=18), u=Choice(*UNITS))
def decimal_amounts(x, u):
    name, mult, places = u
    r = rates.currency_to_satoshi(x, name)
    check(r <= x * mult and x * mult < r + 1, 'Decimal amounts are truncated to a satoshi')
    check(rates.currency_to_satoshi_cached(x, name) == r, 'cached conversion agrees')


@harness('P16', x=DecText(0, 21 * 10 ** 6, places=18), u=Choice(*UNITS))
def text_amounts(x, u):
    name, mult, places = u
    r = rates.currency_to_satoshi(x, name)
    v = decimal.Decimal(x)
    check(r <= v * mult and v * mult < r + 1, 'text amounts are truncated to a satoshi')
    check(rates.currency_to_satoshi_cached(x, name) == r, 'cached conversion agrees')


def a_float(rng):
    k, places = rng.randrange(10 ** rng.choice((1, 3, 6, 9, 12, 15))), rng.choice((0, 1, 2, 3, 5, 8, 9))
    return dict(x=float('%de-%d' % (k, places)), u=rng.choice(UNITS))


@harness('P16', f=Gen(a_float), symbolic=False, bounded='generated floats')
def float_amounts(f):
    """A float means the decimal number it is written as (0.29, not 0.28999...)."""
    (name, mult, places), x = f['u'], f['x']
    v = decimal.Decimal(repr(x))
    assume(v * mult <= SUPPLY)
    r = rates.currency_to_satoshi(x, name)
    check(r <= v * mult and v * mult < r + 1, 'float amounts are truncated to a satoshi', x, name, r)
    check(rates.currency_to_satoshi_cached(x, name) == r, 'cached conversion agrees')


@harness('P16', n=Int(0, SUPPLY), u=Choice(*UNITS))
def shown_exactly(n, u):
    name, mult, places = u
    for f in (rates.satoshi_to_currency, rates.satoshi_to_currency_cached):
        s = f(n, name)
        v = decimal.Decimal(s)
        check(v * mult == n, 'every satoshi is shown')
        check(rates.currency_to_satoshi(s, name) == n, 'round trip')
        check(isinstance(s, str), 'text')


@harness('P16', n=Int(0, SUPPLY), u=Choice(*UNITS))
def plain_notation(n, u):
    s = rates.satoshi_to_currency(n, u[0])
    check(all([c in '0123456789.' for c in s]), 'plain decimal notation')


@harness('P16', n=Int(0, SUPPLY), rate=Int(1, 10 ** 8), cur=Choice(*FIAT), patch=patch_rates)
def fiat(n, rate, cur):
    Service.rate = rate
    shown(n, rate, cur, rates.satoshi_to_currency(n, cur))


def shown(n, rate, cur, text):
    scale = 10 ** PLACES.get(cur, 2)
    v = decimal.Decimal(text)
    k = v * scale
    check(k * rate <= n * scale and n * scale < (k + 1) * rate, 'rounded down to the currency precision')
    check(k == int(k), 'no more places than the currency has')


@harness('P16', n=Int(0, SUPPLY), rate=Int(1, 10 ** 8), cur=Choice(*FIAT), patch=patch_rates)
def fiat_cached(n, rate, cur):
    rates.set_rate_cache_time(-1)
    Service.rate = rate
    text = rates.satoshi_to_currency_cached(n, cur)
    rates.set_rate_cache_time(60)
    shown(n, rate, cur, text)


@harness('P16', x=Real(0, 10 ** 9, places=6), rate=Int(1, 10 ** 8), cur=Choice(*FIAT), patch=patch_rates)
def fiat_amounts(x, rate, cur):
    Service.rate = rate
    r = rates.currency_to_satoshi(x, cur)
    check(r <= x * rate and x * rate < r + 1, 'fiat amounts use the current rate')
    rates.set_rate_cache_time(-1)
    c = rates.currency_to_satoshi_cached(x, cur)
    rates.set_rate_cache_time(60)
    check(c == r, 'cached conversion agrees')


class FakeHost:
    """RPCHost whose node answers with a given amount."""
    amount = 0


def rpc_answer(address, conf):
    return FakeHost.amount


def rpc_getattr(self, name):
    return rpc_answer


class FakeSession:
    verify = None


def patch_rpc():
    return [(services.requests, 'Session', FakeSession), (services.RPCHost, '__getattr__', rpc_getattr)]


@harness(['P16', 'P19'], sat=Int(0, SUPPLY), patch=patch_rpc)
def rpc_balance(sat):
    FakeHost.amount = decimal.Decimal(sat) / 100000000
    host = services.RPCHost('u', 'p', 'h', 1, False, '')
    before = getcontext().prec
    check(host.get_balance('addr') == sat, 'node balance in satoshi')
    check(host.get_balance_testnet('addr') == sat, 'node balance in satoshi (testnet)')
    check(getcontext().prec == before, 'decimal precision untouched')


@harness('P16', a=Int(0, SUPPLY), b=Int(0, SUPPLY), patch=patch_rpc)
def history_independent(a, b):
    FakeHost.amount = decimal.Decimal(a) / 100000000
    before = rates.satoshi_to_currency(b, 'btc')
    services.RPCHost('u', 'p', 'h', 1, False, '').get_balance('addr')
    rates.currency_to_satoshi('0.1', 'btc')
    rates.satoshi_to_currency(a, 'mbtc')
    check(rates.satoshi_to_currency(b, 'btc') == before, 'same answer after other calls')
    check(getcontext().prec == 28, 'decimal precision untouched')
