"""Rate and fee caches.

The cache is proved correct for histories of any length by induction: a canonical state is the state a fresh cache has
after at most one successful fetch per slot; from every canonical state, every single call (any clock reading, cache time
and service outcome) returns the right value and leaves a state that is again canonical for the updated history."""
import requests
from pydv.api import harness, check, assume, outcome, raises, same, state_of, lemma
from pydv.domains import *
from specs import env
import bit.network.fees as fees
import bit.network.rates as rates


class World:
    now = 0
    ok = True
    error = 0
    fast = 0
    hour = 0
    rate = 0
    fetches = 0


class Reply:
    def __init__(self, status):
        self.status_code = status

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.exceptions.HTTPError('status')

    def json(self):
        return {'fastestFee': World.fast, 'halfHourFee': World.fast + 1000003, 'hourFee': World.hour, 'minimumFee': 1}


def clock():
    return World.now


def fetch(url, **kw):
    World.fetches += 1
    if World.ok:
        return Reply(200)
    if World.error == 0:
        raise requests.exceptions.ConnectionError('down')
    if World.error == 1:
        raise requests.exceptions.Timeout('slow')
    return Reply(500)


def patch_fees():
    return env.patch_clock(fees, clock) + env.patch_get(fees, fetch)


def answer(fast, hour, ok, error):
    World.fast, World.hour, World.ok, World.error = fast, hour, ok, error


def fresh(t0):
    World.now = t0
    return fees.get_fee_local_cache(None)


def canonical(t0, ff, ft, hf, ht):
    """A cache created at t0 that fetched the fast fee ff at ft and the hour fee hf at ht (None: never)."""
    w = fresh(t0)
    if ff is not None:
        World.now = ft
        answer(ff, 0, True, 0)
        w(True)
    if hf is not None:
        World.now = ht
        answer(0, hf, True, 0)
        w(False)
    return w


FEE = Int(1, 10 ** 6)
T = Int(0, 10 ** 12)


@harness('P17', t0=T, ff=Maybe(FEE), ft=T, hf=Maybe(FEE), ht=T, now=T, ttl=Int(0, 10 ** 7), fast=Bool(), ok=Bool(),
         error=Int(0, 2), nf=FEE, nh=FEE, later=T, ttl2=Int(0, 10 ** 7), fast2=Bool(), ok2=Bool(), patch=patch_fees)
def fee_step(t0, ff, ft, hf, ht, now, ttl, fast, ok, error, nf, nh, later, ttl2, fast2, ok2):
    fees.set_fee_cache_time(0)
    w = canonical(t0, ff, ft, hf, ht)
    fees.set_fee_cache_time(ttl)
    World.now = now
    World.fetches = 0
    answer(nf, nh, ok, error)
    got = w(fast)
    old = ff if fast else hf
    when = ft if fast else ht
    new = nf if fast else nh
    default = 72 if fast else 62
    if old is not None and now - when <= ttl:
        check(got == old and World.fetches == 0, 'a fresh cached fee is returned without a request')
    elif ok:
        check(got == new and World.fetches == 1, 'a stale or missing fee is fetched')
        old, when = new, now
    else:
        check(World.fetches >= 1, 'a stale or missing fee is asked for')
        check(got == (default if old is None else old), 'a failing service leaves the last fee or the default')
    after = state_of(w)
    fees.set_fee_cache_time(0)
    c = canonical(t0, old if fast else ff, when if fast else ft, hf if fast else old, ht if fast else when)
    lemma(state_of(c) == after, 'the cache remembers exactly the last successful fetch of each speed')
    fees.set_fee_cache_time(ttl2)
    World.now = later
    answer(nf + 1, nh + 1, ok2, error)
    check(w(fast2) == c(fast2), 'the next answer depends on the last successful fetch of each speed only')
    fees.set_fee_cache_time(600)


class Model:
    """Reference cache for any history of calls."""

    def __init__(self):
        self.value, self.when = None, None

    def call(self, now, ttl, ok, new, default):
        if self.value is not None and now - self.when <= ttl:
            return self.value
        if ok:
            self.value, self.when = new, now
            return new
        return default if self.value is None else self.value


@harness('P17', steps=Lst(Tup(T, Int(0, 10 ** 4), Bool(), Bool(), Int(0, 2), FEE, FEE), n=3), patch=patch_fees, paths=20000,
         bounded='histories of three calls', symbolic=False)
def fee_history3(steps):
    fee_run(steps)


def small_times(rng):
    t, out = 0, []
    for _ in range(rng.randrange(1, 25)):
        t += rng.choice((0, 1, 9, 10, 11, 100, 599, 600, 601)) * rng.choice((1, 1, 1, -1 if t > 1000 else 1))
        out.append((t, rng.choice((0, 10, 600, 600)), rng.random() < 0.5, rng.random() < 0.6, rng.randrange(3),
                    rng.randrange(1, 500), rng.randrange(1, 500)))
    return out


@harness('P17', steps=Gen(small_times), patch=patch_fees, symbolic=False, bounded='generated histories of up to 25 calls')
def fee_history(steps):
    fee_run(steps)


def fee_run(steps):
    w = fresh(0)
    f, h = Model(), Model()
    for now, ttl, fast, ok, error, nf, nh in steps:
        fees.set_fee_cache_time(ttl)
        World.now = now
        answer(nf, nh, ok, error)
        if fast:
            want = f.call(now, ttl, ok, nf, 72)
        else:
            want = h.call(now, ttl, ok, nh, 62)
        check(w(fast) == want, 'fee after any history')
    fees.set_fee_cache_time(600)


@harness('P17', fast=Bool(), nf=FEE, nh=FEE, patch=patch_fees)
def fee_direct(fast, nf, nh):
    answer(nf, nh, True, 0)
    check(fees.get_fee(fast) == (nf if fast else nh), 'get_fee asks for the speed it is given')


@harness('P17', fast=Bool(), s=Int(0, 10 ** 6))
def fee_entry(fast, s):
    fees.set_fee_cache_time(s)
    check(fees.DEFAULT_CACHE_TIME == s, 'set_fee_cache_time')
    rates.set_rate_cache_time(s)
    check(rates.DEFAULT_CACHE_TIME == s, 'set_rate_cache_time')
    fees.set_fee_cache_time(600)
    rates.set_rate_cache_time(60)


# ---- exchange rates ------------------------------------------------------------------------------

def rate_a():
    World.fetches += 1
    if not World.ok:
        raise ConnectionError('All APIs are unreachable.')
    return World.rate


def rate_b():
    World.fetches += 1000
    if not World.ok:
        raise ConnectionError('All APIs are unreachable.')
    return World.rate


def patch_rates():
    return env.patch_clock(rates, clock) + [(rates, 'EXCHANGE_RATES', {'usd': rate_a, 'eur': rate_b})]


def rate_canonical(t0, ur, ut, er, et):
    World.now, World.ok = t0, True
    w = rates.currency_to_satoshi_local_cache(None)
    if ur is not None:
        World.now, World.rate = ut, ur
        w(1, 'usd')
    if er is not None:
        World.now, World.rate = et, er
        w(1, 'eur')
    return w


@harness('P17', t0=T, ur=Maybe(FEE), ut=T, er=Maybe(FEE), et=T, now=T, ttl=Int(0, 10 ** 7), usd=Bool(), new=FEE, ok=Bool(),
         amount=Int(0, 10 ** 9), later=T, ttl2=Int(0, 10 ** 7), usd2=Bool(), patch=patch_rates)
def rate_step(t0, ur, ut, er, et, now, ttl, usd, new, ok, amount, later, ttl2, usd2):
    rates.set_rate_cache_time(0)
    w = rate_canonical(t0, ur, ut, er, et)
    rates.set_rate_cache_time(ttl)
    World.now, World.rate, World.fetches, World.ok = now, new, 0, ok
    cur = 'usd' if usd else 'eur'
    got = outcome(w, amount, cur)
    old = ur if usd else er
    when = ut if usd else et
    if old is not None and now - when <= ttl:
        check(got == ('ok', amount * old) and World.fetches == 0, 'a fresh cached rate is used without a request')
    elif not ok:
        check(got == ('raises', ConnectionError) and World.fetches == (1 if usd else 1000), 'a failing rate service is reported')
    else:
        check(got == ('ok', amount * new) and World.fetches == (1 if usd else 1000), 'a stale or missing rate is fetched for that currency')
        old, when = new, now
    after = state_of(w)
    rates.set_rate_cache_time(0)
    c = rate_canonical(t0, old if usd else ur, when if usd else ut, er if usd else old, et if usd else when)
    lemma(state_of(c) == after, 'the cache remembers exactly the last successful fetch of each currency')
    rates.set_rate_cache_time(ttl2)
    World.now, World.rate, World.ok = later, new + 1, True
    check(w(7, 'usd' if usd2 else 'eur') == c(7, 'usd' if usd2 else 'eur'), 'the next answer depends on the last successful fetch of each currency only')
    rates.set_rate_cache_time(60)


def rate_steps(rng):
    t, out = 0, []
    for _ in range(rng.randrange(1, 25)):
        t += rng.choice((0, 1, 9, 10, 11, 59, 60, 61, 100))
        out.append((t, rng.choice((0, 10, 60, 60)), rng.random() < 0.5, rng.randrange(1, 500), rng.random() < 0.7))
    return out


@harness('P17', steps=Gen(rate_steps), patch=patch_rates, symbolic=False, bounded='generated histories of up to 25 calls')
def rate_history(steps):
    World.now = 0
    w = rates.currency_to_satoshi_local_cache(None)
    u, e = Model(), Model()
    for now, ttl, usd, new, ok in steps:
        rates.set_rate_cache_time(ttl)
        World.now, World.rate, World.ok = now, new, ok
        m = u if usd else e
        want = m.call(now, ttl, ok, new, None)
        fails = not ok and (want is None or now - m.when > ttl)
        got = outcome(w, 3, 'usd' if usd else 'eur')
        check(got == (('raises', ConnectionError) if fails else ('ok', 3 * want)), 'rate after any history')
    World.ok = True
    rates.set_rate_cache_time(60)
