"""Service adapters: coins, balances, histories and raw transactions exactly as in the replies."""
import requests
from pydv.api import harness, check, assume, outcome, raises, same
from pydv.domains import *
from specs import ref, scene, web
import bit.network.services as services
import bit.transaction as tx
from bit.exceptions import ExcessiveAddress

CLASS = dict(blockchair='BlockchairAPI', blockstream='BlockstreamAPI', bitcore='BitcoreAPI', smartbit='SmartbitAPI', blockchain='BlockchainAPI')
BALANCE = [(p, n) for p in ('blockchair', 'blockstream', 'bitcore', 'smartbit') for n in ('main', 'test')] + [('blockchain', 'main')]
HISTORY = [(p, n) for p in ('blockchair', 'blockstream', 'smartbit') for n in ('main', 'test')] + [('blockchain', 'main')]
PUSH = {'blockchair': ('push/transaction', 'data'), 'blockstream': ('tx', 'data'), 'bitcore': ('tx/send', 'rawTx'),
        'smartbit': ('pushtx', 'hex'), 'blockchain': ('pushtx', 'tx')}
SKIP = (ConnectionError, requests.exceptions.ConnectionError, requests.exceptions.Timeout, ExcessiveAddress)


def adapter(provider, what, net):
    return getattr(getattr(services, CLASS[provider]), what + ('_testnet' if net == 'test' else ''))


def world(rng, net=None, most=5):
    net = net or rng.choice(('main', 'test'))
    address, script = scene.some_address(rng, net)
    while address != address.lower() and address.lower().startswith(('bc1', 'tb1', 'bcrt1')):
        address, script = scene.some_address(rng, net)
    tip = rng.randrange(1, 10 ** 6)
    count = rng.choice((0, 1, 2, 3, most))
    coins = [dict(value=rng.choice((0, 1, 546, rng.randrange(10 ** 10), rng.randrange(21 * 10 ** 14))),
                  height=rng.choice((-1, tip, 0, rng.randrange(tip + 1))), txid='%064x' % rng.randrange(2 ** 256), n=rng.choice((0, 1, 7, 300)))
             for _ in range(count)]
    more = rng.choice((0, 1, 2, 24, 25, 26, 49, 50, 51, most))
    return dict(net=net, address=address, script=script.hex(), tip=tip, coins=coins, txs=['%064x' % rng.randrange(2 ** 256) for _ in range(more)],
                pending=['%064x' % rng.randrange(2 ** 256) for _ in range(rng.choice((0, 0, 1, 49, 50, 51)))],
                txid='%064x' % rng.randrange(2 ** 256), raw='%x' % rng.randrange(2 ** 400), lists_none=rng.random() < 0.5)


def many(rng):
    return world(rng, most=rng.choice((99, 100, 101, 200, 999, 1000, 1001, 2000, 2001, 2500)))


def coins_key(s):
    return sorted([(c['value'], web.conf(s, c), s['script'], c['txid'], c['n'], 0xffffffff) for c in s['coins']])


def same_coins(got, s):
    return sorted([(u.amount, u.confirmations, u.script, u.txid, u.txindex, u.sequence) for u in got]) == coins_key(s)


def whole(s, u):
    return all([isinstance(x.amount, int) and isinstance(x.confirmations, int) for x in u])


def coins_case(provider, s):
    web.reset(s)
    a = s['address']
    fn = adapter(provider, 'get_unspent', s['net'])
    if provider == 'blockchain' and len(s['coins']) >= 1000:
        check(exactly(ExcessiveAddress, fn, a), 'an incomplete list is refused')
        return
    got = fn(a)
    check(not web.Web.bad, 'the address is asked for at the right endpoint', web.Web.bad)
    check(same_coins(got, s), 'one coin per listed output with its value, id, index, script and confirmations')
    check(whole(s, got), 'whole satoshi')


def exactly(cls, fn, *args):
    try:
        fn(*args)
    except cls:
        return True
    return False


@harness('P19', s=Gen(world), patch=web.patch, symbolic=False, bounded='generated replies')
def adapters_coins(s):
    for provider, net in BALANCE:
        if net == s['net']:
            coins_case(provider, s)


@harness('P19', s=Gen(many), patch=web.patch, symbolic=False, secs=6, bounded='generated replies of up to 2500 coins or transactions')
def adapters_pages(s):
    for provider, net in BALANCE:
        if net == s['net']:
            coins_case(provider, s)
    for provider, net in HISTORY:
        if net == s['net']:
            history_case(provider, s)


@harness('P19', s=Gen(world), patch=web.patch, symbolic=False, bounded='generated replies')
def adapters_balance(s):
    for provider, net in BALANCE:
        if net == s['net']:
            web.reset(s)
            b = adapter(provider, 'get_balance', net)(s['address'])
            check(not web.Web.bad, 'the address is asked for at the right endpoint', web.Web.bad)
            check(b == sum([c['value'] for c in s['coins']]), 'the balance in satoshi', provider)


def history_case(provider, s):
    web.reset(s)
    fn = adapter(provider, 'get_transactions', s['net'])
    pending = s['pending'] if provider == 'blockstream' and s['net'] == 'main' else []
    if len(pending) >= 50:
        check(exactly(ExcessiveAddress, fn, s['address']), 'an incomplete list is refused')
        return
    got = fn(s['address'])
    check(not web.Web.bad, 'the address is asked for at the right endpoint', web.Web.bad)
    check(sorted(got) == sorted(s['txs'] + pending), 'every transaction once', provider)


@harness('P19', s=Gen(world), patch=web.patch, symbolic=False, bounded='generated replies')
def adapters_history(s):
    for provider, net in HISTORY:
        if net == s['net']:
            history_case(provider, s)
            web.reset(s)
            check(adapter(provider, 'get_transaction_by_id', net)(s['txid']) == s['raw'], 'the raw transaction', provider)
            check(not web.Web.bad, 'the id is asked for at the right endpoint', web.Web.bad)


@harness(['P19', 'P10'], s=Gen(world), patch=web.patch, symbolic=False, bounded='generated transactions')
def adapters_push(s):
    for provider, net in BALANCE:
        if net == s['net']:
            web.reset(s)
            check(adapter(provider, 'broadcast_tx', net)(s['raw']) is True, 'accepted')
            path, field = PUSH[provider]
            check(len(web.Web.posted) == 1 and web.Web.posted[0][:3] == (net, provider, path), 'pushed once to the right endpoint', provider, web.Web.posted)
            check(web.Web.posted[0][3][field] == s['raw'], 'the very transaction', provider)


ADDR = {'main': '1BoatSLRHtKNngkdXEeobR76b53LETtpyT', 'test': 'mtrNwJxS1VyHYn3qBY1Qfsm3K3kh1mGRMS'}
WHO = Choice('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain')
ROW = Tup(Int(0, 21 * 10 ** 14), Int(-1, 10 ** 7), HexText(gen_hi=32), Int(0, 10 ** 5))


def state(net, tip, rows, txs):
    a = ADDR[net]
    return dict(net=net, address=a, script=tx.address_to_scriptpubkey(a).hex(), tip=tip,
                coins=[dict(value=r[0], height=r[1], txid=r[2], n=r[3]) for r in rows], txs=txs, pending=[], txid='ab', raw='cd', lists_none=True)


def shown(u):
    return (u.amount, u.confirmations, u.script, u.txid, u.txindex, u.sequence)


def listed(s, r):
    return (r[0], s['tip'] - r[1] + 1 if r[1] >= 0 else 0, s['script'], r[2], r[3], 0xffffffff)



def ask(who, net, tip, rows):
    assume(who != 'blockchain' or net == 'main')
    assume(len(rows) <= (99 if who == 'bitcore' else 999))
    assume(all([r[1] <= tip for r in rows]))
    s = state(net, tip, rows, [])
    web.reset(s)
    got = adapter(who, 'get_unspent', net)(s['address'])
    check(not web.Web.bad, 'the address is asked for at the right endpoint')
    check(len(got) == len(rows), 'one coin per listed output')
    return s, got


COINS = dict(who=WHO, net=Choice('main', 'test'), tip=Int(0, 10 ** 7), rows=Lst(ROW, hi=999), i=Int(0, 998), patch=web.patch,
             split=['who', 'net'], bounded='replies of up to 999 coins (Bitcore 99), any contents')


@harness('P19', **COINS)
def any_coins(who, net, tip, rows, i):
    s, got = ask(who, net, tip, rows)
    if i < len(rows):
        want = listed(s, rows[i])
        check(any([shown(u) == want for u in got]), 'every listed output with its value, id, index, script and confirmations')


@harness('P19', **COINS)
def no_other_coins(who, net, tip, rows, i):
    s, got = ask(who, net, tip, rows)
    if i < len(got):
        u = shown(got[i])
        check(any([listed(s, r) == u for r in rows]), 'no other coin')


@harness('P19', who=WHO, net=Choice('main', 'test'), rows=Lst(ROW), patch=web.patch, split=['who', 'net'])
def any_balance(who, net, rows):
    assume(who != 'blockchain' or net == 'main')
    s = state(net, 10 ** 7, rows, [])
    web.reset(s)
    b = adapter(who, 'get_balance', net)(s['address'])
    check(not web.Web.bad, 'the address is asked for at the right endpoint')
    check(b == sum([r[0] for r in rows]), 'the balance in satoshi')


@harness('P19', who=Choice('blockchair', 'blockstream', 'smartbit', 'blockchain'), net=Choice('main', 'test'), txs=Lst(HexText(gen_hi=32), hi=99), i=Int(0, 98),
         pending=Lst(HexText(gen_hi=32), hi=49), patch=web.patch, split=['who', 'net'])
def any_history(who, net, txs, pending, i):
    assume(who != 'blockchain' or net == 'main')
    assume(who != 'blockstream' or len(txs) == 0)
    s = state(net, 10 ** 7, [], txs)
    s['pending'] = pending
    web.reset(s)
    got = adapter(who, 'get_transactions', net)(s['address'])
    more = pending if who == 'blockstream' and net == 'main' else []
    check(not web.Web.bad, 'the address is asked for at the right endpoint')
    check(len(got) == len(txs) + len(more), 'every transaction once')
    if i < len(txs):
        t = txs[i]
        check(any([g == t for g in got]), 'every transaction')
    if i < len(more):
        t = more[i]
        check(any([g == t for g in got]), 'every unconfirmed transaction')


@harness(['P19', 'P10'], who=WHO, net=Choice('main', 'test'), raw=HexText(), patch=web.patch, split=['who', 'net'])
def any_push(who, net, raw):
    assume(who != 'blockchain' or net == 'main')
    web.reset(state(net, 10 ** 7, [], []))
    check(adapter(who, 'broadcast_tx', net)(raw) is True, 'accepted')
    path, field = PUSH[who]
    check(len(web.Web.posted) == 1 and web.Web.posted[0][:3] == (net, who, path), 'pushed once to the right endpoint')
    check(web.Web.posted[0][3][field] == raw, 'the very transaction')


@harness('P19', who=Choice('blockchair', 'blockstream', 'smartbit', 'blockchain'), net=Choice('main', 'test'), raw=HexText(), patch=web.patch, split=['who', 'net'])
def any_raw(who, net, raw):
    assume(who != 'blockchain' or net == 'main')
    s = state(net, 10 ** 7, [], [])
    s['raw'] = raw
    web.reset(s)
    check(adapter(who, 'get_transaction_by_id', net)('ab') == raw, 'the raw transaction')
    check(not web.Web.bad, 'the id is asked for at the right endpoint')


# documented empty answers: (provider, query) -> status code
EMPTY = {('blockchair', 'get_transactions'): 404, ('blockchair', 'get_transaction_by_id'): 404, ('blockchair', 'get_unspent'): 404,
         ('blockstream', 'get_transactions'): 400, ('blockstream', 'get_transaction_by_id'): 404, ('blockstream', 'get_unspent_testnet'): 400,
         ('smartbit', 'get_transaction_by_id'): 400, ('blockchain', 'get_transaction_by_id'): 500, ('blockchain', 'get_unspent'): 500}


def failing(rng):
    s = world(rng, most=rng.choice((26, 101, 1001)))
    calls = [(p, q) for p, n in BALANCE for q in ('get_balance', 'get_unspent', 'broadcast_tx') if n == s['net']] + \
            [(p, q) for p, n in HISTORY for q in ('get_transactions', 'get_transaction_by_id') if n == s['net']]
    p, q = rng.choice(calls)
    return dict(s=s, provider=p, query=q, at=rng.choice((0, 0, 1, 2)), error=rng.choice((0, 0, 0, 1, 2, 3)),
                status=rng.choice((201, 204, 301, 400, 401, 403, 404, 429, 500, 502, 503, rng.randrange(201, 600))),
                text=rng.choice(('', 'Too many history entries', 'Transaction not found', 'x')))


@harness('P18', f=Gen(failing), patch=web.patch, symbolic=False, secs=6, bounded='generated failures of any request of every adapter')
def adapters_fail(f):
    s = f['s']
    web.reset(s)
    web.Web.fail_at, web.Web.error, web.Web.status, web.Web.text = f['at'], f['error'], f['status'], f['text']
    arg = s['txid'] if f['query'] == 'get_transaction_by_id' else s['raw'] if f['query'] == 'broadcast_tx' else s['address']
    try:
        r = adapter(f['provider'], f['query'], s['net'])(arg)
    except SKIP:
        check(True, 'skippable error')
        return
    if web.Web.count <= f['at']:
        return                      # the failing request was never made
    check(f['error'] == 0, 'connection errors are not swallowed')
    if f['query'] == 'broadcast_tx':
        check(r is False, 'a refused broadcast is reported')
        return
    want = EMPTY.get((f['provider'], f['query'] + ('_testnet' if s['net'] == 'test' else '')), EMPTY.get((f['provider'], f['query'])))
    check(want == f['status'] and r in ([], None), 'a failed request is an error or the documented empty answer', f['provider'], f['query'], f['status'], r)


QUERIES = ('get_balance', 'get_unspent', 'broadcast_tx', 'get_transactions', 'get_transaction_by_id')


@harness('P18', who=WHO, query=Choice(*QUERIES), net=Choice('main', 'test'), rows=Lst(ROW, hi=999), txs=Lst(HexText(gen_hi=32), hi=99), at=Int(0, 2), error=Int(0, 3),
         status=Int(201, 599), text=Choice('', 'Too many history entries', 'Transaction not found', 'x'), patch=web.patch, split=['who', 'query', 'net'],
         bounded='any failure of one of the first three requests, replies before it of up to 999 coins or 99 transactions (Bitcore 99)')
def any_failure(who, query, net, rows, txs, at, error, status, text):
    assume(who != 'blockchain' or net == 'main')
    assume(who != 'bitcore' or len(rows) <= 99 and query not in ('get_transactions', 'get_transaction_by_id'))
    s = state(net, 10 ** 7, rows, [] if who == 'blockstream' else txs)
    web.reset(s)
    web.Web.fail_at, web.Web.error, web.Web.status, web.Web.text = at, error, status, text
    arg = s['txid'] if query == 'get_transaction_by_id' else s['raw'] if query == 'broadcast_tx' else s['address']
    try:
        r = adapter(who, query, net)(arg)
    except SKIP:
        check(True, 'skippable error')
        return
    if web.Web.count <= at:
        check(True, 'the failing request was never made')
        return
    check(error == 0, 'connection errors are not swallowed')
    if query == 'broadcast_tx':
        check(r is False, 'a refused broadcast is reported')
        return
    want = EMPTY.get((who, query + ('_testnet' if net == 'test' else '')), EMPTY.get((who, query), 0))
    check(status == want, 'a failed request is an error or the documented empty answer')
    check(r is None if query == 'get_transaction_by_id' else r == [], 'empty')


@harness(['P10', 'P18'], s=Gen(world), patch=web.patch, symbolic=False, bounded='every configured service, generated replies')
def configured(s):
    """Every configured service of a network talks to that network."""
    api = services.NetworkAPI
    for q in ('get_balance', 'get_unspent', 'get_transactions', 'get_transaction_by_id', 'broadcast_tx'):
        for f in getattr(api, q.upper() + ('_MAIN' if s['net'] == 'main' else '_TEST')):
            web.reset(s)
            try:
                f(s['txid'] if q == 'get_transaction_by_id' else s['raw'] if q == 'broadcast_tx' else s['address'])
            except SKIP:
                pass
            used = web.Web.asked + web.Web.posted
            check(len(used) > 0 and all([u[0] == s['net'] for u in used]), 'services are asked on the network they are listed for', q, used)
            check(q == 'broadcast_tx' or not web.Web.posted, 'queries do not push')


class Rpc:
    calls = []
    result = None
    status = 200
    error = None
    down = False


class RpcSession:
    """The session of a node connection: answers one JSON-RPC call."""
    verify = None

    def __init__(self):
        pass

    def post(self, url, headers=None, data=None, json=None, **kw):
        if Rpc.down:
            raise requests.exceptions.ConnectionError('down')
        Rpc.calls.append((url, data))
        return web.Reply(Rpc.status, {'result': Rpc.result, 'error': Rpc.error, 'id': None}, '')


def patch_session():
    return [(requests, 'Session', RpcSession), (services.requests, 'Session', RpcSession)]


def node_world(rng):
    s = world(rng, most=5)
    s['exact'] = rng.random() < 0.5
    return s


@harness('P19', s=Gen(node_world), patch=patch_session, symbolic=False, bounded='generated node replies')
def node_replies(s):
    import json
    from decimal import Decimal
    host = services.RPCHost('user', 'pw', 'host', 8332, False, 'wallet/x')
    suffix = '_testnet' if s['net'] == 'test' else ''
    assume(web.total(s) <= 21 * 10 ** 14)
    amount = lambda v: float(Decimal(v) / 10 ** 8)
    Rpc.calls, Rpc.status, Rpc.error, Rpc.down = [], 200, None, False

    def ask(name, arg, result):
        Rpc.result = result
        r = getattr(host, name + suffix)(arg)
        url, body = Rpc.calls[-1]
        b = json.loads(body)
        check(url == 'http://user:pw@host:8332/wallet/x', 'the node is asked at its address')
        check(any([arg == p or isinstance(p, list) and arg in p for p in b['params']]), 'the question carries the address or id')
        return r

    reply = [dict(amount=amount(c['value']), confirmations=web.conf(s, c), scriptPubKey=s['script'], txid=c['txid'], vout=c['n'], spendable=True)
             for c in s['coins']]
    got = ask('get_unspent', s['address'], reply)
    check(same_coins(got, s), 'one coin per listed output')
    check(ask('get_balance', s['address'], amount(web.total(s))) == web.total(s), 'the balance in satoshi')
    check(ask('get_transactions', s['address'], [dict(address=s['address'], txids=s['txs'])] if s['txs'] else []) == s['txs'], 'transactions')
    check(ask('get_transaction_by_id', s['txid'], s['raw']) == s['raw'], 'raw transaction')
    check(ask('broadcast_tx', s['raw'], s['txid']) is True, 'accepted')
    Rpc.status, Rpc.error = 500, dict(code=-26, message='rejected')
    check(getattr(host, 'broadcast_tx' + suffix)(s['raw']) is False, 'a rejected broadcast is reported')
    Rpc.down = True
    check(exactly(ConnectionError, getattr(host, 'get_balance' + suffix), s['address']), 'a node that is down is a connection error')


PAID = Tup(Int(0, 21 * 10 ** 14), Int(0, 10 ** 7), HexText(gen_hi=32), HexText(gen_hi=32), Int(0, 10 ** 5))


def node_call():
    """The last call the node got: its method and parameters."""
    import json
    url, body = Rpc.calls[-1]
    b = json.loads(body)
    check(url == 'http://user:pw@host:8332/wallet/x', 'the node is asked at its address')
    return b['method'], b['params']


def node(result):
    Rpc.calls, Rpc.status, Rpc.error, Rpc.down, Rpc.result = [], 200, None, False, result
    return services.RPCHost('user', 'pw', 'host', 8332, False, 'wallet/x')


def in_btc(v):
    from decimal import Decimal
    return Decimal(v) / 100000000


@harness('P19', suffix=Choice('', '_testnet'), rows=Lst(PAID), i=Int(0), patch=patch_session)
def any_node_coins(suffix, rows, i):
    assume(i < len(rows))
    host = node([dict(amount=in_btc(r[0]), confirmations=r[1], scriptPubKey=r[2], txid=r[3], vout=r[4], spendable=True) for r in rows])
    got = getattr(host, 'get_unspent' + suffix)('addr')
    check(len(got) == len(rows), 'one coin per listed output')
    amount, confirmations, script, txid, n = rows[i]
    check(any([shown(u) == (amount, confirmations, script, txid, n, 0xffffffff) for u in got]), 'every listed output with its value, id, index, script and confirmations')
    method, params = node_call()
    check(method == 'listunspent' and params[0] == 0 and params[2] == ['addr'], 'all coins of the address are asked for, unconfirmed ones too')


@harness('P19', suffix=Choice('', '_testnet'), txs=Lst(HexText(gen_hi=32), lo=1), patch=patch_session)
def any_node_history(suffix, txs):
    host = node([dict(address='addr', txids=txs, amount=0)])
    check(getattr(host, 'get_transactions' + suffix)('addr') == txs, 'every transaction')
    method, params = node_call()
    check(method == 'listreceivedbyaddress' and 'addr' in params, 'the transactions of the address are asked for')


@harness('P19', suffix=Choice('', '_testnet'), raw=HexText(gen_hi=60), code=Int(), patch=patch_session)
def any_node_text(suffix, raw, code):
    host = node(raw)
    check(getattr(host, 'get_transaction_by_id' + suffix)('ab') == raw, 'the raw transaction')
    method, params = node_call()
    check(method == 'getrawtransaction' and params[0] == 'ab', 'the transaction with the id is asked for')
    host = node('ab')
    check(getattr(host, 'broadcast_tx' + suffix)(raw) is True, 'accepted')
    method, params = node_call()
    check(method == 'sendrawtransaction' and params[0] == raw, 'the very transaction is sent')
    Rpc.error = dict(code=code, message='rejected')
    check(getattr(host, 'broadcast_tx' + suffix)(raw) is False, 'a rejected broadcast is reported')
