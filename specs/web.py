"""The web services as their documentation describes them, answering for one address from a generated chain state.

Replies are produced from the state, the address that was asked for and the paging parameters only, so it does not matter how
an adapter composes its request (URL text, params dictionary, order of parameters)."""
import requests
from decimal import Decimal

HOSTS = {
    ('main', 'blockchair'): 'https://api.blockchair.com/bitcoin/', ('test', 'blockchair'): 'https://api.blockchair.com/bitcoin/testnet/',
    ('main', 'blockstream'): 'https://blockstream.info/api/', ('test', 'blockstream'): 'https://blockstream.info/testnet/api/',
    ('main', 'bitcore'): 'https://api.bitcore.io/api/BTC/mainnet/', ('test', 'bitcore'): 'https://api.bitcore.io/api/BTC/testnet/',
    ('main', 'smartbit'): 'https://api.smartbit.com.au/v1/blockchain/', ('test', 'smartbit'): 'https://testnet-api.smartbit.com.au/v1/blockchain/',
    ('main', 'blockchain'): 'https://blockchain.info/',
}


class Web:
    state = None
    fail_at = None          # number of the request that fails
    status = 200
    text = ''
    error = 0
    count = 0
    asked = []
    posted = []
    bad = ''


class Reply:
    def __init__(self, status, data=None, text=''):
        self.status_code, self.data, self.text, self.reason = status, data, text, 'reason'
        self.ok = status < 400

    def json(self):
        if self.data is None:
            raise ValueError('no JSON')
        return self.data

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.exceptions.HTTPError('status')


def parse(url, params):
    """(network, provider, path, parameters)"""
    path, _, query = url.partition('?')
    args = {}
    for part in query.split('&'):
        if part:
            k, _, v = part.partition('=')
            args[k] = v
    for k, v in (params or {}).items():
        args[k] = str(v)
    best = None
    for key, base in HOSTS.items():
        if path.startswith(base) and (best is None or len(base) > len(HOSTS[best])):
            best = key
    if best is None:
        return None, None, path, args
    return best[0], best[1], path[len(HOSTS[best]):], args


def fault():
    n = Web.count
    Web.count += 1
    if Web.fail_at is not None and n == Web.fail_at:
        if Web.error == 1:
            raise requests.exceptions.ConnectionError('down')
        if Web.error == 2:
            raise requests.exceptions.ReadTimeout('slow')
        if Web.error == 3:
            raise requests.exceptions.ConnectTimeout('slow')
        return Reply(Web.status, None, Web.text)
    return None


def get(url, params=None, **kw):
    f = fault()
    if f is not None:
        return f
    net, who, path, args = parse(url, params)
    Web.asked.append((net, who, path))
    s = Web.state
    r = None
    if net == s['net']:
        r = SERVE[who](s, path, args)
    if r is None:
        Web.bad = 'no such page: %s' % url
        return Reply(404, None, 'not found')
    return r


def post(url, data=None, json=None, **kw):
    f = fault()
    if f is not None:
        return f
    net, who, path, args = parse(url, None)
    Web.posted.append((net, who, path, data if data is not None else json))
    return Reply(200, {'txid': 'x', 'data': {}}, 'ok')


def btc_text(v):
    return '%.8f' % (Decimal(v) / 10 ** 8)


def hex_number(v):
    return '%x' % v


def page(items, args, default, most):
    off = int(args.get('offset', '0'))
    n = min(int(args.get('limit', str(default))), most)
    return items[off:off + n]


def conf(s, c):
    return s['tip'] - c['height'] + 1 if c['height'] >= 0 else 0


def total(s):
    return sum([c['value'] for c in s['coins']])


def blockchair(s, path, args):
    a = s['address']
    if path == 'raw/transaction/' + s['txid']:
        return Reply(200, {'data': {s['txid']: {'raw_transaction': s['raw'], 'decoded_raw_transaction': {}}}, 'context': {'state': s['tip']}})
    if path != 'dashboards/address/' + a:
        return None
    return Reply(200, {
        'data': {a: {'address': {'type': 'pubkeyhash', 'script_hex': s['script'], 'balance': total(s), 'received': total(s) + 5, 'spent': 5,
                                 'output_count': len(s['coins']) + 1, 'unspent_output_count': len(s['coins']), 'transaction_count': len(s['txs'])},
                     'transactions': page(s['txs'], args, 100, 10000),
                     'utxo': [{'block_id': c['height'], 'transaction_hash': c['txid'], 'index': c['n'], 'value': c['value']}
                              for c in page(s['coins'], args, 100, 10000)]}},
        'context': {'code': 200, 'state': s['tip']}})


def blockstream(s, path, args):
    a = s['address']
    base = 'address/' + a
    if path == 'blocks/tip/height':
        return Reply(200, s['tip'], str(s['tip']))
    if path == 'tx/' + s['txid'] + '/hex':
        return Reply(200, None, s['raw'])
    if path == base:
        got = sum([c['value'] if c['height'] >= 0 else 0 for c in s['coins']])
        return Reply(200, {'address': a, 'chain_stats': {'funded_txo_count': 1, 'funded_txo_sum': got + 900, 'spent_txo_count': 1, 'spent_txo_sum': 600, 'tx_count': 9},
                           'mempool_stats': {'funded_txo_count': 1, 'funded_txo_sum': total(s) - got + 40, 'spent_txo_count': 1, 'spent_txo_sum': 340, 'tx_count': 2}})
    if path == base + '/utxo':
        return Reply(200, [{'txid': c['txid'], 'vout': c['n'], 'value': c['value'],
                            'status': {'confirmed': True, 'block_height': c['height'], 'block_hash': 'h', 'block_time': 1} if c['height'] >= 0
                            else {'confirmed': False}} for c in s['coins']])
    if path == base + '/txs/mempool':
        return Reply(200, [{'txid': t} for t in s['pending'][:50]])
    chain = base + '/txs/chain'
    if path == chain or path == chain + '/':
        return Reply(200, [{'txid': t} for t in s['txs'][:25]])
    for i, t in enumerate(s['txs']):
        if path == chain + '/' + t:
            return Reply(200, [{'txid': x} for x in s['txs'][i + 1:i + 26]])
    return None


def bitcore(s, path, args):
    base = 'address/' + s['address']
    if path == base + '/balance':
        return Reply(200, {'confirmed': 0, 'unconfirmed': total(s), 'balance': total(s)})
    if path in (base + '/', base) and args.get('unspent') == 'true':
        items = [{'_id': 'id%d' % i, 'value': c['value'], 'confirmations': conf(s, c), 'script': s['script'], 'mintTxid': c['txid'],
                  'mintIndex': c['n'], 'mintHeight': c['height'], 'spentTxid': '', 'address': s['address']} for i, c in enumerate(s['coins'])]
        start = 0
        if 'since' in args:
            start = int(args['since'][2:]) + 1
        return Reply(200, items[start:start + int(args.get('limit', '10'))])
    return None


def smartbit(s, path, args):
    base = 'address/' + s['address']
    host = HOSTS[(s['net'], 'smartbit')]
    off = int(args.get('next', '0'))
    n = min(int(args.get('limit', '10')), 1000)
    if path == 'tx/' + s['txid'] + '/hex':
        return Reply(200, {'success': True, 'hex': [{'txid': s['txid'], 'hex': s['raw']}]})
    if path == base:
        more = off + n < len(s['txs'])
        d = {'address': s['address'], 'total': {'balance': str(Decimal(total(s)) / 10 ** 8), 'balance_int': total(s), 'received_int': total(s) + 9}}
        if s['txs']:
            d['transactions'] = [{'txid': t, 'hash': 'h' + t} for t in s['txs'][off:off + n]]
            d['transaction_paging'] = {'limit': n, 'next_link': host + base + '?next=%d&limit=%d' % (off + n, n) if more else None}
        return Reply(200, {'success': True, 'address': d})
    if path == base + '/unspent':
        more = off + n < len(s['coins'])
        d = {'success': True, 'paging': {'limit': n, 'next_link': host + base + '/unspent?next=%d&limit=%d' % (off + n, n) if more else None}}
        if s['coins'] or s['lists_none']:
            d['unspent'] = [{'txid': c['txid'], 'n': c['n'], 'value': btc_text(c['value']), 'value_int': c['value'],
                             'confirmations': conf(s, c), 'script_pub_key': {'asm': '', 'hex': s['script']}} for c in s['coins'][off:off + n]]
        return Reply(200, d)
    return None


def blockchain(s, path, args):
    a = s['address']
    if path == 'rawtx/' + s['txid'] and args.get('format') == 'hex':
        return Reply(200, None, s['raw'])
    if path == 'address/' + a and args.get('format') == 'json':
        return Reply(200, {'address': a, 'n_tx': len(s['txs']), 'final_balance': total(s), 'total_received': total(s) + 7,
                           'txs': [{'hash': t, 'tx_index': 1} for t in page(s['txs'], args, 50, 50)]})
    if path == 'unspent' and args.get('active') == a:
        return Reply(200, {'unspent_outputs': [
            {'tx_hash': bytes.fromhex(c['txid'])[::-1].hex(), 'tx_hash_big_endian': c['txid'], 'tx_output_n': c['n'], 'script': s['script'],
             'value': c['value'], 'value_hex': hex_number(c['value']), 'confirmations': conf(s, c), 'tx_index': 1} for c in page(s['coins'], args, 250, 1000)]})
    return None


SERVE = dict(blockchair=blockchair, blockstream=blockstream, bitcore=bitcore, smartbit=smartbit, blockchain=blockchain)


def reset(state):
    Web.state, Web.fail_at, Web.count, Web.asked, Web.posted, Web.bad, Web.error, Web.status, Web.text = state, None, 0, [], [], '', 0, 200, ''


def patch():
    import bit.network.services as services
    out = [(requests, 'get', get), (requests, 'post', post)]
    for n, f in (('get', get), ('post', post)):
        if n in vars(services):
            out.append((services, n, f))
    return out
