From 4be45d00f9442d86e2968c07bd5462dc1892b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 01/13] fix: refuse multisig scripts that require fewer than
 one signature

---
 bit/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/format.py b/bit/format.py
index 1f6fac4..09b1e2f 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -140,6 +140,9 @@ def public_key_to_segwit_address(public_key, version='main'):
 
 def multisig_to_redeemscript(public_keys, m):
 
+    if m < 1:
+        raise ValueError('At least one signature must be required.')
+
     if m > len(public_keys):
         raise ValueError('Required signatures cannot be more than the total number of public keys.')
 
-- 
2.43.0


From b53b96f5bee6c0e14c2114c79e56f6d4b17991bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 02/13] fix: refuse base58 addresses whose payload is not a
 20-byte hash

---
 bit/format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit/format.py b/bit/format.py
index 09b1e2f..7787770 100644
--- a/bit/format.py
+++ b/bit/format.py
@@ -39,7 +39,10 @@ def verify_sig(signature, data, public_key):
 def address_to_public_key_hash(address):
     # Raise ValueError if we cannot identify the address.
     get_version(address)
-    return b58decode_check(address)[1:]
+    public_key_hash = b58decode_check(address)[1:]
+    if len(public_key_hash) != 20:
+        raise ValueError('{} does not contain a 20-byte hash.'.format(address))
+    return public_key_hash
 
 
 def get_version(address):
-- 
2.43.0


From a92a30e927b79f3c2b5c2d77e652777525fccb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 03/13] fix: raise ValueError for bech32 strings without a
 valid witness program

---
 bit/transaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index cfdc1c2..1848403 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -460,6 +460,8 @@ def address_to_scriptpubkey(address):
         version = b58decode_check(address)[:1]
     except ValueError:
         witver, data = segwit_decode(address)
+        if witver is None:
+            raise ValueError('{} is not a valid segwit address.'.format(address))
         return segwit_scriptpubkey(witver, data)
 
     if version == MAIN_PUBKEY_HASH or version == TEST_PUBKEY_HASH:
-- 
2.43.0


From ee4dea281f083cb4b5c0d720ffc1838b3bd889ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 04/13] fix: push OP_RETURN chunks of more than 75 bytes with
 OP_PUSHDATA1

---
 bit/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 1848403..4aeaeea 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -484,7 +484,7 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
-            script_pubkey = OP_RETURN + len(dest).to_bytes(1, byteorder='little') + dest
+            script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
 
-- 
2.43.0


From d8f905a85727419107acb70ff6a3604132cec48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 05/13] fix: export generated keys with the compressed flag
 their addresses use

---
 bit/keygen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/keygen.py b/bit/keygen.py
index c26f3da..1aaf939 100644
--- a/bit/keygen.py
+++ b/bit/keygen.py
@@ -12,7 +12,7 @@ from bit.format import bytes_to_wif, public_key_to_address
 def generate_key_address_pair():  # pragma: no cover
     private_key = ECPrivateKey()
     address = public_key_to_address(private_key.public_key.format())
-    return bytes_to_wif(private_key.secret), address
+    return bytes_to_wif(private_key.secret, compressed=True), address
 
 
 def generate_matching_address(prefix, cores='all'):  # pragma: no cover
@@ -60,7 +60,7 @@ def generate_matching_address(prefix, cores='all'):  # pragma: no cover
         sys.stdout.flush()
 
     private_key, address = queue.get()
-    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key), address))
+    print('\n\n' 'WIF: {}\n' 'Address: {}'.format(bytes_to_wif(private_key, compressed=True), address))
 
 
 def generate_key_address_pairs(prefix, counter, match, queue):  # pragma: no cover
-- 
2.43.0


From a1a8b15ceff3b2b997922df99e764af7d4cb4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 06/13] fix: do not change the global decimal precision in
 RPCHost.get_balance

---
 bit/network/services.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 9578c63..e99b9b0 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -1,9 +1,7 @@
 import requests
 import json
 import logging
-from decimal import Decimal, getcontext
 
-from bit.constants import BTC
 from bit.network import currency_to_satoshi
 from bit.network.meta import Unspent
 from bit.exceptions import BitcoinNodeException, ExcessiveAddress
@@ -31,9 +29,7 @@ class RPCHost:
         return RPCMethod(rpc_method, self)
 
     def get_balance(self, address):
-        getcontext().prec = len(str(BTC))
-        b = Decimal(self.getreceivedbyaddress(address, 0))
-        return int(b * BTC)
+        return currency_to_satoshi(self.getreceivedbyaddress(address, 0), "btc")
 
     def get_balance_testnet(self, address):
         return self.get_balance(address)
-- 
2.43.0


From ec35c376eb54038192b0c73ec355b6713afd561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 07/13] fix: Blockchair unspents of an unknown address are an
 empty list

---
 bit/network/services.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index e99b9b0..22ec88c 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -224,7 +224,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
@@ -267,7 +267,7 @@ class BlockchairAPI:
 
         r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
         if r.status_code == 404:  # pragma: no cover
-            return None
+            return []
         if r.status_code != 200:  # pragma: no cover
             raise ConnectionError
         response = r.json()
-- 
2.43.0


From 0ff27d5710c8bec7da40585b2b7dfaadfb423f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 08/13] fix: a failing Bitcore balance request moves on to the
 next service

---
 bit/network/services.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 22ec88c..5876114 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -610,13 +610,15 @@ class BitcoreAPI(InsightAPI):
     @classmethod
     def get_balance(cls, address):
         r = requests.get(cls.MAIN_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
     def get_balance_testnet(cls, address):
         r = requests.get(cls.TEST_BALANCE_API.format(address), timeout=DEFAULT_TIMEOUT)
-        r.raise_for_status()  # pragma: no cover
+        if r.status_code != 200:  # pragma: no cover
+            raise ConnectionError
         return r.json()['balance']
 
     @classmethod
-- 
2.43.0


From c68a3b32adf7b0c9af799260823bbd00dde9e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 09/13] fix: count the missing signatures of a partially signed
 input after verifying the present ones

---
 bit/transaction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 4aeaeea..7a5cafa 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -653,9 +653,6 @@ def sign_tx(private_key, tx, *, unspents):
             witness_count = 3
             if input_script_field[i]:
                 sig_list = get_signatures_from_script(input_script_field[i])
-                # Bitcoin Core convention: Every missing signature is denoted
-                # by 0x00. Only used for already partially-signed scriptSigs:
-                script_blob += b'\x00' * (private_key.m - len(sig_list) - 1)
                 # Total number of witness items when partially or fully signed:
                 witness_count = private_key.m + 2
                 # For a partially signed input make a dictionary containing
@@ -671,6 +668,11 @@ def sign_tx(private_key, tx, *, unspents):
 
             sigs[public_key] = signature
 
+            if input_script_field[i]:
+                # Bitcoin Core convention: Every missing signature is denoted
+                # by 0x00. Only used for already partially-signed scriptSigs:
+                script_blob += b'\x00' * (private_key.m - len(sigs))
+
             witness = b''
             # Sort ingthe signatures according to the public-key list:
             for pub in private_key.public_keys:
-- 
2.43.0


From e4e2bbcfc70e0b91d0df86256858669388319b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 10/13] fix: serialize an empty witness for inputs without one
 in segwit transactions

---
 bit/transaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit/transaction.py b/bit/transaction.py
index 7a5cafa..794f1f0 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -153,6 +153,9 @@ class TxObj:
         inp = int_to_varint(len(self.TxIn)) + b''.join(map(bytes, self.TxIn))
         out = int_to_varint(len(self.TxOut)) + b''.join(map(bytes, self.TxOut))
         wit = b''.join([w.witness for w in self.TxIn])
+        if wit:
+            # Every input needs a witness field, an empty one is 0x00.
+            wit = b''.join([w.witness or b'\x00' for w in self.TxIn])
         return b''.join([self.version, MARKER if wit else b'', FLAG if wit else b'', inp, out, wit, self.locktime])
 
     def legacy_repr(self):
-- 
2.43.0


From a3874fc77682ecc52b6c0c235c8614a1764e2eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:21 +0000
Subject: [PATCH 11/13] fix: carry messages through prepare_transaction and
 sign_transaction

---
 bit/transaction.py | 3 +++
 bit/wallet.py      | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index 794f1f0..ca05542 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -487,6 +487,9 @@ def construct_outputs(outputs):
 
         # Blockchain storage
         else:
+            # Offline prepared transactions carry messages as hex.
+            if isinstance(dest, str):
+                dest = hex_to_bytes(dest)
             script_pubkey = OP_RETURN + script_push(len(dest)) + dest
 
             amount = b'\x00\x00\x00\x00\x00\x00\x00\x00'
diff --git a/bit/wallet.py b/bit/wallet.py
index 03ee956..a463471 100644
--- a/bit/wallet.py
+++ b/bit/wallet.py
@@ -455,7 +455,7 @@ class PrivateKey(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -854,7 +854,7 @@ class PrivateKeyTestnet(BaseKey):
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2PKH transaction using previously prepared
@@ -1225,7 +1225,7 @@ class MultiSig:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
@@ -1553,7 +1553,7 @@ class MultiSigTestnet:
 
         data = {'unspents': [unspent.to_dict() for unspent in unspents], 'outputs': outputs}
 
-        return json.dumps(data, separators=(',', ':'))
+        return json.dumps(data, separators=(',', ':'), default=bytes_to_hex)
 
     def sign_transaction(self, tx_data, unspents=None):  # pragma: no cover
         """Creates a signed P2SH transaction using previously prepared
-- 
2.43.0


From ba41470b458020b050c433aaa7e2908704d385b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:05 +0000
Subject: [PATCH 12/13] fix: check the status of every further page of a
 service reply

---
 bit/network/services.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/bit/network/services.py b/bit/network/services.py
index 5876114..c8e1ad3 100644
--- a/bit/network/services.py
+++ b/bit/network/services.py
@@ -384,7 +384,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         transactions.extend(unconfirmed)
@@ -411,7 +414,10 @@ class BlockstreamAPI:
         while total_txs > 0:
             transactions.extend(tx['txid'] for tx in response)
 
-            response = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address, transactions[-1]), timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
             total_txs = len(response)
 
         return transactions
@@ -601,9 +607,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -644,9 +653,12 @@ class BitcoreAPI(InsightAPI):
                 )
                 for tx in response
             )
-            response = requests.get(
+            r = requests.get(
                 endpoint.format(address) + "&since={}".format(response[-1]['_id']), timeout=DEFAULT_TIMEOUT
-            ).json()
+            )
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return unspents
 
@@ -696,7 +708,10 @@ class BlockchainAPI:
             total_txs -= txs_per_page
             offset += txs_per_page
             payload['offset'] = str(offset)
-            response = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT).json()
+            r = requests.get(endpoint.format(address), params=payload, timeout=DEFAULT_TIMEOUT)
+            if r.status_code != 200:  # pragma: no cover
+                raise ConnectionError
+            response = r.json()
 
         return transactions
 
-- 
2.43.0


From f2dd67d144aded344af61bb986b21b9af25f4c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 13/13] fix: search coins without recursion, for wallets with a
 thousand coins and more

---
 bit/transaction.py | 65 ++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 37 deletions(-)

diff --git a/bit/transaction.py b/bit/transaction.py
index ca05542..3de94fc 100644
--- a/bit/transaction.py
+++ b/bit/transaction.py
@@ -240,7 +240,6 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
     def branch_and_bound(d, selected_coins, effective_value, target, fee, sorted_unspents):  # pragma: no cover
 
         nonlocal COST_OF_OVERHEAD, BNB_TRIES
-        BNB_TRIES -= 1
         COST_PER_INPUT = 148 * fee  # Just typical estimate values
         COST_PER_OUTPUT = 34 * fee
 
@@ -253,49 +252,41 @@ def select_coins(target, fee, output_size, min_change, *, absolute_fee=False, co
         # perfect match:
         # match_range += int(0.1 * fee * sum(u.vsize for u in selected_coins))
 
-        # Check for solution and cut criteria:
-        if effective_value > target_to_match + match_range:
-            return []
-        elif effective_value >= target_to_match:
-            return selected_coins
-        elif BNB_TRIES <= 0:
-            return []
-        elif d >= len(sorted_unspents):
-            return []
-        else:
-            # Randomly explore next branch:
-            binary_random = randint(0, 1)
-            if binary_random:
-                # Explore inclusion branch first, else omission branch:
-                effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
+        # Depth-first search with a list of the branches still to explore (last
+        # one first). Recursion would not allow for more unspents than the
+        # interpreter allows for nested calls.
+        branches = [(d, selected_coins, effective_value)]
 
-                with_this = branch_and_bound(
-                    d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                )
+        while branches:
+            d, selected_coins, effective_value = branches.pop()
+            BNB_TRIES -= 1
 
-                if with_this != []:
-                    return with_this
-                else:
-                    without_this = branch_and_bound(
-                        d + 1, selected_coins, effective_value, target, fee, sorted_unspents
-                    )
+            # Check for solution and cut criteria:
+            if effective_value > target_to_match + match_range:
+                continue
+            elif effective_value >= target_to_match:
+                return selected_coins
+            elif BNB_TRIES <= 0:
+                continue
+            elif d >= len(sorted_unspents):
+                continue
 
-                    return without_this
+            effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
+            with_this = (d + 1, selected_coins + [sorted_unspents[d]], effective_value_new)
+            without_this = (d + 1, selected_coins, effective_value)
 
+            # Randomly explore next branch:
+            binary_random = randint(0, 1)
+            if binary_random:
+                # Explore inclusion branch first, else omission branch:
+                branches.append(without_this)
+                branches.append(with_this)
             else:
                 # As above but explore omission branch first:
-                without_this = branch_and_bound(d + 1, selected_coins, effective_value, target, fee, sorted_unspents)
-
-                if without_this != []:
-                    return without_this
-                else:
-                    effective_value_new = effective_value + sorted_unspents[d].amount - fee * sorted_unspents[d].vsize
-
-                    with_this = branch_and_bound(
-                        d + 1, selected_coins + [sorted_unspents[d]], effective_value_new, target, fee, sorted_unspents
-                    )
+                branches.append(with_this)
+                branches.append(without_this)
 
-                    return with_this
+        return []
 
     sorted_unspents = sorted(unspents, key=lambda u: u.amount, reverse=True)
     selected_coins = []
-- 
2.43.0

