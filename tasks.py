"""Which harness runs with which bounds, per property and tier."""
T = {}
A = {}


def add(pid, name, harness, params=None, **kw):
    d = dict(name=name, harness=harness, params=params or {})
    d.update(kw)
    assert not any(t['name'] == name and set(t.get('tiers', 'qt')) & set(d.get('tiers', 'qt')) for t in T.get(pid, [])), (pid, name)
    T.setdefault(pid, []).append(d)


def deep(pid, name, harness, params=None, **kw):
    """thorough tier only"""
    add(pid, 'T' + name, harness, params, tiers=('thorough',), **kw)


def tasks(pid, tier):
    return [t for t in T[pid] if tier in t.get('tiers', ('quick', 'thorough'))]


def assumptions(pid):
    return COMMON + A.get(pid, [])


COMMON = [
    "the C library is the model in lib/mlibc.c; the same models are not used in the native replay, which cross-checks them on the sampled paths",
    "little-endian LP64, default integer conversions of clang 18 at -O0",
    "memory allocation succeeds (except C29)",
]

# ---------------------------------------------------------------- containers
add('C01', 'small', 'hash_map', dict(keys=3, ops=3), jobs=8, bounds="3 keys with any 6-bit hash values (x2 representatives), any 3 operations on a new table")
add('C01', 'ops5', 'hash_map', dict(keys=2, ops=5, bits=3, base=28), jobs=8, bounds="2 keys, hashes 28..35 (around the last bucket), any 5 operations")
add('C01', 'big', 'hash_map', dict(keys=3, ops=4, hm=1), jobs=8, bounds="3 keys, hashes from 8 extreme values up to 2^64-1, any 4 operations")
for _p in (15, 16):
    add('C01', 'cross%d' % _p, 'hash_map', dict(keys=2, ops=3, prefill=_p, bits=3, base=28), jobs=8, bounds="%d keys present, 2 more with hashes 28..35: the first enlargement happens inside any 3 operations" % _p)
add('C01', 'coll', 'hash_map', dict(keys=2, ops=3, prefill=15, hm=2, bits=3, preop=1), jobs=8, bounds="15 colliding keys, first operation on one of them, 2 more keys")
add('C01', 'second', 'hash_map', dict(keys=2, ops=3, prefill=48, bits=2, base=95), jobs=8, bounds="48 keys present: the second enlargement")
deep('C01', 'ops4', 'hash_map', dict(keys=3, ops=4), jobs=8, bounds="3 keys, 6-bit hashes, any 4 operations")
deep('C01', 'ops6', 'hash_map', dict(keys=3, ops=6, bits=2, base=29), jobs=8, bounds="3 keys, hashes 29..32, any 6 operations")
deep('C01', 'cross14', 'hash_map', dict(keys=4, ops=4, prefill=14, bits=2, base=29), jobs=8, bounds="14 keys present, 4 more, any 4 operations")
deep('C01', 'third', 'hash_map', dict(keys=1, ops=3, prefill=63, bits=6, preop=1), jobs=8, bounds="63 keys present")

for _m, _n in ((0, 'callback'), (1, 'callback with argument')):
    add('C02', 'it%d' % _m, 'hash_iter', dict(mode=_m, keys=3, bits=3, base=28), jobs=4, bounds="3 keys, hashes 28..35; any stopping point; " + _n)
add('C02', 'many', 'hash_iter', dict(mode=0, keys=2, prefill=12, spread=3, bits=3, base=28), jobs=4, bounds="12 keys + 2 with hashes 28..35, any stopping point")
add('C02', 'del', 'hash_iter', dict(mode=0, keys=3, bits=3, base=28, **{'del': 1}), jobs=4, bounds="3 keys, hashes 28..35, any subset deleted by the callback, any stopping point")
add('C02', 'delmany', 'hash_iter', dict(mode=1, keys=2, prefill=17, spread=0, bits=2, **{'del': 1}), jobs=4, bounds="17 colliding keys + 2, any subset (prefilled ones all or none) deleted by the callback")
add('C02', 'free', 'hash_iter', dict(mode=2, keys=3), jobs=4, bounds="3 keys, 5-bit hashes; the callback releases each key")
add('C02', 'pos', 'hash_iter', dict(mode=3, keys=3, bits=3, base=28), jobs=4, bounds="HSH_ITERATE, any stopping point, a lookup at every step")
add('C02', 'poskeys', 'hash_iter', dict(mode=4, keys=3, bits=3, base=28), jobs=4, bounds="HSH_ITERATE_KEYS, any stopping point")
add('C02', 'posbig', 'hash_iter', dict(mode=3, keys=1, prefill=17, bits=3, base=92), jobs=4, bounds="HSH_ITERATE over an enlarged table")
for _m, _n in ((5, 'HSH_ITERATE, keys overwritten'), (6, 'HSH_ITERATE, keys released'), (7, 'HSH_ITERATE_KEYS, keys overwritten'), (8, 'HSH_ITERATE_KEYS, keys released')):
    add('C02', 'own%d' % _m, 'hash_iter', dict(mode=_m, keys=3, bits=3, base=28), jobs=4, bounds="3 keys, hashes 28..35; " + _n + " as delivered, any stopping point")
for _m in (0, 1, 3, 4):
    deep('C02', 'it%d' % _m, 'hash_iter', dict(mode=_m, keys=3), jobs=4, bounds="3 keys, any 5-bit hashes")
deep('C02', 'del', 'hash_iter', dict(mode=0, keys=3, **{'del': 1}), jobs=4, bounds="3 keys, any 5-bit hashes, deletions")
deep('C02', 'del4', 'hash_iter', dict(mode=0, keys=4, bits=2, base=29, **{'del': 1}), jobs=4, bounds="4 keys, hashes 29..32, deletions")

for _w, _n in ((0, 'hash table'), (1, 'set')):
    add('C03', 'flag%d' % _w, 'readonly', dict(which=_w, scen=0, bits=3, base=28), jobs=4, bounds="%s with up to 3 keys, hashes 28..35; any refused operation, flag set by hand or by a position" % _n)
    deep('C03', 'flag%d' % _w, 'readonly', dict(which=_w, scen=0), jobs=4, bounds="%s with up to 3 keys, any 5-bit hashes" % _n)
add('C03', 'setiter', 'readonly', dict(which=1, scen=1, bits=3, base=28), jobs=4, bounds="set of up to 3, any operation tried inside set_iterate, any stopping point")
add('C03', 'operands', 'readonly', dict(which=1, scen=2, keys=2), jobs=4, bounds="two sets of up to 2 elements, any flags")
deep('C03', 'setiter', 'readonly', dict(which=1, scen=1), jobs=4)
deep('C03', 'operands', 'readonly', dict(which=1, scen=2, keys=3, bits=3, base=28), jobs=4)

add('C04', 'str', 'hashcmp', dict(mode=0, len=4), jobs=2, bounds="any two strings of up to 4 bytes")
add('C04', 'eq', 'hashcmp', dict(mode=4, len=12), jobs=2, bounds="equal strings of up to 12 bytes in different buffers")
add('C04', 'ptr', 'hashcmp', dict(mode=1), jobs=2, bounds="any two 64-bit pointer values")
add('C04', 'tab1', 'hashcmp', dict(mode=2, len=1), jobs=2, bounds="default table, two keys of up to 1 arbitrary byte")
add('C04', 'tab2', 'hashcmp', dict(mode=2, len=2, alpha=1), jobs=2, bounds="default table, two keys of up to 2 bytes")
add('C04', 'tab3', 'hashcmp', dict(mode=2, len=3, alpha=1), jobs=2, bounds="default table, two keys of up to 3 bytes")
add('C04', 'tabp', 'hashcmp', dict(mode=3), jobs=2, bounds="pointer table, small pointer values")
add('C04', 'long', 'hashcmp', dict(mode=5), jobs=4, bounds="strings of 9 lengths from 31 to 3000 bytes that differ in any way in one byte or by one more byte")
deep('C04', 'str', 'hashcmp', dict(mode=0, len=6), jobs=4)
deep('C04', 'eq', 'hashcmp', dict(mode=4, len=32), jobs=4)

add('C05', 'small', 'set_map', dict(keys=3, ops=3), jobs=8, bounds="3 elements with any 5-bit hashes, any 3 operations")
add('C05', 'big', 'set_map', dict(keys=2, ops=4, hm=1), jobs=8, bounds="2 elements, extreme hash values up to 2^64-1, any 4 operations")
for _p in (15, 16):
    add('C05', 'cross%d' % _p, 'set_map', dict(keys=2, ops=3, prefill=_p, bits=3, base=28), jobs=8, bounds="%d elements present: the first enlargement happens inside any 3 operations" % _p)
add('C05', 'coll', 'set_map', dict(keys=2, ops=3, prefill=6, hm=2, bits=2), jobs=8, bounds="6 colliding elements + 2")
add('C05', 'second', 'set_map', dict(keys=2, ops=2, prefill=48, bits=2, base=95), jobs=8, bounds="48 elements present: the second enlargement")
deep('C05', 'ops4', 'set_map', dict(keys=3, ops=4), jobs=8, bounds="3 elements, any 4 operations")
deep('C05', 'ops6', 'set_map', dict(keys=2, ops=6, bits=2, base=29), jobs=8)

_opn = ('union', 'inter', 'diff', 'add', 'del', 'equal')
for _o in range(6):
    _n = 'set_' + _opn[_o] + ': '
    add('C06', _opn[_o], 'set_alg', dict(op=_o, keys=3, bits=3, base=28), jobs=4, bounds=_n + "any two subsets of 3 elements, hashes 28..35")
    add('C06', _opn[_o] + 'Self', 'set_alg', dict(op=_o, keys=3, alias=1, bits=3, base=28), jobs=4, bounds=_n + "both operands the same set")
    for _m in (1, 2):
        add('C06', _opn[_o] + 'Mis%d' % _m, 'set_alg', dict(op=_o, keys=1, mismatch=_m), jobs=2, bounds=_n + "different hash or compare function")
    add('C06', _opn[_o] + 'BigA', 'set_alg', dict(op=_o, keys=2, prefill=17, preA=17, preB=5, bits=3, base=92), jobs=4, bounds=_n + "17 against 5 elements, then any subsets of 2")
    add('C06', _opn[_o] + 'BigB', 'set_alg', dict(op=_o, keys=2, prefill=20, preA=12, preB0=8, preB=20, bits=3, base=28), jobs=4, bounds=_n + "12 against 12 elements, 4 in common (the result or the first set is enlarged), then any subsets of 2")
    add('C06', _opn[_o] + 'Incl', 'set_alg', dict(op=_o, keys=2, prefill=18, preA=5, preB=18, bits=3, base=92), jobs=4, bounds=_n + "5 against 18 elements, then any subsets of 2")
    add('C06', _opn[_o] + 'SelfBig', 'set_alg', dict(op=_o, keys=1, prefill=16, alias=1), jobs=2, bounds=_n + "one set of 16 or 17 elements as both operands")
    add('C06', _opn[_o] + 'Twice', 'set_alg', dict(op=_o, keys=2, twice=1, bits=2, base=30), jobs=4, bounds=_n + "the same operation before one of the sets was changed")
    add('C06', _opn[_o] + 'TwiceBig', 'set_alg', dict(op=_o, keys=2, prefill=3, preA=3, preB0=1, preB=3, twice=1, bits=1), jobs=4, bounds=_n + "the same operation before one of the sets was changed, larger sets")
    deep('C06', _opn[_o], 'set_alg', dict(op=_o, keys=3, bits=5), jobs=4, bounds=_n + "any two subsets of 3 elements, any 5-bit hashes")
    deep('C06', _opn[_o] + '4', 'set_alg', dict(op=_o, keys=4, bits=2, base=29), jobs=4, bounds=_n + "any two subsets of 4 elements")

add('C07', 'ops', 'list', dict(ops=4), jobs=4, bounds="any 4 operations on one list, data any 3-bit value")
add('C07', 'pre', 'list', dict(ops=2, prefill=5, lists=2), jobs=4, bounds="two lists of 5, any 2 operations")
add('C07', 'two', 'list', dict(ops=4, lists=2, kinds=4), jobs=4, bounds="two lists, any 4 of append, push, pop, truncate")
add('C07', 'hist', 'list', dict(ops=3, prefill=3, kinds=4, hist=1), jobs=4, bounds="a list of 3: any access, any 3 of append, push, pop, truncate, any access, then everything")
add('C07', 'hist4', 'list', dict(ops=2, prefill=3, kinds=12, hist=4), jobs=4, bounds="a list of 3: any kind of access, any 2 operations, any kind of access, then everything")
add('C07', 'reuse', 'list', dict(reuse=3), jobs=4, bounds="a list of 3 emptied in part and filled again, three times, in any way")
deep('C07', 'reuse', 'list', dict(reuse=6), jobs=8)
deep('C07', 'hist', 'list', dict(ops=4, prefill=3, kinds=4, hist=4), jobs=8)
deep('C07', 'ops', 'list', dict(ops=5), jobs=8, bounds="any 5 operations on one list")
deep('C07', 'pre', 'list', dict(ops=3, prefill=4, lists=2), jobs=8)

add('C08', 'ops', 'stack', dict(ops=7), jobs=8, bounds="any 7 operations, any 64-bit data")
deep('C08', 'ops', 'stack', dict(ops=10), jobs=8, bounds="any 10 operations")

add('C09', 'sym', 'skiplist', dict(keys=3, ops=3, order=1, ones=3), jobs=4, bounds="3 keys in any order, any level of each node up to 4, any 3 operations")
add('C09', 'sub', 'skiplist', dict(keys=3, ops=3, order=1, ones=2, sub=1), jobs=4, bounds="as above, then every sub-range of keys looked at")
add('C09', 'mix', 'skiplist', dict(keys=3, ops=4, ones=2), jobs=4, bounds="3 keys, any 4 operations")
add('C09', 'tall', 'skiplist', dict(keys=1, ops=2, prefill=20, rnd=1, off=1, maxkey=31), jobs=4, bounds="20 nodes of all levels and any other key")
add('C09', 'mid', 'skiplist', dict(keys=1, ops=2, prefill=8, rnd=3, off=1, maxkey=15), jobs=4, bounds="8 nodes and any other key")
add('C09', 'find', 'skiplist', dict(keys=3, ops=3, ones=1, find=1), jobs=4, bounds="3 keys, any 3 operations with any key (or none) looked up before each and after")
add('C09', 'findmid', 'skiplist', dict(keys=1, ops=2, prefill=5, rnd=3, off=1, maxkey=15, find=1), jobs=4, bounds="5 nodes and any other key, any 2 operations with lookups between")
deep('C09', 'find4', 'skiplist', dict(keys=3, ops=4, ones=1, find=1), jobs=8)
deep('C09', 'mix5', 'skiplist', dict(keys=3, ops=5, ones=2), jobs=8, bounds="3 keys, any 5 operations")
deep('C09', 'sym4', 'skiplist', dict(keys=4, ops=4, order=1, ones=3), jobs=8)

# ---------------------------------------------------------------- memory and strings
add('C10', 'ops', 'memobj', dict(ops=5), jobs=4, bounds="any 5 operations")
add('C10', 'pre', 'memobj', dict(ops=4, prefill=4), jobs=4, bounds="4 objects out, any 4 operations")
add('C10', 'sizes', 'memobj', dict(ops=3, wide=1), jobs=4, bounds="objects of 11 sizes from 2 to 70000 bytes, any 3 operations")
deep('C10', 'ops', 'memobj', dict(ops=7), jobs=8)
add('C11', 'ops', 'memstr', dict(ops=3, len=2), jobs=4, bounds="any 3 operations on strings of up to 2 arbitrary bytes")
add('C11', 'pre', 'memstr', dict(ops=2, len=4, prefill=10), jobs=4, bounds="10 strings present, any 2 operations on up to 4 bytes")
add('C11', 'grow', 'memstr', dict(grow=1), jobs=4, bounds="strings of up to 128 bytes grown from three pieces around the multiples of 16")
deep('C11', 'ops', 'memstr', dict(ops=4, len=2), jobs=8)
add('C12', 'pool', 'strpool', dict(ops=3, alpha=2), jobs=4, bounds="own pool: any 3 operations on strings of up to 2 characters from 2")
add('C12', 'glob', 'strpool', dict(ops=3, alpha=2, **{'global': 1}), jobs=4, bounds="global pool: any 3 operations on strings of up to 2 characters from 2")
add('C12', 'long', 'strpool', dict(ops=2, len=3), jobs=4, bounds="own pool: any 2 operations on strings of up to 3 characters from 3")
add('C12', 'pre', 'strpool', dict(ops=2, len=1, prefill=15), jobs=4, bounds="15 strings present (the table is enlarged), any 2 operations")
add('C12', 'uniq', 'strpool', dict(ops=0, uniq=4, **{'global': 1}), jobs=4, bounds="global pool: three unique strings from one prefix, any of 4 (8 in between) neighbouring strings interned before")
deep('C12', 'uniq', 'strpool', dict(ops=0, uniq=8, **{'global': 1}), jobs=8)
deep('C12', 'pool', 'strpool', dict(ops=3), jobs=8)
deep('C12', 'glob', 'strpool', dict(ops=3, **{'global': 1}), jobs=8)
deep('C12', 'ops4', 'strpool', dict(ops=4, alpha=1), jobs=8)

add('C13', 'ops', 'arglist', dict(ops=3), jobs=4, bounds="any 3 operations with arbitrary bytes")
for _p in (1, 2, 3, 5, 6, 13, 14):
    add('C13', 'pre%d' % _p, 'arglist', dict(ops=2, prefill=_p, len=1), jobs=2, bounds="%d arguments present, any 2 operations" % _p)
deep('C13', 'ops', 'arglist', dict(ops=4), jobs=8)
for _s in range(4):
    add('C14', 's%d' % _s, 'argify', dict(len=6, style=_s), jobs=4, bounds="any line of up to 6 arbitrary bytes, style %d" % _s)
    deep('C14', 's%d' % _s, 'argify', dict(len=9, style=_s), jobs=8, bounds="any line of up to 9 bytes")
add('C14', 'again', 'argify', dict(len=3, before=1), jobs=4, bounds="any line of up to 3 bytes and style after one of 6 other lines in any style")
add('C14', 'p1', 'argify', dict(len=4, prefix=1), jobs=4, bounds="many words before any 4 bytes")
add('C14', 'p2', 'argify', dict(len=4, prefix=2), jobs=4, bounds="a long word before any 4 bytes")

# ---------------------------------------------------------------- conversions, numbers, bits
for _m in range(4):
    add('C15', 'm%d' % _m, 'b64', dict(mode=_m), jobs=2, bounds=("every 32-bit value", "every digit string of up to 6", "any 3 bytes", "any two values")[_m])
for _l in range(1, 4):
    add('C16', 'l%d' % _l, 'b26', dict(mode=0, len=_l), jobs=1, bounds="every value of %d digits" % _l)
add('C16', 'l4', 'b26', dict(mode=0, len=4, hi=1), jobs=1, bounds="values of 4 digits, leading digit one of 3")
for _l in (5, 6, 7):
    add('C16', 'h%d' % _l, 'b26', dict(mode=0, len=_l, hi=_l - 2, hic=2), jobs=2, bounds="values of %d digits: the last 2 any, the others from 2" % _l)
add('C16', 'm1', 'b26', dict(mode=1, len=4), jobs=1, bounds="every string of up to 4 digits has its positional value")
add('C16', 'm2', 'b26', dict(mode=2), jobs=2, bounds="any 3 bytes: refused unless all are digits")
add('C16', 'm3', 'b26', dict(mode=3), jobs=2, bounds="any two values below 676: conversions do not influence each other")
add('C16', 'm3far', 'b26', dict(mode=3, far=1), jobs=4, bounds="any value below 16 and the value 2^k above it, k up to 32")
add('C16', 'long', 'b26', dict(mode=4), jobs=2, bounds="texts of 38 lengths up to 4097, any byte at 9 places")
add('C15', 'buf', 'b64', dict(mode=4), jobs=2, bounds="any up to 4 bytes by length, zero bytes included")
deep('C16', 'l4', 'b26', dict(mode=0, len=4), jobs=2)
deep('C16', 'm1', 'b26', dict(mode=1, len=5), jobs=2)
for _l in (6, 7):
    deep('C16', 'h%d' % _l, 'b26', dict(mode=0, len=_l, hi=_l - 2, hic=3), jobs=4)
for _m in range(4):
    add('C17', 'm%d' % _m, 'bits', dict(mode=_m), jobs=2)
for _i in range(8):
    add('C18', 'p%d' % _i, 'primes', dict(mode=0, lo=_i * 2048, hi=_i * 2048 + 2047), jobs=1, bounds="every value from %d to %d" % (_i * 2048, _i * 2048 + 2047))
for _i in range(4):
    add('C18', 'n%d' % _i, 'primes', dict(mode=1, lo=_i * 128, hi=_i * 128 + 127), jobs=1, bounds="next prime from every start %d..%d" % (_i * 128, _i * 128 + 127))
for _i in range(4):
    add('C18', 'seq%d' % _i, 'primes', dict(mode=3, lo=(0, 24, 112, 1318)[_i], width=(20, 16, 16, 16)[_i]), jobs=2, bounds="three calls in a row on values from %d" % (0, 24, 112, 1318)[_i])
add('C18', 'far', 'primes', dict(mode=4), jobs=8, bounds="products of two of 32 primes up to 65521 and around them, powers of two and around them, pseudoprimes; next prime from there")
add('C18', 'top', 'primes', dict(mode=2, count=16), jobs=4, bounds="the 16 largest 32-bit values")
add('C18', 'sq', 'primes', dict(mode=2, count=8, below=4294967295 - 65521 * 65521 - 4), jobs=4, bounds="around 65521^2")
add('C18', 'half', 'primes', dict(mode=2, count=16, below=2147483640), jobs=4, bounds="around 2^31")
for _i in range(8, 24):
    deep('C18', 'p%d' % _i, 'primes', dict(mode=0, lo=_i * 2048, hi=_i * 2048 + 2047), jobs=1)
for _i in range(4, 16):
    deep('C18', 'n%d' % _i, 'primes', dict(mode=1, lo=_i * 128, hi=_i * 128 + 127), jobs=1)
add('C21', 'n3', 'soundex', dict(len=3), jobs=4, bounds="any string of up to 3 arbitrary bytes")
for _p in (1, 2, 3):
    add('C21', 'p%d' % _p, 'soundex', dict(len=2, pre=_p), jobs=4, bounds="any 2 bytes after a fixed beginning")
add('C21', 'again', 'soundex', dict(len=2, before=1), jobs=4, bounds="any 2 bytes after one of 6 other names")
deep('C21', 'n4', 'soundex', dict(len=4), jobs=8)

# ---------------------------------------------------------------- flags, sources, messages
for _d, _pid, _n in ((1, 'C19', 'dbg'), (0, 'C20', 'flg')):
    add(_pid, 'reg', 'flags', dict(mode=0, dbg=_d), jobs=4, bounds="any 32-bit flag value registered")
    if _d:
        add(_pid, 'bits', 'flags', dict(mode=1, dbg=_d), jobs=4, bounds="any flag tested after any flag was set")
    add(_pid, 'ops', 'flags', dict(mode=2, dbg=_d, ops=3), jobs=4, bounds="any 3 set/unset/all/none operations over flags in all four sets")
    deep(_pid, 'ops', 'flags', dict(mode=2, dbg=_d, ops=4), jobs=8)
add('C22', 'ops', 'source', dict(ops=3, linelen=1), jobs=4, bounds="any 3 operations, any line of up to 1 byte")
add('C22', 'create', 'source', dict(ops=1, linelen=1, rounds=2, create=1), jobs=4, bounds="created explicitly")
add('C22', 'empty', 'source', dict(rounds=2, create=2), jobs=1, bounds="a token before the first line")
add('C22', 'wide', 'source', dict(ops=2, linelen=2, wide=1), jobs=4)
add('C22', 'again', 'source', dict(ops=1, linelen=1, rounds=2), jobs=4, bounds="the source manager destroyed and created again")
for _p in (997, 998, 999):
    add('C22', 'pre%d' % _p, 'source', dict(ops=2, linelen=1, prefill=_p), jobs=2, bounds="%d lines read before: the line table grows" % _p)
add('C22', 'pre2', 'source', dict(ops=1, linelen=1, prefill=1100, rounds=2), jobs=2)
add('C22', 'pre3', 'source', dict(ops=1, linelen=1, prefill=1998), jobs=2)
deep('C22', 'ops', 'source', dict(ops=4, linelen=1), jobs=8)
for _p in range(4):
    add('C23', 'w%d' % _p, 'perror', dict(len=5, prefix=_p), jobs=2, bounds="any message of up to 5 bytes after beginning %d" % _p)
    add('C23', 'r%d' % _p, 'perror', dict(len=4, prefix=_p, regs=3), jobs=2, bounds="with 3 registered symbol texts")
    deep('C23', 'w%d' % _p, 'perror', dict(len=7, prefix=_p), jobs=2)
add('C23', 'again', 'perror', dict(len=2, before=1, regs=1), jobs=4, bounds="after an earlier report of any kind: any message of up to 2 characters")
add('C23', 'again1', 'perror', dict(len=1, before=1, regs=1, prefix=1), jobs=4, bounds="after an earlier report of any kind: a message with a symbol")
add('C23', 'long', 'perror', dict(len=1, regs=2, alpha=4, long=1), jobs=4, bounds="symbols, their texts and plain text of 18 lengths up to 4096")
for _f in (0, 1):
    add('C23', 'far%d' % _f, 'perror', dict(len=0, far=1, fmt=_f), jobs=4, bounds="14 columns and lengths up to 4096, 4 line numbers up to 2^31-1")
add('C23', 'pos', 'perror', dict(len=1, pos=1), jobs=2)
for _f in (1, 2):
    add('C23', 'f%d' % _f, 'perror', dict(len=2, pos=1, fmt=_f), jobs=2)
for _f in (0, 1, 3, 4, 5):
    add('C23', 'null%d' % _f, 'perror', dict(len=1, pos=1, fmt=_f, null=1), jobs=2, bounds="to a stream or, without one, to standard output")

# ---------------------------------------------------------------- processes
for _m in range(4):
    add('C24', 'm%d' % _m, 'wait', dict(mode=_m), jobs=2, bounds="any 32-bit wait status")
add('C24', 'm4', 'wait', dict(mode=4), jobs=2, bounds="two children in sequence, any fates")
for _c, _n in ((1, 'child'), (0, 'parent')):
    for _p in range(3):
        add('C25', _n + str(_p), 'propen', dict(child=_c, prior=_p, **({} if _p == 0 else dict(holes=0))), jobs=4, bounds="any valid flags, any descriptors handed in; %d earlier children" % _p)
for _c, _n in ((1, 'child'), (0, 'parent')):
    for _p in range(2):
        add('C25', _n + 'Low' + str(_p), 'propen', dict(child=_c, prior=_p, low=1, holes=0), jobs=4, bounds="as above, any of descriptors 0, 1, 2 closed; %d earlier children" % _p)
for _c, _n in ((1, 'child'), (0, 'parent')):
    add('C25', _n + 'Bad', 'propen', dict(child=_c, prior=0, bad=1, holes=0), jobs=4, bounds="a file handed in may be any number no descriptor has")
for _c, _n in ((1, 'child'), (0, 'parent')):
    for _l in (0, 1):
        add('C25', _n + 'Same' + ('Low' if _l else ''), 'propen', dict(child=_c, prior=0, same=1, holes=0, low=_l), jobs=4, bounds="files handed in are all the same one" + (", any of descriptors 0, 1, 2 closed" if _l else ""))
for _l in (1, 2):
    for _c, _n in ((1, 'child'), (0, 'parent')):
        add('C25', _n + ('Raised', 'Lowered')[_l - 1], 'propen', dict(child=_c, prior=1, holes=0, limit=_l), jobs=4, bounds="the limit of descriptors is " + ('raised', 'lowered')[_l - 1] + " between the calls")
add('C25', 'spawn', 'propen', dict(child=1, prior=1, spawn=1, holes=0), jobs=4, bounds="pr_spawn after an earlier child")
add('C25', 'long', 'propen', dict(child=1, prior=0, spawn=1, long=1, holes=0), jobs=4, bounds="pr_spawn: commands of up to 64 words, words of 38 lengths up to 4097")
add('C25', 'noexec', 'propen', dict(child=1, prior=0, noexec=1, holes=0), jobs=4, bounds="a command that cannot be run, any request")
add('C25', 'fail', 'propen', dict(child=1, prior=1, fail=1, holes=0), jobs=4, bounds="no pipe or no process to be had, any request, 1 earlier child")
add('C26', 'rw', 'transfer', dict(), jobs=4, bounds="2 bytes in, 2 out, any split of reads and writes, any readiness order")
add('C26', 'rw0', 'transfer', {'in': 3, 'out': 3, 'again': 0}, jobs=4, bounds="3 bytes in, 3 out")
add('C26', 'again', 'transfer', dict(rounds=2, again=0), jobs=4, bounds="two transfers in a row")
add('C26', 'again2', 'transfer', {'rounds': 2, 'filter': 1, 'in': 1, 'out': 1}, jobs=4, bounds="two filters in a row")
add('C26', 'flt', 'transfer', dict(filter=1), jobs=4)
add('C26', 'early', 'transfer', dict(early=1), jobs=4)
for _f in (1, 2, 3):
    add('C26', 'fault%d' % _f, 'transfer', dict(fault=_f), jobs=4, bounds="any one call failing")
for _f in (0, 1):
    add('C26', 'high%d' % _f, 'transfer+NFD=1050', {'fill': 1017, 'filter': _f, 'in': 1, 'out': 1, 'again': 0}, jobs=4, bounds="so many descriptors open that those of the pipes are about 1024, where select(2) ends")
add('C26', 'large', 'transfer+BUF=100100', dict(again=0), jobs=8, bounds="12 amounts of data up to 100000 bytes each way, in pieces of any of 3 sizes, room for one less, enough, one more")
deep('C26', 'rw', 'transfer', {'in': 4, 'out': 4, 'again': 1}, jobs=8)
add('C33', 'one', 'prshutdown', dict(children=2), jobs=4, bounds="up to 2 children, any of them closed before, any fate at shutdown")
add('C33', 'raised', 'prshutdown', {'children': 2, 'raise': 1, 'low': 0}, jobs=4, bounds="the limit of descriptors is raised between the calls")
add('C33', 'two', 'prshutdown', dict(children=1, rounds=2), jobs=4)
add('C33', 'maa', 'prshutdown', dict(children=2, maa=1), jobs=4)
deep('C33', 'three', 'prshutdown', dict(children=3), jobs=8)

# ---------------------------------------------------------------- logs, errors, timers, symbols, life cycle
add('C27', 'ops', 'logs', dict(mode=0, ops=2, eintr=0), jobs=4, bounds="any 2 operations, any time", rename=['fflush', 'fclose'])
add('C27', 'eintr', 'logs', dict(mode=0, ops=1, eintr=2), jobs=4, rename=['fflush', 'fclose'])
for _m in (1, 2, 3):
    add('C27', 'm%d' % _m, 'logs', dict(mode=_m), jobs=2, rename=['fflush', 'fclose'])
add('C27', 'expand', 'logs', dict(mode=5), jobs=2, rename=['fflush', 'fclose'], bounds="file names 12 times as long as their patterns, up to 4084 characters")
add('C27', 'low', 'logs', dict(mode=0, ops=1, eintr=0, fd0=0), jobs=4, rename=['fflush', 'fclose'], bounds="log files get descriptor 0: any operation")
add('C27', 'long', 'logs', dict(mode=4), jobs=4, rename=['fflush', 'fclose'], bounds="names of 38 lengths up to 4097")
deep('C27', 'ops', 'logs', dict(mode=0, ops=3, eintr=0), jobs=8, rename=['fflush', 'fclose'])
for _m in (0, 1):
    add('C28', 'm%d' % _m, 'errs', dict(mode=_m), jobs=4, rename=['fflush'])
for _i in range(19):
    add('C29', 's%d' % _i, 'oom', dict(sc=_i, max=90), jobs=2, rename=['malloc', 'calloc', 'realloc', 'strdup'], bounds="scenario %d, any of its allocations failing" % _i)
for _m in range(3):
    add('C30', 'm%d' % _m, 'timers', dict(mode=_m), jobs=4, bounds="instants from 3 seconds x 4 microsecond values")
add('C30', 'any', 'timers', dict(mode=3, umax=3), jobs=2, time=120, bounds="solver arithmetic on doubles: up to 3 s and 3 us apart")
deep('C30', 'any', 'timers', dict(mode=3, umax=255), jobs=2)
add('C31', 'ops', 'prs', dict(ops=3, len=1, alpha=2), jobs=4, bounds="any 3 operations, symbols of up to 1 character, and any unknown symbol")
add('C31', 'pre', 'prs', dict(ops=2, prefill=14, len=1, alpha=2), jobs=4, bounds="14 symbols registered, any 2 operations")
deep('C31', 'ops', 'prs', dict(ops=3, len=2, alpha=2), jobs=8)
add('C32', 'ops', 'lifecycle', dict(ops=2), jobs=4, bounds="any 2 modules used, then shutdown")
add('C32', 'ops3', 'lifecycle', dict(ops=1, rounds=3), jobs=4, bounds="three rounds of use and shutdown")
deep('C32', 'ops', 'lifecycle', dict(ops=3), jobs=8)
for _m in range(5):
    add('C34', 'm%d' % _m, 'misuse', dict(mode=_m), jobs=2)
for _m, _n in ((0, 'hash table'), (1, 'set')):
    add('C35', 't%d' % _m, 'stats', dict(mode=_m, keys=2, ops=3), jobs=4, bounds=_n + ": 2 keys with any 4-bit hashes, any 3 operations")
    for _p in (15, 16, 17):
        add('C35', 't%dp%d' % (_m, _p), 'stats', dict(mode=_m, keys=2, ops=2, prefill=_p, bits=2, base=30), jobs=4, bounds=_n + ": %d keys present, 2 more, any 2 operations (the table is enlarged)" % _p)
    add('C35', 't%dbig' % _m, 'stats', dict(mode=_m, keys=1, ops=2, prefill=52, spread=1, bits=2), jobs=4, bounds=_n + ": 52 keys present (enlarged twice)")
    deep('C35', 't%d' % _m, 'stats', dict(mode=_m, keys=3, ops=4, bits=3), jobs=8)
add('C35', 'pool', 'stats', dict(mode=2, ops=4), jobs=4, bounds="string pools: any 4 operations on 3 strings")
add('C35', 'src', 'stats', dict(mode=3, ops=4), jobs=4, bounds="sources: any 4 lines or tokens")
add('C35', 'src999', 'stats', dict(mode=3, ops=2, prefill=999), jobs=4, bounds="sources: 999 lines before")
add('C35', 'mem', 'stats', dict(mode=4, ops=4), jobs=4, bounds="object and string memory: any 4 operations")
add('C35', 'lists', 'stats', dict(mode=5, ops=4), jobs=4, bounds="lists: any 4 operations, dumped")
deep('C35', 'pool', 'stats', dict(mode=2, ops=6), jobs=8)
deep('C35', 'src', 'stats', dict(mode=3, ops=8), jobs=8)
deep('C35', 'mem', 'stats', dict(mode=4, ops=7), jobs=8)

# ---------------------------------------------------------------- large structures: built concretely, then any operations
for _p in (100, 300, 600):
    add('C01', 'large%d' % _p, 'hash_map+MAXK=640', dict(keys=1, ops=2, prefill=_p, bits=1, base=200, preop=1), jobs=4, bounds="%d keys present, any 2 operations, the first on any of 9 of them" % _p) if _p < 300 else add('C01', 'large%d' % _p, 'hash_map+MAXK=640', dict(keys=1, ops=2, prefill=_p, bits=1, base=200), jobs=4, bounds="%d keys present, any 2 operations on another" % _p)
    add('C05', 'large%d' % _p, 'set_map+MAXK=640', dict(keys=1, ops=2, prefill=_p, bits=1, base=200), jobs=4, bounds="%d elements present, any 2 operations on another" % _p)
for _m in (0, 3, 4):
    add('C02', 'large%d' % _m, 'hash_iter+MAXK=320', dict(mode=_m, keys=1, prefill=300, bits=1, base=150), jobs=4, bounds="300 keys and another, stopped at 9 places or not")
for _o in range(6):
    add('C06', _opn[_o] + 'Large', 'set_alg+MAXK=320', dict(op=_o, keys=1, prefill=300, preA=200, preB0=100, preB=300, bits=1, base=150), jobs=2, bounds="set_%s of 200 and 200 elements, 100 in common, and any of one more" % _opn[_o])
    add('C06', _opn[_o] + 'LargeIn', 'set_alg+MAXK=320', dict(op=_o, keys=1, prefill=300, preA=40, preB=300, bits=1, base=150), jobs=2, bounds="set_%s of 40 and 300 elements" % _opn[_o])
add('C07', 'large', 'list+MAXN=320', dict(ops=1, prefill=300, databits=1), jobs=4, bounds="a list of 300, any operation at any of 9 places")
add('C07', 'largehist', 'list+MAXN=320', dict(ops=1, prefill=130, kinds=4, hist=1), jobs=4, bounds="a list of 130: an access, an operation, an access at any of 9 places")
add('C08', 'large', 'stack+MAXN=1100', dict(ops=2, prefill=1030), jobs=4, bounds="stacks of 1030, any 2 operations")
for _r, _n in ((1, 'all levels'), (2, 'one level'), (3, 'mixed levels')):
    add('C09', 'large%d' % _r, 'skiplist+MAXN=320', dict(keys=1, ops=1, prefill=300, rnd=_r, off=1, maxkey=3), jobs=4, bounds="300 nodes of %s, any operation" % _n)
add('C09', 'asc', 'skiplist+MAXN=320', dict(keys=1, ops=1, prefill=300, rnd=3, asc=1, off=1, maxkey=3), jobs=4, bounds="300 nodes inserted in order")
add('C09', 'desc', 'skiplist+MAXN=320', dict(keys=1, ops=1, prefill=300, rnd=3, desc=1, off=1, maxkey=3), jobs=4, bounds="300 nodes inserted in falling order")
add('C10', 'large', 'memobj+MAXN=720', dict(ops=2, prefill=700), jobs=4, bounds="700 objects out, any 2 operations, on any of 9")
add('C11', 'large', 'memstr+MAXN=1420', dict(ops=1, len=2, prefill=1400), jobs=4, bounds="1400 strings present (more than one memory chunk), any operation")
for _g in (0, 1):
    add('C12', 'large%d' % _g, 'strpool+MAXN=420', dict(ops=1, len=1, prefill=400, **{'global': _g}), jobs=4, bounds="400 strings present, any operation")
for _p in (30, 61, 62, 63, 126, 127, 254, 255, 510):
    add('C13', 'large%d' % _p, 'arglist+MAXN=520', dict(ops=1, prefill=_p, len=1), jobs=2, bounds="%d arguments present, any operation" % _p)
add('C31', 'large', 'prs+MAXN=420', dict(ops=1, prefill=400, len=1, alpha=2), jobs=4, bounds="400 symbols registered, any operation")
for _m in (0, 1):
    add('C35', 't%dlarge' % _m, 'stats+MAXK=640', dict(mode=_m, keys=1, ops=1, prefill=600, spread=1, bits=1), jobs=4, bounds="600 keys present")

# ---------------------------------------------------------------- a long life before
for _c in (300, 1000):
    add('C01', 'churn%d' % _c, 'hash_map', dict(keys=1, ops=2, prefill=20, bits=1, base=30, churn=_c, preop=1), jobs=2, bounds="%d deletions and insertions before, any 2 operations" % _c)
    add('C05', 'churn%d' % _c, 'set_map', dict(keys=1, ops=2, prefill=20, bits=1, base=30, churn=_c), jobs=2, bounds="%d deletions and insertions before, any 2 operations" % _c)
    add('C07', 'churn%d' % _c, 'list', dict(ops=1, prefill=5, churn=_c), jobs=2, bounds="%d changes before, any operation" % _c)
    add('C09', 'churn%d' % _c, 'skiplist', dict(keys=1, ops=2, prefill=12, rnd=3, off=1, maxkey=7, churn=_c), jobs=2, bounds="%d deletions and insertions before, any 2 operations" % _c)
    add('C10', 'churn%d' % _c, 'memobj', dict(ops=2, churn=_c), jobs=2, bounds="%d objects taken and freed before, any 2 operations" % _c)
add('C12', 'uniques', 'strpool', dict(ops=0, uniques=1100, **{'global': 1}), jobs=1, bounds="1100 unique strings from two prefixes")

add('C19', 'every', 'flags', dict(mode=4, dbg=1), jobs=4, bounds="all 90 flags registered, any of them set or cleared, then two more")
add('C20', 'every', 'flags', dict(mode=4, dbg=0), jobs=4, bounds="all 120 flags registered, any of them set or cleared, then two more")
add('C30', 'many', 'timers', dict(mode=5), jobs=4, bounds="60 timers, any one of them used 40 times")
add('C33', 'many', 'prshutdown+MAXC=12', dict(many=10), jobs=4, bounds="10 children of all kinds, any one closed before")

# ---------------------------------------------------------------- long texts
for _pid, _h, _p in (('C11', 'memstr', dict(long=1)), ('C14', 'argify', dict(long=1, len=1)), ('C19', 'flags', dict(mode=3, dbg=1)), ('C20', 'flags', dict(mode=3, dbg=0)), ('C21', 'soundex', dict(long=1, len=1)), ('C22', 'source', dict(long=1)), ('C28', 'errs', dict(mode=2)), ('C30', 'timers', dict(mode=4)), ('C31', 'prs', dict(long=1))):
    add(_pid, 'long', _h, _p, jobs=4, bounds="texts of 38 lengths up to 4097", **({'rename': ['fflush']} if _h == 'errs' else {}))
add('C12', 'longpool', 'strpool', dict(ops=0, long=1), jobs=4, bounds="own pool: strings of 38 lengths up to 4097")
add('C12', 'longglob', 'strpool', dict(ops=0, long=1, **{'global': 1}), jobs=4, bounds="global pool: strings of 38 lengths up to 4097")

add('C36', 'classes', 'report', dict(mode=0), jobs=4, bounds="any three class switches in a row")
add('C36', 'report', 'report', dict(mode=1), jobs=4, bounds="any of memory, time and other classes, up to two words, a timer or none, any of 6 clock advances")

_F = ['fflush']
add('C37', 'src', 'source', dict(ops=2, linelen=1, trace=1), jobs=4, rename=_F, bounds="any 2 operations, any line of up to 1 byte")
add('C37', 'err', 'perror', dict(len=2, trace=1, regs=1), jobs=4, rename=_F, bounds="any message of up to 2 characters")
add('C37', 'sl', 'skiplist', dict(keys=2, ops=3, ones=1, trace=1), jobs=4, rename=_F, bounds="2 keys, any 3 operations")
add('C37', 'slFind', 'skiplist', dict(keys=2, ops=2, ones=1, find=1, trace=1), jobs=4, rename=_F)
for _m in range(4):
    add('C37', 'wait%d' % _m, 'wait', dict(mode=_m, trace=1), jobs=2, rename=_F, bounds="any 32-bit wait status")
add('C37', 'wait4', 'wait', dict(mode=4, trace=1), jobs=2, rename=_F)
add('C37', 'child', 'propen', dict(child=1, prior=0, holes=0, trace=1), jobs=4, rename=_F)
add('C37', 'child1', 'propen', dict(child=1, prior=1, holes=0, trace=1), jobs=4, rename=_F)
add('C37', 'parent', 'propen', dict(child=0, prior=1, holes=0, trace=1), jobs=4, rename=_F)
add('C37', 'spawn', 'propen', dict(child=1, prior=1, spawn=1, holes=0, trace=1), jobs=4, rename=_F)
add('C37', 'rw', 'transfer', dict(trace=1), jobs=4, rename=_F)
add('C37', 'filter', 'transfer', dict(filter=1, trace=1), jobs=4, rename=_F)
add('C37', 'shutdown', 'prshutdown', dict(children=2, trace=1), jobs=4, rename=_F)
add('C37', 'errF', 'perror', dict(len=1, pos=1, fmt=1, trace=1), jobs=2, rename=_F)
add('C37', 'fail', 'propen', dict(child=1, prior=1, fail=1, holes=0, trace=1), jobs=4, rename=_F)
add('C37', 'early', 'transfer', dict(early=1, trace=1), jobs=4, rename=_F)
for _f in (1, 2, 3):
    add('C37', 'fault%d' % _f, 'transfer', dict(fault=_f, trace=1), jobs=4, rename=_F, bounds="any one call failing")
add('C37', 'same', 'propen', dict(child=1, prior=0, same=1, holes=0, trace=1), jobs=4, rename=_F)
add('C37', 'errFar', 'perror', dict(len=0, far=1, fmt=0, trace=1), jobs=4, rename=_F)
add('C37', 'err1', 'perror', dict(len=3, prefix=1, trace=1), jobs=4, rename=_F, bounds="any message of up to 3 bytes after a symbol's beginning")
add('C37', 'empty', 'source', dict(rounds=2, create=2, trace=1), jobs=1, rename=_F)
add('C37', 'noexec', 'propen', dict(child=1, prior=0, noexec=1, holes=0, trace=1), jobs=4, rename=_F)
add('C37', 'bad', 'propen', dict(child=0, prior=0, bad=1, holes=0, trace=1), jobs=4, rename=_F)
add('C37', 'srcLong', 'source', dict(long=1, trace=1), jobs=4, rename=_F)
add('C37', 'errLong', 'perror', dict(len=1, regs=2, alpha=4, long=1, trace=1), jobs=4, rename=_F)
add('C37', 'spawnLong', 'propen', dict(child=1, prior=0, spawn=1, long=1, holes=0, trace=1), jobs=4, rename=_F)

# far more data than fits on the stack (here 256 KB)
for _p, _m, _n in (('C09', 0, 'sl_iterate over 60000 nodes'), ('C09', 1, 'sl_iterate_arg over 60000 nodes'), ('C12', 2, 'strings of 500000 bytes'), ('C22', 3, 'a line of 500000 bytes given to src_cpp_line'),
                   ('C23', 4, 'a message of 500000 bytes'), ('C14', 5, 'a line of 500000 bytes')):
    add(_p, 'huge%d' % _m, 'huge+MODE=%d' % _m, dict(stack=256), jobs=2, steps=400000000, bounds=_n + ", 256 KB of stack")

# traversals and protections inside one another, lookups of other keys from callbacks
for _m in (0, 1):
    add('C02', 'look%d' % _m, 'hash_iter', dict(mode=_m, keys=3, bits=3, base=28, look=1), jobs=4, bounds="3 keys, hashes 28..35, any stopping point, any key looked up by the callback")
    add('C02', 'nest%d' % _m, 'hash_iter', dict(mode=_m, keys=3, bits=2, base=28, look=1, nest=1), jobs=4, bounds="3 keys, hashes 28..31, the callback traverses the table in any of 4 ways and looks up any key")
add('C02', 'lookdel', 'hash_iter', dict(mode=0, keys=3, bits=2, base=29, look=1, **{'del': 1}), jobs=4, bounds="3 keys, hashes 29..32, the callback deletes some and looks up any key")
add('C02', 'lookmany', 'hash_iter', dict(mode=1, keys=1, prefill=17, spread=0, bits=1, look=1), jobs=4, bounds="17 colliding keys and another, any of 9 keys looked up by the callback")
add('C02', 'posnest', 'hash_iter', dict(mode=3, keys=3, bits=2, base=28, nest=1), jobs=4, bounds="HSH_ITERATE with another traversal and a lookup at every step")
for _w, _n in ((0, 'table'), (1, 'set')):
    add('C03', 'nest%d' % _w, 'readonly', dict(which=_w, scen=3, keys=2, bits=2, base=30), jobs=4, bounds="%s of up to 2 keys, marked or not, up to 2 traversals by position open, another use inside, some of them ended, any operation" % _n)
add('C03', 'setinner', 'readonly', dict(which=1, scen=1, keys=2, bits=2, base=30, nest=1), jobs=4, bounds="set of up to 2; inside set_iterate another traversal or set operation, then any operation")
add('C30', 'apart', 'timers', dict(mode=6), jobs=4, bounds="up to 2^32 s apart, also backwards, from 4 instants up to 2^32 s; any of the 5 clocks")

# more than 65536 elements
for _p, _m, _n in (('C01', 0, 'a table of 66000 pointers'), ('C05', 1, 'a set of 66000 pointers, its copy, unions, differences'), ('C07', 2, 'a list of 66000'), ('C08', 3, 'a stack of up to 66000'), ('C10', 4, '66000 objects of 4, 8 or 16 bytes'),
                   ('C11', 5, '66000 strings of 5 bytes'), ('C12', 6, '66000 strings of 5 bytes'), ('C13', 7, '66000 arguments'), ('C22', 8, '66000 lines'), ('C09', 9, '66000 data'), ('C14', 10, 'a line of 66000 words'), ('C31', 11, '66000 symbols')):
    add(_p, 'many%d' % _m, 'many+MODE=%d' % _m, dict(), jobs=4, steps=2000000000, bounds=_n + ", reached by one of 7 indices around 2^8 and 2^16")

for _d, _pid in ((1, 'C19'), (0, 'C20')):
    add(_pid, 'late', 'flags', dict(mode=2, dbg=_d, ops=2, late=1), jobs=4, bounds="5 flags, one registered only after the first or second of 2 settings")
    deep(_pid, 'late3', 'flags', dict(mode=2, dbg=_d, ops=3, late=1), jobs=8, bounds="5 flags, one registered only after any of 3 settings")
add('C06', 'many1', 'many+MODE=1', dict(), jobs=4, steps=2000000000, bounds="a set of 66000 pointers, its copy, unions, differences")
for _m in (0, 4, 5, 6):
    add('C35', 'many%d' % _m, 'many+MODE=%d' % _m, dict(), jobs=4, steps=2000000000, bounds="66000 elements")

# lengths beyond 2^12 .. 2^16
for _pid, _h, _p in (('C11', 'memstr', dict(long=1)), ('C14', 'argify', dict(long=1, len=1)), ('C19', 'flags', dict(mode=3, dbg=1)), ('C20', 'flags', dict(mode=3, dbg=0)), ('C21', 'soundex', dict(long=1, len=1)), ('C22', 'source', dict(long=1)), ('C28', 'errs', dict(mode=2)),
                     ('C30', 'timers', dict(mode=4)), ('C31', 'prs', dict(long=1)), ('C12', 'strpool', dict(ops=0, long=1)), ('C16', 'b26', dict(mode=4))):
    add(_pid, 'vast', _h + '+VAST', _p, jobs=4, steps=2000000000, bounds="texts of 10 lengths from 4098 to 65800", **({'rename': ['fflush']} if _h == 'errs' else {}))

for _p in ('C01', 'C04', 'C05'):
    add(_p, 'many12', 'many+MODE=12', dict(), jobs=4, steps=2000000000, bounds="4 keys of 7 lengths up to 66000, differing at one place")
add('C13', 'many13', 'many+MODE=13', dict(), jobs=4, steps=2000000000, bounds="an argument of 7 lengths up to 65999")

# two objects of one kind; with lifo=1 a released block is given out again at the next request of its size, as real allocators do
for _p, _m, _q in (('C01', 0, {}), ('C05', 1, {}), ('C09', 2, {}), ('C08', 3, {}), ('C07', 3, dict(lists=1)), ('C10', 4, dict(kind=0)), ('C11', 4, dict(kind=1)), ('C12', 4, dict(kind=2)), ('C13', 4, dict(kind=3))):
    for _r in (0, 1):
        add(_p, 'pair' + ('', 'again')[_r], 'pair+MODE=%d' % _m, dict(ops=2 if _m < 4 else 3, lifo=_r, **_q), jobs=4, bounds="two objects side by side, any 2 operations (3 for pools and argument lists) on either (destroyed and created again, one changed during a traversal of the other)" + ("", "; released memory reused at once")[_r])
        deep(_p, 'pair3' + ('', 'again')[_r], 'pair+MODE=%d' % _m, dict(ops=3, lifo=_r, **_q), jobs=8, bounds="two objects side by side, any 3 operations on either" + ("", "; released memory reused at once")[_r])

# the same histories with released memory given out again at once: what is remembered about an address must not outlive what was there
for _p, _ns in (('C01', 'small ops5 cross16'), ('C02', 'it0 del pos'), ('C05', 'small cross16'), ('C06', 'unionTwice interTwice addTwice equalTwice'), ('C07', 'ops two hist'), ('C08', 'ops'), ('C09', 'mix find'), ('C10', 'ops'), ('C11', 'ops grow'), ('C12', 'pool glob'),
                ('C13', 'ops'), ('C22', 'ops again'), ('C23', 'again'), ('C26', 'again'), ('C27', 'ops'), ('C31', 'ops'), ('C32', 'ops ops3'), ('C19', 'ops'), ('C20', 'ops'), ('C30', 'm0 any')):
    for _n in _ns.split():
        for _t in [t for t in T[_p] if t['name'] == _n and 'quick' in t.get('tiers', ('quick', 'thorough'))]:
            _d = dict(_t, name=_n + 'Lifo', params=dict(_t['params'], lifo=1), bounds=_t.get('bounds', '') + '; released memory reused at once')
            T[_p].append(_d)
for _m in (0, 1):
    add('C35', 'pair%d' % _m, 'pair+MODE=%d' % _m, dict(ops=2, stats=1, lifo=1), jobs=4, bounds="the figures of two tables or sets side by side, any 2 operations on either; released memory reused at once")
add('C35', 'pair4', 'pair+MODE=4', dict(ops=2, kind=0, lifo=1), jobs=4, bounds="the figures of two object pools side by side")
add('C35', 'pair5', 'pair+MODE=4', dict(ops=2, kind=1, lifo=1), jobs=4, bounds="the figures of two string memories side by side")
# a hash, key or comparison function that works on another table, set or list
for _p, _m, _n in (('C01', 0, 5), ('C05', 1, 5), ('C09', 2, 16)):
    add(_p, 'inner', 'pair+MODE=%d' % _m, dict(ops=1, cb=_n), jobs=4, bounds="two objects, any operation with any operation on the other inside any of the first %d calls of its hash, key or comparison function" % _n)
    deep(_p, 'inner2', 'pair+MODE=%d' % _m, dict(ops=2, cb=_n), jobs=8, bounds="the same and another operation")
