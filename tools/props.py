#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
I = 'include/ipaddress/'
PROPS = []
def P(id, title, statement, over, text, why, files, mech, na=None, note=None, tech=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na, note=note, tech=tech))

P('P01', 'IPv4 text parsing accepts exactly dotted-quad and yields its value',
  'Parsing a text as an IPv4 address succeeds exactly when it consists of four decimal octets 0..255 without leading zeros, each of at most three digits, separated by single dots and nothing else, and the result then has exactly those four octets. Every other text of any length (including embedded NULs, signs, spaces, trailing characters) is rejected, through the error-code overloads with a code other than no_error and through the throwing overloads with an exception that carries the same code.',
  ['inputs'], 'every byte string of every length given to the string overloads, and every content of a character array',
  'the tests feed a few dozen strings; the guarantee is over all strings',
  ['base-v4.hpp', 'ip-address-base.hpp', 'unicode.hpp'], [('base_v4::ip_from_string', 'base-v4.hpp'), ('ip_address_base::parse*', 'ip-address-base.hpp')])
P('P02', 'IPv4 text is canonical and parses back to the same address',
  'Converting an IPv4 address to text yields exactly its four octets in shortest decimal joined by dots, whatever the requested format, and parsing that text yields the same address. The result fits the documented maximum length.',
  ['inputs'], 'every IPv4 address', 'tests convert a handful of the 2^32 addresses',
  ['base-v4.hpp', 'ip-address-base.hpp'], [('base_v4::ip_to_chars', 'base-v4.hpp'), ('base_v4::byte_to_string', 'base-v4.hpp')])
P('P03', 'IPv6 text parsing accepts exactly RFC 4291 texts and yields their value',
  'Parsing a text as an IPv6 address succeeds exactly when the part before an optional % is an RFC 4291 form - eight groups of one to four hex digits, or fewer with a single "::" standing for at least one zero group, the last two groups optionally written as a dotted-quad IPv4 address - and, when a % is present, a scope id of 1 to 16 characters follows that contains no %, /, white space or NUL; the result then has exactly the denoted 128-bit value and that scope id. Every other text of any length is rejected with an error.',
  ['inputs'], 'every byte string of every length', 'the grammar has thousands of shapes (position of ::, group lengths, embedded IPv4, scope); tests sample a few dozen',
  ['base-v6.hpp', 'fixed-string.hpp', 'unicode.hpp'], [('base_v6::ip_from_string', 'base-v6.hpp'), ('split_scope_id, split_parts, get_parts_bound, parse_parts', 'base-v6.hpp')])
P('P04', 'IPv6 text is canonical in each format and parses back to the same address',
  'Converting an IPv6 address to text gives eight lower-case hex groups: four digits each (full), leading zeros dropped (compact), and in the compressed form the leftmost longest run of at least two zero groups replaced by "::" (RFC 5952), followed by % and the scope id when there is one. Parsing any of these texts yields the same address and scope id.',
  ['inputs'], 'every IPv6 address, every scope id and every format', 'tests convert a handful of the 2^128 addresses',
  ['base-v6.hpp', 'ipv6-address.hpp'], [('base_v6::ip_to_chars', 'base-v6.hpp'), ('to_hex', 'base-v6.hpp')])
P('P05', 'Numeric and byte conversions of addresses are exact inverses',
  'to_uint of an address is the big-endian number of its bytes, from_uint(to_uint(a)) has the bytes of a, to_uint(from_uint(n)) is n, and from_bytes(bytes) has exactly those bytes, for both versions and for the version-independent address type.',
  ['inputs'], 'every 32-bit / 128-bit value', 'tests use fixed samples; a swapped or dropped byte for particular values goes unseen',
  ['base-v4.hpp', 'ipv6-address.hpp', 'ip-any-address.hpp', 'endian.hpp', 'uint128.hpp'], [('ip_from_uint32 / ip_to_uint32', 'base-v4.hpp'), ('from_uint / to_uint', 'ipv6-address.hpp')])
P('P06', 'IPv4-mapped, 6to4 and Teredo extraction is exact',
  'ipv4_mapped yields an address exactly for ::ffff:0:0/96 and then its low 32 bits; sixtofour exactly for 2002::/16 and then bits 16..47; teredo_info exactly for 2001::/32 and then the server address (bits 32..63) and the complemented low 32 bits as client. ipv4.ipv6_mapped() yields ::ffff:a.b.c.d and ipv4_mapped of it gives the address back.',
  ['inputs'], 'every IPv6 and IPv4 address', 'tests cover a few addresses; a prefix test that ignores some bits is only visible for addresses nobody sampled',
  ['ipv6-address.hpp', 'ipv4-address.hpp'], [('ipv4_mapped, sixtofour, teredo_info', 'ipv6-address.hpp')])
P('P07', 'Address and network classification matches the documented ranges',
  'is_multicast, is_private, is_global, is_reserved, is_loopback, is_link_local, is_unspecified and is_site_local of an address hold exactly on the IANA ranges listed by the library (the ranges of Python ipaddress it follows), IPv4-mapped IPv6 addresses being private exactly when the IPv4 address is. For a network each predicate holds exactly when it holds for both its first and last address (is_private: when one single listed range contains both).',
  ['inputs'], 'every IPv4/IPv6 address and network', 'tests probe single addresses per range, never the borders of all ranges for all addresses',
  ['ip-networks.hpp', 'ip-network-base.hpp', 'ip-any-address.hpp', 'ip-any-network.hpp'], [('internal::nets tables and props<>', 'ip-networks.hpp')])
P('P08', 'Comparison, hashing and swap agree with the represented value',
  'For addresses, networks, scope ids and 128-bit integers, ==, !=, <, <=, >, >= and <=> (when available) form one total order: numeric value first, IPv6 scope id next, network prefix length last, every IPv4 value before every IPv6 value; equal values have equal hashes, std::hash included. swap exchanges the two values completely. The same order results with and without the three-way comparison operator of the language.',
  ['inputs', 'histories', 'configurations'], 'every pair of values, in the C++11 and C++20 configurations', 'tests compare few fixed pairs and only in one language mode',
  ['ip-address-base.hpp', 'ipv6-address.hpp', 'ip-network-base.hpp', 'fixed-string.hpp', 'byte-array.hpp', 'hash.hpp', 'uint128.hpp', 'ip-any-address.hpp', 'ip-any-network.hpp'], [('equals / less / compare / hash / swap', 'ipv6-address.hpp')])
P('P09', 'Networks built from an address are normalised and self-consistent',
  'from_address(a, p) gives the network whose prefix length is p, netmask is p leading one bits, hostmask its complement, network address is a with the host bits clear, broadcast address is a with the host bits set, and addresses_count is 2^(bits-p) modulo the range of the unsigned type. With strict set (default) an address with host bits set is rejected with has_host_bits_set; a prefix length beyond 32 / 128 is rejected with invalid_netmask; no failure leaves a partly built network.',
  ['inputs'], 'every address, every prefix length (also out of range), both strict modes', 'tests use few prefixes; there are 33 and 129 of them times all addresses',
  ['ip-network-base.hpp', 'base-v4.hpp', 'base-v6.hpp', 'ip-any-network.hpp'], [('from_address', 'ip-network-base.hpp'), ('ip_from_prefix, strict_netmask', 'base-v4.hpp, base-v6.hpp')])
P('P10', 'Network text parsing accepts exactly ADDRESS[/MASK] and round-trips',
  'Parsing a network text succeeds exactly when it is an address of the version, optionally followed by one slash and a mask - a decimal prefix length within 0..32 / 0..128, or for IPv4 also a dotted netmask or hostmask (ones then zeros, or zeros then ones) - and, in strict mode, the address has no host bits set; the result is the normalised network of that address and prefix. Any other text of any length is rejected with an error, and to_string of a network (address/prefixlen) parses back to the same network.',
  ['inputs'], 'every text of any length, both strict modes', 'tests sample texts; wrap-around of long prefix digits, trailing garbage and mask patterns are not enumerable by samples',
  ['ip-network-base.hpp', 'base-v4.hpp', 'base-v6.hpp'], [('parse_address_with_prefix', 'ip-network-base.hpp'), ('parse_netmask', 'base-v4.hpp, base-v6.hpp')])
P('P11', 'contains, overlaps, subnet_of and supernet_of are set relations',
  'A network contains an address exactly when the address lies between its network and broadcast address. For two networks, overlaps holds exactly when they share an address, a.subnet_of(b) exactly when every address of a lies in b, and b.supernet_of(a) is the same relation; mixed-version queries are always false.',
  ['inputs'], 'every pair of networks and every address', 'tests use a handful of pairs out of 2^64+ combinations',
  ['ip-network-base.hpp', 'ip-any-network.hpp'], [('contains / overlaps / is_subnet_of', 'ip-network-base.hpp')])
P('P12', 'supernet yields the unique enclosing network of the requested length',
  'supernet with prefixlen_diff d (default 1) or new_prefixlen q yields the network of prefix p-d (respectively q) that contains the original one; the supernet of a /0 network is itself. A q longer than p gives new_prefix_must_be_shorter, q together with d != 1 gives cannot_set_prefixlen_diff_and_new_prefix, d > p gives invalid_prefixlen_diff, as error code or as exception.',
  ['inputs'], 'every network and every combination of arguments, including out-of-range ones', 'tests use a few networks and arguments',
  ['ip-network-base.hpp', 'ip-any-network.hpp'], [('supernet', 'ip-network-base.hpp')])
P('P13', 'subnets partitions a network into equal blocks in order',
  'subnets with prefixlen_diff d or new_prefixlen q yields exactly the 2^d networks of the longer prefix contained in the network, in increasing address order, each once: iterating from begin() to end() visits them and terminates, the k-th element by [k], at(k) or begin()+k is network + k blocks, front and back are the first and last, size() is their number modulo the range of the unsigned type. A single-address network yields itself; invalid arguments give new_prefix_must_be_longer, cannot_set_prefixlen_diff_and_new_prefix or invalid_prefixlen_diff and an otherwise empty result.',
  ['inputs', 'histories'], 'every network (including those ending at the last address and /0), every legal and illegal argument, every position', 'tests enumerate small examples away from the end of the address space',
  ['ip-network-base.hpp', 'ip-network-iterator.hpp', 'ip-any-network.hpp', 'ip-any-iterator.hpp'], [('subnets_sequence', 'ip-network-iterator.hpp'), ('ip_network_iterator', 'ip-network-iterator.hpp')])
P('P14', 'hosts enumerates exactly the usable host addresses in order',
  'hosts() of a network yields in increasing order, each once: all addresses for prefixes 31/127 (two) and 32/128 (one), for shorter IPv4 prefixes all but the network and the broadcast address, for shorter IPv6 prefixes all but the network address. Iteration from begin() to end() terminates after size() elements, [k] and at(k) give the k-th, front/back the first and last, and reverse iteration yields the same in reverse order.',
  ['inputs', 'histories'], 'every network including those ending at the last address of the address space, every position', 'tests enumerate small networks away from the end of the address space',
  ['ip-address-iterator.hpp', 'ip-network-base.hpp', 'ip-any-iterator.hpp'], [('hosts_sequence', 'ip-address-iterator.hpp')])
P('P15', 'address_exclude yields a disjoint partition of the difference',
  'a.address_exclude(b) with b inside a yields networks that are pairwise disjoint, disjoint from b and together with b cover exactly a; there are as many as b is longer than a (none when they are equal) and iteration terminates. When b is not inside a the error is not_contained_network, by code or exception.',
  ['inputs', 'histories'], 'every pair of networks', 'tests run a few pairs, none ending at address zero',
  ['ip-network-iterator.hpp', 'ip-network-base.hpp', 'ip-any-network.hpp'], [('ip_exclude_network_iterator', 'ip-network-iterator.hpp')])
P('P16', 'Address and subnet iterators obey random-access arithmetic',
  'Iterators over hosts and subnets, forward and reverse, plain and version-independent, behave as integers: ++/-- are inverse, it + n and it - n (n of either sign) move by n elements, (it + n) - n and it + (-n) + n return to it, it[n] is *(it + n), the difference of two iterators is the number of steps between them, and the comparison operators order by position - also when the range ends at the last address of the address space.',
  ['inputs', 'histories'], 'every start position, every step count of either sign with the target inside the range, every interleaving of steps (by induction over single steps)', 'tests step a few positions with small positive counts',
  ['ip-address-iterator.hpp', 'ip-network-iterator.hpp', 'ip-any-iterator.hpp'], [('ip_address_iterator, ip_reverse_iterator, ip_network_iterator', 'ip-address-iterator.hpp, ip-network-iterator.hpp')])
P('P17', '128-bit integer arithmetic is exact modulo 2^128',
  '+, -, *, ++, --, unary -, &, |, ^, ~, << and >> on uint128_t, and the mixed forms with built-in integers, give the mathematical result modulo 2^128 (shifts by 128 or more give 0). Division and remainder satisfy n = q*d + r with r < d, and division by zero yields 0; conversions to built-in integers keep the low bits.',
  ['inputs'], 'every pair of 128-bit operands and every shift count', 'tests use fixed operands; carries between halves and the correction steps of long division occur for rare operands only',
  ['uint128.hpp'], [('operator+,-,*,<<,>>, divide', 'uint128.hpp')])
P('P18', '128-bit integer text conversion is exact and round-trips',
  'to_string of a 128-bit integer is its shortest octal, decimal or lower-case hexadecimal digit string (no sign, prefix or leading zero; "0" for zero), and the wide and Unicode forms have the same characters. from_string of a text that up to its end or its first NUL consists of digits of the chosen base is their value modulo 2^128, upper and lower case hex digits being equal and the empty text giving 0; a text with any other character yields no value, in every encoding. So from_string(to_string(n, f), f) is n for every n and f.',
  ['inputs'], 'every 128-bit value and base, every text of any length', 'tests use fixed values; errors in carries or in the split of the halves show only for particular values',
  ['uint128.hpp'], [('to_string, uint128_to_*_str, str_to_uint128, *_str_to_uint128', 'uint128.hpp')])
P('P19', 'Every character encoding gives the same result as narrow text',
  'Parsing addresses and networks from wide, UTF-8, UTF-16 and UTF-32 strings gives the same result or the same error as parsing the narrow string of the same ASCII characters; a text with any non-ASCII code point or malformed encoding is rejected and never decoded to an ASCII character. Converting to wide, UTF-8, UTF-16 or UTF-32 text yields the same characters as the narrow text.',
  ['inputs'], 'every code unit sequence in the five encodings', 'tests use valid ASCII texts and few invalid ones; overlong and truncated sequences are not enumerated',
  ['unicode.hpp', 'ip-address-base.hpp', 'ip-network-base.hpp'], [('utf8/utf16/utf32 readers, next_char_or_error', 'unicode.hpp')])
P('P20', 'IPv6 scope ids are validated, stored and reported exactly',
  'set_scope_id(text) stores exactly text when it is empty or 1 to 16 characters without %, /, white space and NUL, and otherwise reports scope_id_is_too_long or invalid_scope_id (an encoding error for a non-ASCII code unit of a wide or Unicode string) and leaves the address as it was; get_scope_id returns the stored text, which converts to a number exactly when it consists of decimal digits whose value is below 2^32. The scope id does not affect bytes, number or classification of the address.',
  ['inputs', 'histories'], 'every scope text and every sequence of assignments', 'tests set a few scope ids',
  ['ipv6-address.hpp', 'fixed-string.hpp', 'base-v6.hpp'], [('set_scope_id, scope class', 'ipv6-address.hpp')])
P('P21', 'Version-independent types behave as the version they hold',
  'An ip_address or ip_network holding a version-4 (version-6) value answers every query exactly as that value does, v4()/v6() return the held value of the matching version and nothing for the other, and operations mixing versions (network from two versions, exclude, contains) report invalid_version or false. Parsing text without a given version yields the IPv4 value if the text is one, else the IPv6 value if it is one, else an error.',
  ['inputs', 'histories'], 'every value, every assignment history', 'tests touch a few values per member; a wrong branch for one version or stale state after assignment of the other version goes unseen',
  ['ip-any-address.hpp', 'ip-any-network.hpp', 'ip-any-iterator.hpp'], [('tagged union dispatch', 'ip-any-address.hpp, ip-any-network.hpp')])
P('P22', 'Error reporting is consistent and failures leave no partial result',
  'Every operation that takes an error code sets it to no_error exactly when it succeeds, whatever it held before, and when it fails returns the default value (of the requested version, or of the version of the operand, where there is one). The overload without the code throws exactly when the code would be set, an exception with that code: parse_error for texts and netmasks, logic_error for unusable arguments of network operations.',
  ['inputs', 'histories'], 'every input of parsing, construction and network operations, every previous value of the code', 'tests check the code on single inputs with a fresh code variable',
  ['ip-address-base.hpp', 'ip-network-base.hpp', 'ip-any-address.hpp', 'ip-any-network.hpp', 'errors.hpp'], [('error_code& parameters, raise_error', 'errors.hpp')])
P('P23', 'No input causes undefined behaviour, overrun or non-termination',
  'For every input, legal or not, the operations of the library terminate, read and write only inside their own objects and the given text, perform no undefined shift, overflow, division or index operation, and let no exception other than the documented errors escape. Only positions and steps of iterators and sequences have to stay inside the range, up to and including its end.',
  ['inputs'], 'every input of the parsing, formatting, construction, arithmetic and enumeration functions', 'memory errors and undefined shifts show only for particular lengths and boundary arguments',
  ['base-v4.hpp', 'base-v6.hpp', 'ip-network-base.hpp', 'unicode.hpp', 'uint128.hpp', 'fixed-string.hpp'], [('bounds checks in parsers and formatters', 'base-v4.hpp, base-v6.hpp, fixed-string.hpp')])
P('P24', 'Reverse DNS names are exact',
  'reverse_pointer of an IPv4 address is its four octets in reverse order in decimal, dot-separated, followed by .in-addr.arpa; of an IPv6 address its 32 hex digits in reverse order, dot-separated, followed by .ip6.arpa, independent of the scope id.',
  ['inputs'], 'every address', 'tests check a few addresses',
  ['base-v4.hpp', 'base-v6.hpp', 'ip-address-base.hpp'], [('ip_reverse_pointer', 'base-v4.hpp, base-v6.hpp')])

NOTE = 'Every obligation generated from the IR of the current /repo headers (postconditions, memory safety, UB checks, loop exhaustion) is discharged by term rewriting or SAT for all inputs; trusted: clang front end + sroa/simplifycfg, the VC generator in engine/, the SAT solver.'
def main():
    import table
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=[I + x for x in p['files']], mechanism=[dict(name=n, where=', '.join(I + w for w in x.split(', '))) for n, x in p['mech']]))) + '\n')
            assert len(p['title']) <= 80, p['id']
            assert len([s for s in p['statement'].replace('. ', '.\n').split('\n') if s.strip()]) <= 3, (p['id'], p['statement'].replace('. ', '.\n'))
    checks, na = [], []
    for p in PROPS:
        if p['id'] in table.P:
            cases, meta = table.P[p['id']]
            bnd = [c.name for c in cases if c.bounded]
            note = p['note'] or meta.get('note') or NOTE
            if bnd: note += ' Bounded stand-ins (not counted as proved): ' + '; '.join(sorted({c.bounded for c in cases if c.bounded})) + '.'
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                technique=p['tech'] or 'contract-based deductive verification: pre/postconditions on the real functions, VCs from LLVM IR, discharged by rewriting + SAT', level=meta['level'], level_note=note))
        else: na.append(dict(property=p['id'], reason=p['na'] or 'not claimed yet: its contracts are not discharged so far'))
    json.dump(dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
main()
