"""property -> harness cases"""
import re, copy
from run import Case as C
P = {}
COMMON_ASSUME = []
TRUSTED = ['clang 18 front end and opt passes sroa/simplifycfg/loop-simplify/lcssa (source to IR)', 'VC generator /verif/engine (ir.py, exec.py, term.py, blast.py)', 'kissat 4 / cadical SAT solvers', 'libstdc++ headers are verified code where inlined; operator new never fails',
           'raise_error is replaced by its contract (never returns, the exception carries the code)']
def prop(pid, cases, level='proof', assumptions=(), trusted=()):
    P[pid] = (cases, dict(level=level, assumptions=list(COMMON_ASSUME) + list(assumptions), trusted=TRUSTED + list(trusted)))
def get(pid): return P[pid]

prop('P01', [C('h_v4.cpp', 'p_v4_parse', (0,)), C('h_v4.cpp', 'p_v4_parse_throw', (0,)), C('h_v4.cpp', 'p_v4_array')])
prop('P02', [C('h_v4.cpp', 'p_v4_format'), C('h_v4.cpp', 'p_v4_roundtrip')])
prop('P05', [C('h_num.cpp', 'p_v4_num'), C('h_num.cpp', 'p_v6_num')])
prop('P06', [C('h_num.cpp', 'p_special')])
prop('P07', [C('h_class.cpp', 'p_class4'), C('h_class.cpp', 'p_class6'), C('h_class.cpp', 'p_class_net4'), C('h_class.cpp', 'p_class_net6')])
_ord = ['p_ord4', 'p_ord6', 'p_ord6_noscope', 'p_ord_any', 'p_ord_net4', 'p_ord_net6', 'p_ord_anynet', 'p_ord_u128', 'p_ord_scope']
prop('P08', [C('h_order.cpp', r, std=s) for r in _ord for s in ('c++20', 'c++11')] + [C('h_order.cpp', 'p_hash'), C('h_order.cpp', 'p_swap')])
prop('P09', [C('h_net.cpp', r) for r in ('p_from4', 'p_from6', 'p_from4_throw', 'p_from6_throw', 'p_from_default', 'p_from_any', 'p_net_any_view')])
prop('P11', [C('h_net.cpp', r) for r in ('p_sets4', 'p_sets6', 'p_sets6_scope', 'p_sets_any')])
prop('P12', [C('h_net.cpp', r) for r in ('p_supernet4', 'p_supernet6', 'p_supernet_default', 'p_supernet_any')])

DIV = {r'^ipaddress::uint128_t::operator/\(ipaddress::uint128_t const&\) const$': 'div_vfstub'}
CAD = dict(solver='cadical')
Q4, Q6 = range(33), range(129)
R4 = (0, 1, 8, 31, 32)
R6 = (0, 1, 63, 64, 65, 127, 128)
def per(root, qs, quick, **kw):
    return [C('h_subnets.cpp', root, (q,), replace=DIV, split=True, opts=CAD, tier='quick' if q in quick else 'thorough', **kw) for q in qs]
prop('P13', per('p_subnets4', Q4, Q4) + per('p_subnets4_any', Q4, R4) + per('p_subnets6', Q6, R6) + per('p_subnets6_any', Q6, (0, 64, 128)) + [C('h_subnets.cpp', r, replace=DIV, split=True) for r in ('p_subargs4', 'p_subargs6')])
_laws = [('%s' + r + k) for r in ('_', '_r') for k in ('unsigned', 'signed', 'one')]
prop('P14', [C('h_iter.cpp', r, split=True, opts=CAD) for r in ('p_hosts4', 'p_hosts6', 'p_hosts4_any', 'p_hosts6_any', 'p_hosts6_scope')])
prop('P16', [C('h_iter.cpp', l % p, split=True, opts=CAD) for p in ('p_it4', 'p_it6', 'p_itany4', 'p_itany6') for l in _laws]
     + [C('h_iter.cpp', p + '_one', std='c++11', split=True, opts=CAD) for p in ('p_it4', 'p_it6', 'p_itany4', 'p_itany6')]
     + [c for l in _laws for c in per(l % 'p_sub4', Q4, Q4) + per(l % 'p_sub6', Q6, R6) + per(l % 'p_subany4', Q4, R4) + per(l % 'p_subany6', Q6, R6)])
_ex = dict(replace=DIV, split=True, opts=CAD)
prop('P15', [C('h_excl.cpp', r, (255,), **_ex) for r in ('p_excl4', 'p_excl4_any', 'p_excl4_err', 'p_excl4_any_err')] + [C('h_excl.cpp', 'p_excl_mixed', **_ex)]
     + [C('h_excl.cpp', r, (p,), tier='quick' if p in (0, 1, 64, 127) else 'thorough', **_ex) for r in ('p_excl6', 'p_excl6_any') for p in range(128)]
     + [C('h_excl.cpp', r, (p,), tier='quick' if p in (0, 64, 128) else 'thorough', **_ex) for r in ('p_excl6_err', 'p_excl6_any_err', 'p_excl6_scope', 'p_excl6_any_scope') for p in range(129)]
     + [C('h_excl.cpp', 'p_excl4_all', (p,), tier='quick' if p >= 27 else 'thorough', bounded='whole enumeration for IPv4 prefixes >= 20', **_ex) for p in range(20, 32)])

ABS = dict(solver='cadical', absmul=True)
DIVC = {r'^ipaddress::uint128_t::divide\(': 'divide_vfstub'}
_mt = ('int', 'uint', 'long', 'ulong', 'llong', 'ullong', 'short', 'ushort', 'schar', 'uchar', 'char')
prop('P17', [C('h_u128.cpp', r) for r in ('p_addsub', 'p_shift_s', 'p_shift_u', 'p_div_zero', 'p_div_word', 'p_div_small')] + [C('h_u128.cpp', 'p_mul', split=True, opts=ABS), C('h_u128.cpp', 'p_divmod', replace=DIVC, split=True, opts=ABS)]
     + [C('h_u128.cpp', 'p_mixed_' + t, replace=DIVC, split=True, opts=ABS) for t in _mt]
     + [C('h_u128.cpp', 'p_div_pow2', (k,), split=True, opts=CAD, tier='quick' if k in (0, 1, 32, 63, 64, 65, 96, 127) else 'thorough') for k in range(128)]
     + [C('h_u128.cpp', 'p_div_const', (k,), opts=CAD) for k in (3, 10)]
     + [C('h_u128.cpp', 'p_div_any', native=20, bounded='structured random operands, 8 processes x 20 s')])

V4P = {r'ip_address_base<ipaddress::ipv4_address_base> ipaddress::ip_address_base<ipaddress::ipv4_address_base>::parse<char, 17ul>\(char const \(&\) \[17ul\], ipaddress::error_code&\)': 'parse4_vfstub'}
NAC = ('-fno-access-control',)
_IFS = {r'ip_from_string<%s const\*>\(' % t: 'ifs_%s_vfstub' % k for t, k in (('char', 'c'), ('wchar_t', 'w'), ('char8_t', '8'), ('char16_t', '16'), ('char32_t', '32'))}
def entry(chars, ver): return [C('h_entry.cpp', 'p_%s_%s%s' % (f, k, t), defs=('-DVF_V4',) if ver == 4 else (), replace=_IFS) for k in chars for f, t in (('view', ''), ('arr', ''), ('arr', '_throw'))]
prop('P03', [C('h_v6parse.cpp', 'p_v6_ghost', (k,), defs=NAC, replace=V4P) for k in (6, 5, 4, 7, 3, 2, 8, 1, 9, 0)] + [C('h_v6parse.cpp', 'p_v6_early', defs=NAC, replace=V4P, split=True, opts=CAD), C('h_v6parse.cpp', 'p_v6_empty', defs=NAC)] + entry('c', 6)
     + [C('h_v6parse.cpp', 'p_v6_any', defs=NAC, native=15, bounded='structured random texts on the public parsers, 8 processes x 15 s')])
TXT6 = {r'base_v6<ipaddress::ipv6_address_base>::ip_to_chars\(': 'chars6_vfstub'}
_NSP = {r'parse_address_with_prefix<(std::basic_string_view|std::__cxx11::basic_string)<%s, .*error_code&, unsigned int&\)' % t: 'ns_%s_vfstub' % k for t, k in (('char', 'c'), ('wchar_t', 'w'), ('char8_t', '8'), ('char16_t', '16'), ('char32_t', '32'))}
_NSP[r'parse_address_with_prefix<ipaddress::fixed_string<6ul> ?>.*error_code&, unsigned int&\)'] = 'ns_a_vfstub'
def nentry(chars, ver): return [C('h_nentry.cpp', 'p_%s_%s%s' % (f, k, t), defs=NAC + (('-DVF_V4',) if ver == 4 else ()), replace=_NSP) for k in chars for f, t in (('nview', ''), ('narr', ''), ('narr', '_throw'))]
prop('P19', [C('h_enc.cpp', 'p_rd_' + k, defs=d) for k in ('c', 'w', '8', '16', '32') for d in ((), ('-DIPADDRESS_CHAR_IS_UTF8',)) if k == 'c' or not d] + [C('h_enc.cpp', 'p_v4_' + k) for k in ('w', '8', '16', '32')]
     + [C('h_v6parse.cpp', 'p_v6_bad', defs=NAC, replace=V4P)] + [c for v in (4, 6) for c in entry(('w', '8', '16', '32'), v) + nentry(('w', '8', '16', '32'), v)]
     + [C('h_enc.cpp', 'p_conv4', (k,)) for k in range(6)] + [C('h_enc.cpp', 'p_convnet4', (k,)) for k in range(6)] + [C('h_enc.cpp', r, (k,), replace=TXT6) for r in ('p_conv6', 'p_convnet6') for k in range(6)]
     + [C('h_v6parse.cpp', 'p_v6_wide', defs=NAC, native=15, bounded='structured random texts in four encodings, 8 processes x 15 s')])

_S = 'h_scope.cpp'
prop('P20', [C(_S, 'p_view_' + k) for k in ('c', 'w', '8', '16', '32')] + [C(_S, 'p_view_' + k, std='c++11') for k in ('c', 'w', '32')]
     + [C(_S, 'p_arr_c', (n,)) for n in range(1, 18)] + [C(_S, 'p_arr_wide', (k,)) for k in (0, 1, 2, 4)] + [C(_S, r) for r in ('p_arr_8', 'p_get')] + [C(_S, 'p_inert', split=True)])
_F = 'h_v6fmt.cpp'
prop('P04', [C(_F, 'p_fmt_full', defs=NAC), C(_F, 'p_fmt_compact', defs=NAC), C(_F, 'p_den_full', defs=NAC), C(_F, 'p_den_compact', defs=NAC)] + [C(_F, 'p_fmt_compressed', (k,), defs=NAC) for k in range(256)] + [C(_F, 'p_den_compressed', (k,), defs=NAC, tier='quick' if k % 16 == 0 else 'thorough') for k in range(256)]
     + [C(_F, 'p_fmt_scope', (m, k), defs=NAC, tier='quick' if m in (2, 5, 10, 39) else 'thorough') for k, ms in ((0, (39,)), (1, range(15, 40)), (2, range(2, 40))) for m in ms] + [C(_F, 'p_tostring', (k,), defs=NAC, replace=TXT6) for k in range(8)] + [C(_F, 'p_fmt_round', defs=NAC, native=10, bounded='structured random addresses and scope ids through to_string, operator<< and parse, 8 processes x 10 s')])
prop('P24', [C(_F, 'p_rev4', defs=NAC)] + [C(_F, 'p_rev6', (k,), defs=NAC) for k in range(2)])
_T = 'h_nettext.cpp'
PNM = {r'parse_netmask<GN>\(': 'nm_vfstub', r'ip_from_string<GN>\(': 'ifs_vfstub', r'ip_from_string<GM>\(': 'ifsm_vfstub'}
def _v(ver): return NAC + (('-DVF_V4',) if ver == 4 else ())
prop('P10', [C(_T, 'p_net_text', (k,), defs=_v(v), replace=PNM) for v in (4, 6) for k in (1, 2, 3, 4)] + [C(_T, 'p_mask', defs=_v(v), replace=PNM) for v in (4, 6)]
     + [c for v in (4, 6) for c in nentry('c', v)] + [C('h_nentry.cpp', 'p_nview_c', (n,), std='c++11', defs=_v(v), replace=_NSP) for v in (4, 6) for n in (0, 7, 20)]
     + [C(_T, 'p_net_any', defs=_v(v), native=10, bounded='structured random network texts on the public parsers, 8 processes x 10 s each version') for v in (4, 6)]
     + [C(_T, 'p_net_string', (k,), defs=_v(v), replace=TXT6) for v in (4, 6) for k in range(8)])
_A = 'h_any.cpp'
_K = (('char', 'c'), ('wchar_t', 'w'), ('char8_t', '8'), ('char16_t', '16'), ('char32_t', '32'))
_IF46 = {r'base_v%d<ipaddress::ipv%d_address_base>::ip_from_string<%s const\*>\(' % (v, v, t): 'ifs%d_%s_vfstub' % (v, k) for v in (4, 6) for t, k in _K}
_NS46 = {r'ip_network_base<ipaddress::ipv%d_network_base>::parse_address_with_prefix<std::basic_string_view<%s, .*error_code&, unsigned int&\)' % (v, t): 'ns%d_%s_vfstub' % (v, k) for v in (4, 6) for t, k in _K}
_NS46.update({r'ip_network_base<ipaddress::ipv%d_network_base>::parse_address_with_prefix<ipaddress::fixed_string<6ul> ?>.*error_code&, unsigned int&\)' % v: 'ns%d_a_vfstub' % v for v in (4, 6)})
prop('P21', [C(_A, r, (h,), defs=NAC) for r in ('p_any4', 'p_anynet4', 'p_anynet6') for h in range(4)] + [C(_A, 'p_any6', (h,), defs=NAC, split=True, opts=CAD) for h in range(4)] + [C(_A, 'p_any6_hash', (h, n), defs=NAC) for h in range(4) for n in range(17)] + [C(_A, 'p_any_make', (k, n), defs=NAC) for k in range(9) for n in (range(18) if k in (6, 7) else (0,))] + [C(_A, r, defs=NAC) for r in ('p_any_scope', 'p_anynet_from', 'p_anynet_mixed')]
     + [C(_A, 'p_%s_%s%s' % (f, a, k), defs=NAC, replace=_IF46 if f == 'parse' else _NS46) for f in ('parse', 'nparse') for a in ('', 'arr_') for t, k in _K])
_E = 'h_err.cpp'
_CAT = {r'ipaddress::error::concatenate<': 'cat_vfstub'}
# cases of another property; posts: only these postconditions count here
def reuse(pid, rx, slow=None, posts=None, drop=None):
    r = [copy.copy(c) for c in P[pid][0] if re.match(rx, c.root) and not c.bounded and not (drop and (c.tier != 'quick' or re.match(drop, c.name)))]
    for c in r:
        if slow and re.match(slow, c.name): c.tier = 'thorough'
        if posts: c.opts = dict(c.opts, posts=posts)
    return r
_err = 'error|code|throw|reject|default|partial|succe|accepted|non-ASCII|agree|invalid|host bits|no_error|legal'
def err(*a): return reuse(*a, posts=_err)
def safe(pid, rx, slow=None): return reuse(pid, rx, posts='$^', drop=slow or '$^')
prop('P22', [C(_E, 'p_raise_' + k, replace=_CAT, opts=dict(real_raise=True)) for k in ('c', 'w', '8', '16', '32')] + [C(_E, r) for r in ('p_any_failed', 'p_any_default')]
     + err('P01', 'p_v4_') + err('P03', 'p_(v6_|view|arr)', 'p_v6_ghost_[2-8]') + err('P19', 'p_(v4_|v6_bad|view|arr|nview|narr)') + err('P10', 'p_(net_text|mask|nview|narr)') + err('P09', 'p_from') + err('P12', 'p_') + err('P13', 'p_subargs') + err('P15', 'p_excl(4|6)_(any_)?err|p_excl_mixed', '.*_(0|128)$')
     + err('P20', 'p_(view|arr)_') + err('P21', 'p_(n?parse|anynet_from|anynet_mixed|any_scope)'))
_U = 'h_u128s.cpp'
_DM = dict(DIVC); _DM[r'^ipaddress::uint128_t::operator\*\(ipaddress::uint128_t const&\) const'] = 'mul_vfstub'
_STR = {r'uint128_t::str_to_uint128<%s>\(' % t: 'str_%s_vfstub' % k for t, k in _K}
_TOS = {r'^ipaddress::uint128_t::to_string\(|^ipaddress::uint128_t::to_string\[abi': 'tostr_vfstub'}
_ND = {8: 43, 10: 39, 16: 32}
prop('P18', [C(_U, 'p_to', (B, m), defs=NAC, replace=_DM, split=True, opts=dict(prune=True)) for B in (8, 10, 16) for m in range(1, _ND[B] + 1)]
     + [C(_U, 'p_from', (B,), defs=NAC, split=True, opts=dict(inv='@_ZL5g_val')) for B in (8, 10, 16)]
     + [C(_U, 'p_entry_' + k, (n,), defs=NAC, replace=_STR) for k in ('c', 'w', '8', '16', '32') for n in range(25)]
     + [C(_U, 'p_small_' + k, (B, n), defs=NAC) for k in ('c', 'w', '8', '16', '32') for B in (8, 10, 16) for n in range(0, 4)]
     + [C(_U, 'p_wide', (k, n), defs=NAC, replace=_TOS) for k in range(6) for n in range(1, 44)]
     + [C(_U, 'p_text_any', defs=NAC, native=10, bounded='structured random values and texts through to_string, from_string and the stream operators, 8 processes x 10 s')])
prop('P23', safe('P01', 'p_') + safe('P02', 'p_') + safe('P03', 'p_', 'p_v6_ghost_[2-8]') + safe('P04', 'p_(fmt|tostring)', r'p_fmt_compressed_|p_fmt_scope_') + safe('P05', 'p_') + safe('P06', 'p_') + safe('P09', 'p_') + safe('P10', 'p_') + safe('P11', 'p_') + safe('P12', 'p_')
     + safe('P13', 'p_', 'p_subnets6|p_subnets4_any') + safe('P14', 'p_') + safe('P15', 'p_', 'p_excl6') + safe('P16', 'p_', 'p_sub') + safe('P18', 'p_(from|entry|small)', 'p_(entry_._(1?\d|2[0-3])$|entry_.._(1?\d|2[0-3])$)') + safe('P17', 'p_', 'p_mul|p_divmod|p_mixed|p_div_pow2') + safe('P19', 'p_(rd|conv|v4|view|nview)') + safe('P20', 'p_') + safe('P21', 'p_') + safe('P22', 'p_(raise|any)') + safe('P24', 'p_')
     + [C('h_safe.cpp', 'p_safe_any', native=15, bounded='every entry point on structured random texts and arguments under address and undefined-behaviour sanitizers, 8 processes x 15 s')])
