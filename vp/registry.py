"""Which goals decide which property, and which operations the counterexample search runs."""
from goals import EDW, TW, DEC

E_ADD = [f'edw_op:{f}:{s}' for f, s in EDW.items()] + [f'edw_assign:e_{o}_assign_{k}:P{c}Q' for o, c in (('add', '+'), ('sub', '-')) for k in 'rv'] + ['edw_sum:e_sum_any', 'edw_sum:e_sum_any_ref']
MULS = ['e_smul'] + [f'e_{l}mul_{f}' for l in ('', 'l') for f in ('rr', 'vr', 'rv', 'vv')] + ['e_mul_assign_r', 'e_mul_assign_v']
E_MUL = [f'edw_mul:{f}' for f in MULS] + ['edw_smod4']
T_OPS = [f'edw_op:{f}:{s}' for f, s in TW.items()] + ['tw_eq'] + ['tw_cond:' + f for f in ('t_nneg', 't_nselect', 't_select', 't_default', 't_ndefault')]
D_OPS = [f'dec_op:{f}:{s}' for f, s in DEC.items()] + [f'dec_mul:d_{l}mul_{f}' for l in ('', 'l') for f in ('rr', 'vv')]
FE = [f'fe_op:{o}' for o in ('add', 'sub', 'mul', 'square', 'negate')]
SC = ['scalar_ring:s_add', 'scalar_ring:s_sub', 'scalar_ring:s_mul']
SENC = [f'scalar_enc:s_{x}' for x in ('from_bytes', 'to_bytes', 'to_bytes_rfc', 'bits')]
BEQ = lambda *fs: [f'bytes_eq:{f}:56' for f in fs]

def ops(*p): return list(p)
E_ADD_OPS = [f for f in EDW if not f.startswith('e_sum')] + ['e_sum_ref', 'e_sum_val', 'e_add_assign_r', 'e_add_assign_v', 'e_sub_assign_r', 'e_sub_assign_v']
F_OPS = ['f_add', 'f_sub', 'f_mul', 'f_square', 'f_negate']
S_RING = ['s_add', 's_sub', 's_mul']

PROPS = {
 'C01': dict(goals=SC + ['scalar_const'], ops=S_RING + ['s_zero', 's_one', 's_default', 's_from_u32']),
 'C02': dict(goals=['scalar_unary:s_invert', 'scalar_unary:s_halve', 'scalar_halve_any'], ops=['s_invert', 's_halve']),
 'C03': dict(goals=SENC + ['scalar_canonical', 'scalar_eq', 'scalar_index'], ops=['s_from_bytes', 's_to_bytes', 's_to_bytes_rfc', 's_from_canonical', 's_bits', 's_eq', 's_ne', 's_ct_eq']),
 'C04': dict(goals=['scalar_wide', 'scalar_random'], ops=['s_wide', 's_random']),
 'C05': dict(goals=FE + ['fe_select', 'edw_op:e_add:P+Q', 'edw_op:e_double:2P', 'edw_op:e_neg_r:-P'], ops=F_OPS + ['f_select', 'f_cneg', 'f_chain', 'e_add', 'e_double', 'e_negate']),
 'C06': dict(goals=['fe_bytes', 'fe_eq', 'edw_compress', 'edw_eq', 'mont_proj_rt'], ops=['f_to_bytes', 'f_from_bytes', 'f_eq', 'f_is_zero', 'f_is_negative', 'f_chain_bytes', 'e_compress', 'e_eq', 'm_proj_rt']),
 'C07': dict(goals=['fe_invert', 'fe_isr', 'edw_decompress', 'edw_op:e_affine_rt:P'], ops=['f_invert', 'f_isr', 'f_sqrt_ratio', 'e_affine_rt', 'e_decompress']),
 'C08': dict(goals=E_ADD, ops=E_ADD_OPS),
 'C09': dict(goals=['edw_eq', 'edw_consts', 'edw_torque', 'edw_torsion_free', 'edw_select:e_select', 'edw_select:e_cassign', 'edw_select:e_cswap', 'edw_op:e_affine_rt:P'],
             ops=['e_eq', 'e_ne', 'e_ct_eq', 'e_identity', 'e_default', 'e_generator', 'e_torque', 'e_is_torsion_free', 'e_select', 'e_cassign', 'e_cswap', 'e_affine_rt']),
 'C10': dict(goals=E_MUL, ops=MULS + ['e_smod4']),
 'C11': dict(goals=T_OPS, ops=list(TW) + ['t_eq', 't_xeq', 't_torque_eq', 't_neq', 't_nneg', 't_nselect', 't_select']),
 'C12': dict(goals=['edw_compress', 'edw_decompress', 'edw_roundtrip'], ops=['e_compress', 'e_decompress']),
 'C13': dict(goals=['mont_mul:m_mul', 'mont_mul:m_lmul', 'mont_proj_rt'], ops=['m_mul', 'm_lmul', 'm_proj_rt']),
 'C14': dict(goals=['edw_to_mont', 'mont_low', 'mont_misc'] + BEQ('m_eq', 'm_ct_eq'), ops=['e_to_montgomery', 'm_is_low_order', 'm_generator', 'm_as_bytes', 'm_eq', 'm_ct_eq', 'm_zeroize']),
 'C15': dict(goals=['dec_decode'], ops=['d_decompress']),
 'C16': dict(goals=['dec_encode', 'dec_point_rt', 'dec_misc'] + BEQ('d_ceq', 'd_ct_ceq', 'r_ceq'), ops=['d_compress', 'd_decompress', 'd_cidentity', 'd_ceq', 'd_ct_ceq']),
 'C17': dict(goals=D_OPS + ['dec_equals', 'dec_consts'], ops=list(DEC) + ['d_mul_rr', 'd_mul_vv', 'd_lmul_rr', 'd_lmul_vv', 'd_equals', 'd_identity', 'd_generator']),
}

_F = ['lemma_primes', 'lemma_characters']
_E1 = _F + ['lemma_complete_e1', 'lemma_group', 'lemma_assoc:E1', 'lemma_order']
_E2 = _F + ['lemma_complete_e2', 'lemma_group', 'lemma_assoc:E2']
_ISO = _E1 + [g for g in _E2 if g not in _E1] + ['lemma_isogeny', 'lemma_hom:phi', 'lemma_hom:psi']
_DEC = _E2 + ['lemma_decaf']
LEM = {'C01': ['lemma_primes'], 'C02': ['lemma_primes'], 'C05': _F, 'C06': _F, 'C07': _F, 'C08': _E1, 'C09': _E1, 'C10': _ISO, 'C11': _ISO, 'C12': _F + ['lemma_complete_e1'],
       'C13': _F, 'C14': _E1, 'C15': _DEC, 'C16': _DEC, 'C17': _DEC, 'C19': _F}

def panic_kind(f):
    """obligations about panics, overflow and unreachable code, and goals that could not be generated"""
    return any(k in f[1] for k in ('no-panic', 'assert:', 'unreachable', 'obligations', 'compiles'))
_all = []
for _p, _d in PROPS.items():
    for _g in _d['goals']:
        if _g not in _all: _all.append(_g)
_allops = []
for _p, _d in PROPS.items():
    for _o in _d['ops']:
        if _o not in _allops: _allops.append(_o)
PROPS['C18'] = dict(goals=_all, ops=_allops, filter=panic_kind, only='PANIC')
PROPS['C19'] = dict(goals=FE + ['fe_bytes', 'fe_eq', 'fe_select', 'fe_invert', 'fe_isr', 'edw_op:e_add:P+Q', 'edw_op:e_double:2P', 'edw_op:e_sub_rr:P-Q', 'edw_eq', 'edw_consts', 'edw_mul:e_smul', 'edw_compress', 'edw_decompress', 'edw_to_mont',
                                 'mont_mul:m_mul', 'mont_low', 'dec_decode', 'dec_encode', 'dec_equals', 'dec_consts', 'dec_op:d_add_rr:P+Q', 'dec_mul:d_mul_rr', 'scalar_ring:s_mul', 'scalar_wide'],
                    ops=F_OPS + ['f_to_bytes', 'f_from_bytes', 'f_eq', 'f_is_zero', 'f_is_negative', 'f_invert', 'f_isr', 'f_sqrt_ratio', 'f_select', 'f_chain', 'e_compress', 'e_decompress', 'e_smul', 'e_eq', 'd_compress', 'd_decompress', 'd_equals', 'm_mul', 'e_to_montgomery', 'm_is_low_order'])

for _p, _l in LEM.items(): PROPS[_p]['goals'] = PROPS[_p]['goals'] + _l
for _p in PROPS:
    if _p not in ('C01', 'C02', 'C04'): PROPS[_p]['goals'] = PROPS[_p]['goals'] + ['dep_subtle']
