"""Which profiles explore a property, which operations it speaks about, and which disagreements
between specification and implementation violate it."""
import re

EXEC = {'process'}
USERREQ = {'order', 'tpsl', 'remove_req', 'cancel'}
ACCOUNT = {'create_account', 'add_coll', 'order', 'tpsl', 'remove_req', 'cancel', 'set_auth', 'add_rule', 'recovery'}
LP = {'add_liq', 'remove_liq'}
KEEPER = {'process', 'liquidate', 'adl', 'update_pairs'}
CFG = {'ex_cfg', 'pair_cfg', 'coll_cfg', 'coll_rm'}
REF = {'mint_ref', 'mint_ref_alloc', 'update_ref', 'add_alloc', 'create_codes', 'codes_from_alloc', 'collect_ref'}
PAY = {'collect_treasury', 'collect_fee_delegator', 'collect_ref', 'swap_protocol'}
WRAP = {'wrap', 'unwrap', 'flash', 'tw_input', 'tw_wrappable', 'withdraw_authority', 'deposit_authority'}
OATHY = {'fd_cfg', 'fd_escape', 'fd_deposit', 'fd_withdraw'}
ALL = None

# property -> (profiles with weights, operations or ALL, kinds or ALL, path pattern or None, extra)
T = {
 'P01': ([('mixed', 2), ('payouts', 2), ('fees', 2), ('liquid', 1), ('debt', 1), ('delegator', 1), ('referral', 1), ('custody', 1), ('adl', 1)], ALL, {'state'}, r'^pool\.(tokens|vb)$|^accts\.\d+\.vb$|^prot$|^treas$|^fd\.vb$|balance$|\.BASE$'),
 'P02': ([('trade', 3), ('mixed', 2), ('adl', 1), ('liquid', 1), ('keepers', 2), ('funding', 1)], ALL, {'state'}, r'^pool\.(skew|pnl)$|^pair\..*\.(oiL|oiS|cost|skew|pnl|price)$|\.pos'),
 'P03': ([('margin', 5), ('delegator', 1), ('custody', 1), ('oracle', 1)], {'process'} | USERREQ | ACCOUNT, {'accept'}, None),
 'P04': ([('liquid', 5), ('debt', 1), ('keepers', 1), ('mixed', 1)], {'liquidate', 'process', 'cancel'}, ALL, None),
 'P05': ([('adl', 5), ('mixed', 1)], {'adl'}, ALL, None),
 'P06': ([('caps', 5), ('lp', 1)], {'process', 'remove_liq'}, {'accept'}, None),
 'P07': ([('trade', 5), ('requests', 2), ('links', 1)], {'process', 'order', 'tpsl'}, ALL, None),
 'P08': ([('fees', 5), ('trade', 1), ('referral', 1)], {'process', 'liquidate', 'adl', 'update_ref'} | LP, {'state', 'accept'}, r'^prot$|^treas$|^refs\..*(balance|total)$|\.vb$|\.cost$|^pool|accept|^wallet\.(BASE|LP)'),
 'P09': ([('funding', 5), ('keepers', 1), ('mixed', 1)], {'process', 'liquidate', 'adl', 'update_pairs', 'add_coll', 'swap_debt'}, {'state', 'view', 'accept'}, r'^pair\..*\.(f2|fl|fs|last|price)$|^pool\.(unreal|vb)$|fidx$|view\.|\.vb$|accept'),
 'P10': ([('requests', 5), ('links', 1), ('liquid', 2), ('mixed', 1)], {'process', 'order', 'tpsl', 'remove_req', 'cancel', 'liquidate'}, ALL, r'reqs|active|rlen|vrs|accept|out|unreadable|\.body$|\.pos|\.vb$|coll|target'),
 'P11': ([('levels', 5), ('gates', 1)], ACCOUNT | {'gate'}, {'accept', 'access', 'state'}, r'accept|gate|roles'),
 'P12': ([('gates', 5), ('levels', 1)], ALL, {'access', 'accept', 'crash'}, None),
 'P13': ([('levels', 5)], ALL, {'state', 'accept'}, r'^perms|accept'),
 'P14': ([('lp', 5), ('fees', 1), ('caps', 1)], LP | {'update_pairs', 'process'}, ALL, r'accept|^supply\.LP|^wallet\.(LP|BASE)|^pool\.(tokens|vb)|^view\.|out|^prot$|^treas$'),
 'P15': ([('oracle', 5), ('margin', 1)], ALL, {'accept', 'state', 'access', 'result'}, r'accept|oracle\.|out|gate'),
 'P16': ([('custody', 5), ('config', 1), ('mixed', 1), ('liquid', 1), ('debt', 1)], {'add_coll', 'create_account', 'remove_req', 'process', 'liquidate', 'swap_debt'}, ALL, r'coll|\.vb$|^pool\.(tokens|vb)$|^wallet|^target|^reject|accept|unreadable|out'),
 'P17': ([('debt', 6)], {'swap_debt'}, ALL, None),
 'P18': ([('referral', 6)], REF | {'create_account'}, ALL, None),
 'P19': ([('config', 6)], ALL, ALL, r'cfg|plist|accept|out'),
 'P20': ([('wrapper', 6)], WRAP, ALL, None),
 'P21': ([('delegator', 6), ('margin', 1)], OATHY | USERREQ | ACCOUNT | {'collect_fee_delegator'}, {'accept', 'state', 'result'}, r'^fd|\.vb$|^supply\.OATH|accept|^wallet\.OATH'),
 'P22': ([('payouts', 5), ('fees', 2)], PAY, ALL, None),
 'P23': ([('links', 6)], {'process', 'order', 'tpsl', 'cancel'}, ALL, r'reqs|active|rlen|accept|out|unreadable'),
 'P25': ([('mixed', 2), ('requests', 1), ('liquid', 1), ('custody', 2), ('referral', 1), ('wrapper', 1)], ALL, {'view', 'state'}, r'^det\.|^own\.|view|unreadable'),
 'P26': ([('mixed', 2), ('trade', 1), ('links', 1), ('liquid', 1), ('adl', 1), ('lp', 1), ('custody', 1), ('debt', 1), ('config', 2), ('fees', 1)], ALL, {'event', 'state'}, r'^event\.|\.eff$'),
 'P27': ([('side', 4)], ALL, {'state', 'view', 'accept'}, r'^own\.env|accept'),
 'P28': ([('side', 4)], {'faucet_amount', 'faucet_mint', 'faucet_user', 'faucet_free'}, ALL, None),
 'P24': ([('keepers', 4), ('mixed', 1), ('fees', 1), ('adl', 1), ('liquid', 1), ('requests', 1)], ALL, {'state', 'result', 'accept'}, r'KEEP|^out$|accept|^pair\..*\.(last|price)$'),
}
# accept/result disagreements of these properties count only for these operations
NARROW = {
 'P27': {'accept': {'env_set', 'env_rm'}},
 'P12': {'accept': {'gate', 'set_role', 'withdraw_authority', 'deposit_authority'} | CFG | REF | PAY | ACCOUNT},
 'P13': {'accept': {'set_auth', 'add_rule', 'recovery', 'create_account'}},
 'P15': {'accept': {'push', 'get_prices', 'or_add_key', 'or_rm_key', 'or_rm_price', 'process', 'liquidate', 'adl', 'update_pairs', 'add_liq', 'remove_liq', 'swap_debt', 'add_coll', 'order', 'tpsl', 'remove_req', 'cancel', 'create_account'}, 'result': {'push', 'get_prices'}},
 'P24': {'accept': KEEPER, 'result': {'update_pairs'}, 'state': ALL},
}
PROFILES = {p: t[0] for p, t in T.items()}


NARROW['P14'] = {'accept': LP, 'state': LP, 'result': LP, 'view': ALL}

def covers(pid, profile, j):
    _, ops, kinds, pat = T[pid]
    if j['kind'] == 'crash': return True
    if kinds is not ALL and j['kind'] not in kinds: return False
    mine = ops
    if pid in NARROW and j['kind'] in NARROW[pid]: mine = NARROW[pid][j['kind']]
    # a state is compared after a list of operations: any of them may have caused the difference
    did = {j['op']} if j['kind'] in ('accept', 'result', 'access') else set(j['ops'])
    if mine is not ALL and not (did & mine): return False
    return pat is None or any(re.search(pat, x) for x in j['paths'])


def relevant(pid, op):
    ops = T[pid][1]
    return ops is ALL or op in ops
