"""Which harness entries decide which property."""
ASSUME = [
    'hash compression functions (SHA256, SHA512, RIPEMD160) are uninterpreted: outputs for different inputs are distinct values in general position, and SHA256/SHA512-half outputs are valid non-zero scalars below the curve order',
    'secp256k1 group operations are exact linear algebra over discrete logs; secret scalars drawn by the harness are in general position (no unforced coincidence between polynomials in them)',
    'libsecp256k1 (C), bitcoin_hashes compression and the allocator are modelled by contract, everything else is the real compiled code (LLVM IR of the release build, overflow checks on)',
]
def e(crate, name, covers=(), **k):
    return dict(crate=crate, name=name, covers=list(covers), **k)
SP, IX, OR = 'h_sp', 'h_ix', 'h_or'
PROPS = {
 'C01': dict(entries=[e(SP, 'c01_roundtrip', [1])]),
 'C02': dict(entries=[e(SP, 'c02_full', [1, 2]), e(SP, 'c02_lengths', [2]), e(SP, 'c02_prefix', [1, 2]), e(SP, 'c02_checksum', [1, 2]), e(SP, 'c02_short', [1]), e(SP, 'c02_long', [1, 2]), e(SP, 'c02_extra', [1, 2])]),
 'C03': dict(entries=[e(SP, 'c03_label', [1]), e(IX, 'c03_v1', [1]), e(IX, 'c03_v2', [1])]),
 'C04': dict(entries=[e(SP, 'c04_tr', [1, 2]), e(SP, 'c04_nums', [1, 2]), e(SP, 'c04_wpkh', [1, 2]), e(SP, 'c04_sh', [1, 2]), e(SP, 'c04_pkh_any', [1, 2]), e(SP, 'c04_pkh_key', [1, 2]), e(SP, 'c04_other', [1, 2]), e(SP, 'c04_uncompressed', [1]), e(SP, 'c04_pkh_long', [2])]),
 'C05': dict(entries=[e(SP, 'c05_two', [1]), e(SP, 'c05_four', [1]), e(SP, 'c05_same_txid', [1])]),
 'C06': dict(entries=[e(SP, 'c06_two', [1, 2]), e(SP, 'c06_three', [1, 2], shards=4), e(SP, 'c06_three_all', [1, 2], thorough_only=True)]),
 'C07': dict(entries=[e(SP, 'c07_partial', [1, 2]), e(SP, 'c07_partial3', [1, 2]), e(SP, 'c07_recipients', [1]), e(SP, 'c07_any_points', [1]), e(SP, 'c07_recipients_long', [1]), e(SP, 'c07_recipients4', [1])]),
 'C08': dict(entries=[e(SP, 'c08_inputs', [1]), e(SP, 'c08_payments', [1], shards=4), e(SP, 'c08_free_output', [1], shards=4), e(SP, 'c08_three', [1]), e(SP, 'c08_many', [1], shards=3), e(SP, 'c08_vout', [1]), e(SP, 'c08_three_all', [1], thorough_only=True)]),
 'C09': dict(entries=[e(SP, 'c09_two', [1, 2]), e(SP, 'c09_three', [1, 2]), e(SP, 'c09_any_secret', [1, 2]), e(SP, 'c09_four', [1, 2], thorough_only=True)]),
 'C10': dict(entries=[e(SP, 'c10_scripts', [1]), e(SP, 'c10_match', [1, 2]), e(IX, 'c10_v2', [1])]),
 'C11': dict(entries=[e(SP, 'c11_one', [1, 2]), e(SP, 'c11_two', [1, 2], shards=8), e(SP, 'c11_prevtx', [1]), e(SP, 'c11_junk', [1]), e(SP, 'c11_order', [1]), e(SP, 'c11_outputs', [1], shards=2), e(SP, 'c11_outputs3', [1], shards=3), e(SP, 'c11_three', [1], thorough_only=True, shards=8), e(SP, 'c11_outputs4', [1], thorough_only=True, shards=8)]),
 'C12': dict(entries=[e(SP, 'c12_keys', [1, 2, 3], shards=3), e(SP, 'c12_data', [1]), e(SP, 'c12_three', [1]), e(SP, 'c12_negated', [1]), e(SP, 'c12_counts', [1, 2], shards=6)]),
 'C13': dict(entries=[e(SP, 'c13_one', [1, 2]), e(SP, 'c13_two', [1, 2]), e(SP, 'c13_junk', [1, 2]), e(SP, 'c13_any_data', [2]), e(SP, 'c13_more', [1, 2]), e(SP, 'c13_three', [1, 2], thorough_only=True)]),
 'C14': dict(entries=[e(SP, 'c14_generate', [1]), e(SP, 'c14_related', [1])]),
 'C15': dict(entries=[e(SP, 'c15_exact', [1, 2]), e(SP, 'c15_binding', range(12)), e(SP, 'c15_degenerate', [1]), e(SP, 'c15_provers', range(16))]), 
 'C16': dict(entries=[e(SP, 'c16_xpriv', [1]), e(SP, 'c16_xpriv_types', [1]), e(SP, 'c16_xpriv_root', [1]), e(SP, 'c16_xpriv_order', [1, 2]), e(SP, 'c16_xpriv_recipients', [1]), e(SP, 'c16_sp', [1]), e(SP, 'c16_sp_order', [1, 2]), e(SP, 'c16_sp_recipients', [1]), e(SP, 'c16_sp_cancel', [1]), e(SP, 'c16_xpriv_three', [1], thorough_only=True, shards=8)]),
 'C17': dict(entries=[e(IX, 'c17_one', [1]), e(IX, 'c17_two', [1, 2], shards=4), e(IX, 'c17_conflict', [1])]),
 'C18': dict(entries=[e(IX, 'c18_one', [1]), e(IX, 'c18_history', [1], shards=8), e(IX, 'c18_late', [1, 2]), e(IX, 'c18_late3', [1, 2], shards=8)]),
 'C19': dict(entries=[e(IX, 'c19_history', [1, 2]), e(IX, 'c19_history3', [1], shards=8), e(IX, 'c19_foreign', [1]), e(IX, 'c19_address', [1])]),
 'C20': dict(entries=[e(IX, 'c20_known', [1, 2]), e(IX, 'c20_block', [1, 2, 3]), e(IX, 'c20_block3', [1, 2, 3]), e(IX, 'c20_mempool', [1, 2]), e(IX, 'c20_mempool3', [1, 2], shards=3), e(IX, 'c20_anchored', [1, 2], shards=3), e(IX, 'c20_position', [1]), e(IX, 'c20_repeat', [1], shards=8), e(IX, 'c20_repeat3', [1], thorough_only=True, shards=8), e(IX, 'c20_block3_all', [1, 2, 3], thorough_only=True, shards=8)]),
 'C21': dict(entries=[e(IX, 'c21_v1', [1]), e(IX, 'c21_v2', [1])]),
 'C22': dict(entries=[e(IX, 'c22_bin_spout', [1]), e(IX, 'c22_bin_label', [1, 2]), e(IX, 'c22_bin_v1', [1]), e(IX, 'c22_bin_v2', [1]), e(IX, 'c22_json_spout', [1], shards=3), e(IX, 'c22_json_meta', [1]), e(IX, 'c22_json_label', [1, 2]), e(IX, 'c22_json_v1', [1]), e(IX, 'c22_json_v2', [1]), e(IX, 'c22_bad_scalar', [1, 2]), e(IX, 'c22_bad_scalar_text', [1, 2])]),
 'C23': dict(entries=[e(OR, 'c23_events', [1, 2, 3]), e(OR, 'c23_order', [1, 2, 3]), e(OR, 'c23_flush', [1, 2]), e(OR, 'c23_closed', [1])], crates=['oracles']),
 'C25': dict(entries=[e(SP, 'c25_tweak', [1, 2]), e(SP, 'c25_send', [1, 2]), e(SP, 'c25_psbt', [1, 2, 3, 4], shards=4), e(IX, 'c25_index', [1, 3, 4])]),
 'C26': dict(entries=[e(OR, 'c26_blocks', [1, 2, 3], shards=2), e(OR, 'c26_order', [1, 2, 3], shards=3), e(OR, 'c26_many', [1, 2, 3]), e(OR, 'c26_failed')], crates=['oracles']),
}

# what the symbolic inputs range over, and what lies outside
BOUNDS = {
 'C01': ('all scan and spend keys (both parities), the five networks', 'codes of other versions (C02 parses them)'),
 'C02': ('texts of 0-600 data symbols (0-3, 10, 54, 104-109, 120, 150-162, 260, 600) with every symbol symbolic, versions 0-31, known, unknown and mixed-case prefixes, extra characters, one changed symbol anywhere including the checksum', 'other lengths; several changed symbols at once'),
 'C03': ('all scan and spend keys, all u32 label numbers, two labels at once, all networks', 'more than two labels registered at once (C18 has three)'),
 'C04': ('18 shapes of taproot witnesses with symbolic control blocks and annexes, 8 of P2WPKH and 6 of P2SH with symbolic items and redeem scripts, P2PKH script_sigs of 0-35 free bytes, 7 layouts around the key and up to 600 bytes before or after it, uncompressed and hybrid keys, 13 lengths of any other script', 'larger witnesses and scripts'),
 'C05': ('sequences of up to 4 outpoints, all txids and indices', 'longer sequences (the selection keeps only the minimum)'),
 'C06': ('up to 3 inputs of the 12 input kinds, all keys including cancelling ones, all outpoints', 'more than 3 inputs'),
 'C07': ('up to 3 inputs of all script kinds and parities including cancelling keys; up to 4 recipients in every pattern, lists of up to 9 in two patterns; any recipient points', 'longer recipient lists'),
 'C08': ('up to 2 inputs of all eligible kinds (3 of fixed kinds), up to 3 payments in every order and pattern, longer sequences in fixed patterns, one output with any 32 bytes, payments among up to 301 outputs', 'longer transactions; adversarial outputs next to more than 2 payments'),
 'C09': ('up to 3 outputs of every kind mix (4 in the thorough tier), up to 2 labels including 0, any shared secret point', 'more labels or outputs'),
 'C10': ('all tweak points, all u32 orders, up to 2 labels', 'more labels'),
 'C11': ('up to 2 inputs of the 13 input kinds (3 of fixed kinds), the three ways the provider knows keys, up to 3 outputs and recipients, previous transactions or outputs, junk fields', 'more inputs and outputs'),
 'C12': ('up to 3 inputs, each kind of missing data and of wrong answer, up to 3 payments and placeholders of 2 recipients', 'more inputs'),
 'C13': ('up to 2 inputs in each of 15 states (3 in the thorough tier), any proprietary bytes, keys and tweaks', 'more inputs'),
 'C14': ('all scalars, base points G*x, points B (related to each other or not), auxiliary bytes, messages', 'nothing known'),
 'C15': ('all 64 proof bytes, all points (related or not), messages; the 16 single and combined changes of a statement', 'nothing known'),
 'C16': ('up to 2 inputs (3 for the spending sender, 3 xpriv in the thorough tier), paths of 0 to 2 steps, hardened or not, four script kinds, any outpoints, up to 3 recipients', 'longer paths and lists'),
 'C17': ('up to 2 inputs and 2 outputs of every kind, two transactions in either order, spending or replacing one another, labels 0 and 1', 'more transactions; the RPC prevout source'),
 'C18': ('one transaction of up to 3 outputs of every mix; 4 operations out of two transactions and two labels; up to 3 labels around a transaction of up to 3 outputs', 'longer histories'),
 'C19': ('histories of up to 3 operations out of 7, all restore points at operation boundaries, foreign and partial change sets', 'longer histories; first-seen times (not restored by the graph library)'),
 'C20': ('blocks of up to 3 and batches of up to 3 transactions of 9 kinds in both orders, two (thorough: three) operations over the same transactions, up to 2 anchors each, all heights, times', 'larger blocks'),
 'C21': ('three change sets with up to 2 entries per component in every presence pattern of one component, all values', 'several components varied at once beyond all/none'),
 'C22': ('all fields of outputs, metadata, labels (bincode: every byte symbolic; JSON: a sliding window of symbolic bytes and u32 numbers), change sets of one entry per component', 'other formats; several entries'),
 'C23': ('sequences of up to 5 events with any heights (4) or small ones (5) and any birthday, buffer empty or at its limit; real tokio channel, buffer and filter types, an in-memory stand-in for redb', 'real network and disk; power loss inside redb'),
 'C25': ('two inputs, one with any first script byte and program lengths 1-41, keys', 'more inputs'),
 'C26': ('one announced block (any of 4 tweak lists, 7 filter contents, 0-2 unspent scripts, 0-1 label) or two in any order of the answers and of the batches, longer batches in 4 patterns, failing requests', 'real HTTP (reqwest is replaced by a recording stand-in), filter coding (block filters by contract)'),
}
NA = {}
NA['C24'] = 'the wallet crate and cli/v2 do not build here (bdk_tx is not available offline) and the flows are file, terminal and RPC side effects; there is no compiled code to encode'
