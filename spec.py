"""Properties -> harness entries, bounds, reach markers that must be hit."""
ASSUME = [
 'askar-crypto (not available offline) is replaced by an ideal stand-in with the same interface: AEAD, key wrap and signatures open or verify only for exactly the values they were produced with, key derivations are free terms over exactly the inputs given, keys are tied to their secrets by an invertible model function',
 'sha2 is executed as compiled (portable code path); where a digest of symbolic bytes is compared, the solver decides over the circuit it becomes, and the harnesses keep digested texts to a few symbolic characters',
 'DID and secrets resolvers are the documents, wallets and faults that the harness gives; their futures complete at once',
 'std, serde_json, base64, bs58, percent decoding and the formatting code are executed as compiled (release profile, overflow checks on, panic = abort)',
 'memory allocation does not fail; addresses of separate allocations are unrelated constants',
]
OUTSIDE = 'inputs longer, documents larger or nestings deeper than the entry bounds; symbolic HashMap keys; floating-point texts with a symbolic exponent; strength of the cryptographic primitives; behaviour of resolvers that suspend'
JSA = ['wasm-bindgen, js-sys and wasm-bindgen-futures are host stand-ins (/verif/standins): JavaScript values are JSON values, errors, arrays, class instances and host objects; promises of the host are settled at once; /repo/wasm/src itself is compiled unchanged']
FFA = ['the code uniffi generates is absent (its custom-type trait is declared by a stand-in); /repo/uniffi/src itself is compiled unchanged; the thread pool is replaced by one whose tasks run one turn at a time, only when woken and in the order the harness chooses (no data races inside one turn); the oneshot channel is the real futures-channel code']
PROPS = {
 'C01': {'entries': [
   {'name': 'h_c01_configs', 'reach': [1, 2, 3, 10, 11, 12, 13, 20], 'bounds': 'all envelope configurations'},
   {'name': 'h_c01_content', 'reach': [1, 2, 10, 11, 20]},
   {'name': 'h_c01_sizes', 'reach': [1, 2, 10, 20]},
 ]},
 'C02': {'entries': [
   {'name': 'h_c02_headers', 'reach': [1]}, {'name': 'h_c02_content', 'reach': [1, 10, 11, 12, 13, 14]}, {'name': 'h_c02_edges', 'reach': [1, 2]}, {'name': 'h_c02_signed', 'reach': [2, 20, 22, 23]}, {'name': 'h_c02_signed_text', 'reach': [2]}]},
 'C20': {'entries': [
   {'name': 'h_c20_wire', 'reach': [1]}, {'name': 'h_c20_values', 'reach': [1, 2, 3, 4]}, {'name': 'h_c20_edges', 'reach': [1]}, {'name': 'h_c20_builder', 'reach': [1]}, {'name': 'h_c20_read', 'reach': [1, 2]}, {'name': 'h_c20_read_typ', 'reach': [1, 2, 3]}, {'name': 'h_c20_read_unknown', 'reach': [1]}]},
 'C21': {'entries': [
   {'name': 'h_c21_fields', 'reach': [1, 2, 3]}, {'name': 'h_c21_values', 'reach': [1, 2, 3]}, {'name': 'h_c21_builder', 'reach': [1, 2, 3]}, {'name': 'h_c21_json_content', 'reach': [1]}, {'name': 'h_c21_read', 'reach': [1, 2, 3, 10]}, {'name': 'h_c21_names', 'reach': [1, 2, 3]}]},
 'C09': {'entries': [
   {'name': 'h_c09_syntax', 'reach': [1, 2, 10, 11, 12, 13]}, {'name': 'h_c09_headers', 'reach': [1, 2, 10, 11]}, {'name': 'h_c09_accepted', 'reach': [1]}]},
 'C10': {'entries': [
   {'name': 'h_c10_anon', 'reach': [1, 2, 3, 5]}, {'name': 'h_c10_auth', 'reach': [1, 2, 3, 4, 5]}, {'name': 'h_c10_near_anon', 'reach': [1, 2, 3]}, {'name': 'h_c10_near_auth', 'reach': [1, 2, 3]}]},
 'C03': {'entries': [{'name': 'h_c03_fields', 'reach': [1, 2, 10, 11, 12, 13]}, {'name': 'h_c03_text', 'reach': [1, 2, 20, 21, 22, 23, 24]}, {'name': 'h_c03_mixed', 'reach': [1, 2]}, {'name': 'h_c03_nested', 'reach': [1, 2]}]},
 'C04': {'entries': [{'name': 'h_c04_tamper', 'reach': [1, 2, 10, 11, 12, 13, 14]}, {'name': 'h_c04_signer', 'reach': [1, 2]}, {'name': 'h_c04_names', 'reach': [1, 2]}, {'name': 'h_c04_near', 'reach': [1, 2]}, {'name': 'h_c04_payload', 'reach': [1, 2]}]},
 'C05': {'entries': [{'name': 'h_c05_keys', 'reach': [1, 2]}, {'name': 'h_c05_stated', 'reach': [1, 2, 3]}, {'name': 'h_c05_claimed', 'reach': [1, 2]}, {'name': 'h_c05_pairs', 'reach': [1, 2]}, {'name': 'h_c05_near', 'reach': [1, 2]}]},
 'C06': {'entries': [{'name': 'h_c06_apv', 'reach': [1, 2]}, {'name': 'h_c06_edit', 'reach': [1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 17]}, {'name': 'h_c06_one_did', 'reach': [1, 2, 3]}, {'name': 'h_c06_sorting', 'reach': [1]}]},
 'C07': {'entries': [{'name': 'h_c07_nesting', 'reach': [1, 2, 3, 4, 10]}, {'name': 'h_c07_broken', 'reach': [1]}, {'name': 'h_c07_polyglot', 'reach': [1, 2, 3]}, {'name': 'h_c07_rewrapped', 'reach': [1, 2, 3]}, {'name': 'h_c07_exact', 'reach': [1]}]},
 'C08': {'entries': [{'name': 'h_c08_short', 'reach': [1]}, {'name': 'h_c08_tokens', 'reach': [1]}, {'name': 'h_c08_cut', 'reach': [1, 10, 11, 12, 13]}, {'name': 'h_c08_inner', 'reach': [1, 10, 11, 12]}, {'name': 'h_c08_window', 'reach': [1, 2, 10, 11, 12, 13]}, {'name': 'h_c08_shapes', 'reach': [1, 2]}, {'name': 'h_c08_token', 'reach': [1, 2, 10, 11, 12, 13, 14]}, {'name': 'h_c08_depth', 'reach': [1, 2]}, {'name': 'h_c08_names', 'reach': [1, 2] + list(range(10, 19))}]},
 'C11': {'entries': [{'name': 'h_c11_sender', 'reach': [1, 2, 3, 4, 5, 6]}, {'name': 'h_c11_sender_id', 'reach': [1, 2]}, {'name': 'h_c11_signer', 'reach': [1, 2, 3, 4]}, {'name': 'h_c11_signer_enc', 'reach': [1, 2, 3, 4]}, {'name': 'h_c11_near_sender', 'reach': [1, 2, 3]}, {'name': 'h_c11_near_signer', 'reach': [1, 2, 3]}]},
 'C12': {'entries': [{'name': 'h_c12_content', 'reach': [1, 2]}, {'name': 'h_c12_sender', 'reach': [1, 3, 4]}, {'name': 'h_c12_recipient', 'reach': [1]}, {'name': 'h_c12_keys', 'reach': [1]}, {'name': 'h_c12_name', 'reach': [1]}]},
 'C13': {'entries': [{'name': 'h_c13_onion', 'reach': [1, 3, 4, 5, 11, 12]}, {'name': 'h_c13_direct', 'reach': [1]}, {'name': 'h_c13_relay', 'reach': [1]}, {'name': 'h_c13_deep', 'reach': [1, 2]}]},
 'C14': {'entries': [{'name': 'h_c14_order', 'reach': [1, 2, 19]}, {'name': 'h_c14_endpoint', 'reach': [1, 2, 3, 11, 16]}, {'name': 'h_c14_off', 'reach': [1]}, {'name': 'h_c14_by_key', 'reach': [1, 2]}]},
 'C15': {'entries': [{'name': 'h_c15_types', 'reach': [1, 2]}, {'name': 'h_c15_bodies', 'reach': [1, 2]}, {'name': 'h_c15_attachments', 'reach': [1, 2]}, {'name': 'h_c15_read', 'reach': [1]}, {'name': 'h_c15_unwrap', 'reach': [1, 2, 3, 10, 11, 12, 13, 14, 15, 16, 20, 21]}, {'name': 'h_c15_almost', 'reach': [1, 2]}, {'name': 'h_c15_dressed', 'reach': [1, 2]}]},
 'C16': {'entries': [{'name': 'h_c16_claims', 'reach': [1, 2]}, {'name': 'h_c16_issuer', 'reach': [1, 2, 3]}, {'name': 'h_c16_issuer_name', 'reach': [1, 2, 3, 4]}, {'name': 'h_c16_fields', 'reach': [1]}, {'name': 'h_c16_carried', 'reach': [1]}, {'name': 'h_c16_near_keys', 'reach': [1, 2, 3]}]},
 'C17': {'entries': [{'name': 'h_c17_tamper', 'reach': [1, 2, 10, 11, 12, 13, 14, 15]}, {'name': 'h_c17_keys', 'reach': [1, 2]}, {'name': 'h_c17_names', 'reach': [1, 2]}, {'name': 'h_c17_issuer', 'reach': [1, 2]}, {'name': 'h_c17_payload', 'reach': [1, 2]}, {'name': 'h_c17_packing', 'reach': [1, 2, 3, 4, 10]}, {'name': 'h_c17_near', 'reach': [1, 2]}]},
 'C18': {'entries': [{'name': 'h_c18_text_x', 'reach': [1, 2]}, {'name': 'h_c18_text_ed', 'reach': [1, 2]}, {'name': 'h_c18_sizes', 'reach': [1, 2]}, {'name': 'h_c18_prefixes', 'reach': [2]}, {'name': 'h_c18_fit', 'reach': [1, 2]}, {'name': 'h_c18_jwks', 'reach': [1, 2]}, {'name': 'h_c18_roles', 'reach': [1]}, {'name': 'h_c18_codecs', 'reach': [1, 2]}, {'name': 'h_c18_ec', 'reach': [1, 2, 3, 4]}]},
 'C19': {'entries': [{'name': 'h_c19_text58', 'reach': [1, 2]}, {'name': 'h_c19_text_mb', 'reach': [1, 2]}, {'name': 'h_c19_sizes', 'reach': [1, 2]}, {'name': 'h_c19_prefixes', 'reach': [2]}, {'name': 'h_c19_fit', 'reach': [1, 2]}, {'name': 'h_c19_jwks', 'reach': [1, 2]}, {'name': 'h_c19_roles', 'reach': [1]}, {'name': 'h_c19_codecs', 'reach': [1, 2]}, {'name': 'h_c19_ec', 'reach': [1, 2]}]},
 'C22': {'entries': [{'name': 'h_c22_lists', 'reach': [1]}, {'name': 'h_c22_materials', 'reach': [1]}, {'name': 'h_c22_services', 'reach': [1]}, {'name': 'h_c22_texts', 'reach': [1]}, {'name': 'h_c22_read', 'reach': [1]}, {'name': 'h_c22_order', 'reach': [1]}, {'name': 'h_c22_broken', 'reach': [1]}, {'name': 'h_c22_secrets', 'reach': [1]}, {'name': 'h_c22_secrets_read', 'reach': [1, 2]}, {'name': 'h_c22_names', 'reach': [1, 2, 3]}, {'name': 'h_c22_secret_names', 'reach': [1, 2]}]},
 'C28': {'entries': [{'name': 'h_c28_pack', 'reach': [1]}, {'name': 'h_c28_unpack', 'reach': [1]}, {'name': 'h_c28_wrong', 'reach': [1, 2]}, {'name': 'h_c28_styles', 'reach': [1]}, {'name': 'h_c28_unpack_metadata', 'reach': [1]}, {'name': 'h_c28_pack_metadata', 'reach': [1]}]},
 'C23': {'entries': [{'name': 'h_c23_did_faults', 'reach': [1, 2]}, {'name': 'h_c23_did_missing', 'reach': [1]}, {'name': 'h_c23_secret_faults', 'reach': [1, 2]}, {'name': 'h_c23_secret_missing', 'reach': [1, 2]}]},
 'C29': {'entries': [{'name': 'h_c29_empty', 'reach': [1]}, {'name': 'h_c29_lists', 'reach': [1, 2]}, {'name': 'h_c29_texts', 'reach': [1, 2]}, {'name': 'h_c29_names', 'reach': [1, 2]}, {'name': 'h_c29_headers', 'reach': [1]}]},
 'C24': {'entries': [{'name': 'h_c24_subsets', 'reach': [1, 2]}, {'name': 'h_c24_secrets', 'reach': [1, 2]}, {'name': 'h_c24_entries', 'reach': [1, 2]}, {'name': 'h_c24_layers', 'reach': [1, 2]}]},
 'C25': {'entries': [{'name': 'h_c25_written', 'reach': [1]}, {'name': 'h_c25_enc_names', 'reach': [1, 2]}, {'name': 'h_c25_alg_names', 'reach': [1, 2, 3]}, {'name': 'h_c25_sign_names', 'reach': [1, 2]}, {'name': 'h_c25_token_names', 'reach': [1, 2]}]},
 'C26': {'assume': JSA, 'entries': [{'name': 'h_c26_kinds', 'reach': [1]}, {'name': 'h_c26_names', 'reach': [1, 2]}, {'name': 'h_c26_others', 'reach': [1]}, {'name': 'h_c26_core_kinds', 'reach': [1, 3]}]},
 'C27': {'assume': FFA, 'entries': [{'name': 'h_c27_answered', 'reach': [1, 20]}, {'name': 'h_c27_failed', 'reach': [2, 20]}, {'name': 'h_c27_dropped', 'reach': [2]}, {'name': 'h_c27_unknown', 'reach': [2, 20]}, {'name': 'h_c27_interleaved', 'reach': [1, 2]}]},
 'C30': {'assume': JSA, 'entries': [{'name': 'h_c30_encrypted', 'reach': [1, 2]}, {'name': 'h_c30_signed', 'reach': [1, 2]}, {'name': 'h_c30_unpacked', 'reach': [1, 2]}, {'name': 'h_c30_from_prior', 'reach': [1, 2]}, {'name': 'h_c30_forward', 'reach': [1, 2, 3, 4]}, {'name': 'h_c30_object', 'reach': [1]}, {'name': 'h_c30_malformed', 'reach': [1]}, {'name': 'h_c30_texts', 'reach': [1, 2]}]},
 'C31': {'assume': FFA, 'entries': [{'name': 'h_c31_encrypted', 'reach': [1, 2, 9]}, {'name': 'h_c31_signed', 'reach': [1, 2, 9]}, {'name': 'h_c31_unpacked', 'reach': [1, 2, 9]}, {'name': 'h_c31_from_prior', 'reach': [1, 2, 9]}, {'name': 'h_c31_forward', 'reach': [1, 2, 9]}, {'name': 'h_c31_two', 'reach': [1, 9]}, {'name': 'h_c31_json_values', 'reach': [1, 2, 3]}, {'name': 'h_c31_texts', 'reach': [1, 2]}]},
 'C32': {'assume': FFA, 'entries': [{'name': 'h_c32_dids', 'reach': [1, 2]}, {'name': 'h_c32_secrets', 'reach': [1, 2]}, {'name': 'h_c32_find', 'reach': [1, 2]}, {'name': 'h_c32_foreign', 'reach': [1, 2]}]},
}
NOTE = 'Exhaustive within the stated bounds (harness shapes, symbolic byte counts, loop unrollings as executed): every path of the compiled code is explored, branch feasibility and assertions are decided by z3 / exact byte-domain tables audited by z3. Cryptographic primitives are ideal models (askar-crypto stand-in); everything else, didcomm-rust, serde_json, base64, sha2, std, is the real code.'
NA = {}
HOOKS = None
NOTES = 'Every check compiles the harness together with the current tree of /repo to LLVM IR, executes it symbolically with symir (own engine over z3, source in /verif/symir) and replays every counterexample natively.'
