#![allow(clippy::all)]
#![allow(unused)]
pub mod fix;
pub mod craft;
pub mod gen;
pub mod sym;
#[cfg(feature = "c01")] pub mod c01;
#[cfg(feature = "c01")] pub mod c01_entries {
    #[no_mangle] pub extern "C" fn h_c01_configs() { askar_crypto::model::reset(); crate::c01::configs() }
    #[no_mangle] pub extern "C" fn h_c01_content() { askar_crypto::model::reset(); crate::c01::content() }
    #[no_mangle] pub extern "C" fn h_c01_sizes() { askar_crypto::model::reset(); crate::c01::sizes() }
}
#[cfg(feature = "c02")] pub mod c02;
#[cfg(feature = "c02")] pub mod c02_entries {
    #[no_mangle] pub extern "C" fn h_c02_headers() { askar_crypto::model::reset(); crate::c02::headers() }
    #[no_mangle] pub extern "C" fn h_c02_content() { askar_crypto::model::reset(); crate::c02::content() }
    #[no_mangle] pub extern "C" fn h_c02_edges() { askar_crypto::model::reset(); crate::c02::edges() }
    #[no_mangle] pub extern "C" fn h_c02_signed() { askar_crypto::model::reset(); crate::c02::signed() }
    #[no_mangle] pub extern "C" fn h_c02_signed_text() { askar_crypto::model::reset(); crate::c02::signed_text() }
}
#[cfg(feature = "c03")] pub mod c03;
#[cfg(feature = "c03")] pub mod c03_entries {
    #[no_mangle] pub extern "C" fn h_c03_fields() { askar_crypto::model::reset(); crate::c03::fields() }
    #[no_mangle] pub extern "C" fn h_c03_text() { askar_crypto::model::reset(); crate::c03::text() }
    #[no_mangle] pub extern "C" fn h_c03_mixed() { askar_crypto::model::reset(); crate::c03::mixed() }
    #[no_mangle] pub extern "C" fn h_c03_nested() { askar_crypto::model::reset(); crate::c03::nested() }
}
#[cfg(feature = "c04")] pub mod c04;
#[cfg(feature = "c04")] pub mod c04_entries {
    #[no_mangle] pub extern "C" fn h_c04_tamper() { askar_crypto::model::reset(); crate::c04::tamper() }
    #[no_mangle] pub extern "C" fn h_c04_signer() { askar_crypto::model::reset(); crate::c04::signer() }
    #[no_mangle] pub extern "C" fn h_c04_names() { askar_crypto::model::reset(); crate::c04::names() }
    #[no_mangle] pub extern "C" fn h_c04_near() { askar_crypto::model::reset(); crate::c04::near() }
    #[no_mangle] pub extern "C" fn h_c04_payload() { askar_crypto::model::reset(); crate::c04::payload() }
}
#[cfg(feature = "c05")] pub mod c05;
#[cfg(feature = "c05")] pub mod c05_entries {
    #[no_mangle] pub extern "C" fn h_c05_keys() { askar_crypto::model::reset(); crate::c05::keys() }
    #[no_mangle] pub extern "C" fn h_c05_stated() { askar_crypto::model::reset(); crate::c05::stated() }
    #[no_mangle] pub extern "C" fn h_c05_claimed() { askar_crypto::model::reset(); crate::c05::claimed() }
    #[no_mangle] pub extern "C" fn h_c05_pairs() { askar_crypto::model::reset(); crate::c05::pairs() }
    #[no_mangle] pub extern "C" fn h_c05_near() { askar_crypto::model::reset(); crate::c05::near() }
}
#[cfg(feature = "c06")] pub mod c06;
#[cfg(feature = "c06")] pub mod c06_entries {
    #[no_mangle] pub extern "C" fn h_c06_apv() { askar_crypto::model::reset(); crate::c06::apv() }
    #[no_mangle] pub extern "C" fn h_c06_edit() { askar_crypto::model::reset(); crate::c06::edit() }
    #[no_mangle] pub extern "C" fn h_c06_one_did() { askar_crypto::model::reset(); crate::c06::one_did() }
    #[no_mangle] pub extern "C" fn h_c06_sorting() { askar_crypto::model::reset(); crate::c06::sorting() }
}
#[cfg(feature = "c07")] pub mod c07;
#[cfg(feature = "c07")] pub mod c07_entries {
    #[no_mangle] pub extern "C" fn h_c07_nesting() { askar_crypto::model::reset(); crate::c07::nesting() }
    #[no_mangle] pub extern "C" fn h_c07_broken() { askar_crypto::model::reset(); crate::c07::broken() }
    #[no_mangle] pub extern "C" fn h_c07_polyglot() { askar_crypto::model::reset(); crate::c07::polyglot() }
    #[no_mangle] pub extern "C" fn h_c07_rewrapped() { askar_crypto::model::reset(); crate::c07::rewrapped() }
    #[no_mangle] pub extern "C" fn h_c07_exact() { askar_crypto::model::reset(); crate::c07::exact() }
}
#[cfg(feature = "c08")] pub mod c08;
#[cfg(feature = "c08")] pub mod c08_entries {
    #[no_mangle] pub extern "C" fn h_c08_short() { askar_crypto::model::reset(); crate::c08::short() }
    #[no_mangle] pub extern "C" fn h_c08_tokens() { askar_crypto::model::reset(); crate::c08::tokens() }
    #[no_mangle] pub extern "C" fn h_c08_cut() { askar_crypto::model::reset(); crate::c08::cut() }
    #[no_mangle] pub extern "C" fn h_c08_inner() { askar_crypto::model::reset(); crate::c08::inner() }
    #[no_mangle] pub extern "C" fn h_c08_window() { askar_crypto::model::reset(); crate::c08::window() }
    #[no_mangle] pub extern "C" fn h_c08_shapes() { askar_crypto::model::reset(); crate::c08::shapes() }
    #[no_mangle] pub extern "C" fn h_c08_token() { askar_crypto::model::reset(); crate::c08::token() }
    #[no_mangle] pub extern "C" fn h_c08_depth() { askar_crypto::model::reset(); crate::c08::depth() }
    #[no_mangle] pub extern "C" fn h_c08_names() { askar_crypto::model::reset(); crate::c08::names() }
}
#[cfg(feature = "c09")] pub mod c09;
#[cfg(feature = "c09")] pub mod c09_entries {
    #[no_mangle] pub extern "C" fn h_c09_syntax() { askar_crypto::model::reset(); crate::c09::syntax() }
    #[no_mangle] pub extern "C" fn h_c09_headers() { askar_crypto::model::reset(); crate::c09::headers() }
    #[no_mangle] pub extern "C" fn h_c09_accepted() { askar_crypto::model::reset(); crate::c09::accepted() }
}
#[cfg(feature = "c10")] pub mod c10;
#[cfg(feature = "c10")] pub mod c10_entries {
    #[no_mangle] pub extern "C" fn h_c10_anon() { askar_crypto::model::reset(); crate::c10::anon() }
    #[no_mangle] pub extern "C" fn h_c10_auth() { askar_crypto::model::reset(); crate::c10::auth() }
    #[no_mangle] pub extern "C" fn h_c10_near_anon() { askar_crypto::model::reset(); crate::c10::near_anon() }
    #[no_mangle] pub extern "C" fn h_c10_near_auth() { askar_crypto::model::reset(); crate::c10::near_auth() }
}
#[cfg(feature = "c11")] pub mod c11;
#[cfg(feature = "c11")] pub mod c11_entries {
    #[no_mangle] pub extern "C" fn h_c11_sender() { askar_crypto::model::reset(); crate::c11::sender() }
    #[no_mangle] pub extern "C" fn h_c11_sender_id() { askar_crypto::model::reset(); crate::c11::sender_id() }
    #[no_mangle] pub extern "C" fn h_c11_signer() { askar_crypto::model::reset(); crate::c11::signer() }
    #[no_mangle] pub extern "C" fn h_c11_signer_enc() { askar_crypto::model::reset(); crate::c11::signer_enc() }
    #[no_mangle] pub extern "C" fn h_c11_near_sender() { askar_crypto::model::reset(); crate::c11::near_sender() }
    #[no_mangle] pub extern "C" fn h_c11_near_signer() { askar_crypto::model::reset(); crate::c11::near_signer() }
}
#[cfg(feature = "c12")] pub mod c12;
#[cfg(feature = "c12")] pub mod c12_entries {
    #[no_mangle] pub extern "C" fn h_c12_content() { askar_crypto::model::reset(); crate::c12::content() }
    #[no_mangle] pub extern "C" fn h_c12_sender() { askar_crypto::model::reset(); crate::c12::sender() }
    #[no_mangle] pub extern "C" fn h_c12_recipient() { askar_crypto::model::reset(); crate::c12::recipient() }
    #[no_mangle] pub extern "C" fn h_c12_keys() { askar_crypto::model::reset(); crate::c12::keys() }
    #[no_mangle] pub extern "C" fn h_c12_name() { askar_crypto::model::reset(); crate::c12::name() }
}
#[cfg(feature = "c13")] pub mod c13;
#[cfg(feature = "c13")] pub mod c13_entries {
    #[no_mangle] pub extern "C" fn h_c13_onion() { askar_crypto::model::reset(); crate::c13::onion() }
    #[no_mangle] pub extern "C" fn h_c13_direct() { askar_crypto::model::reset(); crate::c13::direct() }
    #[no_mangle] pub extern "C" fn h_c13_relay() { askar_crypto::model::reset(); crate::c13::relay() }
    #[no_mangle] pub extern "C" fn h_c13_deep() { askar_crypto::model::reset(); crate::c13::deep() }
}
#[cfg(feature = "c14")] pub mod c14;
#[cfg(feature = "c14")] pub mod c14_entries {
    #[no_mangle] pub extern "C" fn h_c14_order() { askar_crypto::model::reset(); crate::c14::order() }
    #[no_mangle] pub extern "C" fn h_c14_endpoint() { askar_crypto::model::reset(); crate::c14::endpoint() }
    #[no_mangle] pub extern "C" fn h_c14_off() { askar_crypto::model::reset(); crate::c14::off() }
    #[no_mangle] pub extern "C" fn h_c14_by_key() { askar_crypto::model::reset(); crate::c14::by_key() }
}
#[cfg(feature = "c15")] pub mod c15;
#[cfg(feature = "c15")] pub mod c15_entries {
    #[no_mangle] pub extern "C" fn h_c15_types() { askar_crypto::model::reset(); crate::c15::types() }
    #[no_mangle] pub extern "C" fn h_c15_bodies() { askar_crypto::model::reset(); crate::c15::bodies() }
    #[no_mangle] pub extern "C" fn h_c15_attachments() { askar_crypto::model::reset(); crate::c15::attachments() }
    #[no_mangle] pub extern "C" fn h_c15_read() { askar_crypto::model::reset(); crate::c15::read() }
    #[no_mangle] pub extern "C" fn h_c15_unwrap() { askar_crypto::model::reset(); crate::c15::unwrap() }
    #[no_mangle] pub extern "C" fn h_c15_almost() { askar_crypto::model::reset(); crate::c15::almost() }
    #[no_mangle] pub extern "C" fn h_c15_dressed() { askar_crypto::model::reset(); crate::c15::dressed() }
}
#[cfg(feature = "c16")] pub mod c16;
#[cfg(feature = "c16")] pub mod c16_entries {
    #[no_mangle] pub extern "C" fn h_c16_claims() { askar_crypto::model::reset(); crate::c16::claims() }
    #[no_mangle] pub extern "C" fn h_c16_issuer() { askar_crypto::model::reset(); crate::c16::issuer() }
    #[no_mangle] pub extern "C" fn h_c16_issuer_name() { askar_crypto::model::reset(); crate::c16::issuer_name() }
    #[no_mangle] pub extern "C" fn h_c16_fields() { askar_crypto::model::reset(); crate::c16::fields() }
    #[no_mangle] pub extern "C" fn h_c16_carried() { askar_crypto::model::reset(); crate::c16::carried() }
    #[no_mangle] pub extern "C" fn h_c16_near_keys() { askar_crypto::model::reset(); crate::c16::near_keys() }
}
#[cfg(feature = "c17")] pub mod c17;
#[cfg(feature = "c17")] pub mod c17_entries {
    #[no_mangle] pub extern "C" fn h_c17_tamper() { askar_crypto::model::reset(); crate::c17::tamper() }
    #[no_mangle] pub extern "C" fn h_c17_keys() { askar_crypto::model::reset(); crate::c17::keys() }
    #[no_mangle] pub extern "C" fn h_c17_names() { askar_crypto::model::reset(); crate::c17::names() }
    #[no_mangle] pub extern "C" fn h_c17_issuer() { askar_crypto::model::reset(); crate::c17::issuer() }
    #[no_mangle] pub extern "C" fn h_c17_payload() { askar_crypto::model::reset(); crate::c17::payload() }
    #[no_mangle] pub extern "C" fn h_c17_packing() { askar_crypto::model::reset(); crate::c17::packing() }
    #[no_mangle] pub extern "C" fn h_c17_near() { askar_crypto::model::reset(); crate::c17::near() }
}
#[cfg(feature = "c18")] pub mod c18;
#[cfg(feature = "c18")] pub mod c18_entries {
    #[no_mangle] pub extern "C" fn h_c18_text_x() { askar_crypto::model::reset(); crate::c18::text_x() }
    #[no_mangle] pub extern "C" fn h_c18_text_ed() { askar_crypto::model::reset(); crate::c18::text_ed() }
    #[no_mangle] pub extern "C" fn h_c18_sizes() { askar_crypto::model::reset(); crate::c18::sizes() }
    #[no_mangle] pub extern "C" fn h_c18_prefixes() { askar_crypto::model::reset(); crate::c18::prefixes() }
    #[no_mangle] pub extern "C" fn h_c18_fit() { askar_crypto::model::reset(); crate::c18::fit() }
    #[no_mangle] pub extern "C" fn h_c18_jwks() { askar_crypto::model::reset(); crate::c18::jwks() }
    #[no_mangle] pub extern "C" fn h_c18_roles() { askar_crypto::model::reset(); crate::c18::roles() }
    #[no_mangle] pub extern "C" fn h_c18_codecs() { askar_crypto::model::reset(); crate::c18::codecs() }
    #[no_mangle] pub extern "C" fn h_c18_ec() { askar_crypto::model::reset(); crate::c18::ec() }
}
#[cfg(feature = "c19")] pub mod c19;
#[cfg(feature = "c19")] pub mod c19_entries {
    #[no_mangle] pub extern "C" fn h_c19_text58() { askar_crypto::model::reset(); crate::c19::text58() }
    #[no_mangle] pub extern "C" fn h_c19_text_mb() { askar_crypto::model::reset(); crate::c19::text_mb() }
    #[no_mangle] pub extern "C" fn h_c19_sizes() { askar_crypto::model::reset(); crate::c19::sizes() }
    #[no_mangle] pub extern "C" fn h_c19_prefixes() { askar_crypto::model::reset(); crate::c19::prefixes() }
    #[no_mangle] pub extern "C" fn h_c19_fit() { askar_crypto::model::reset(); crate::c19::fit() }
    #[no_mangle] pub extern "C" fn h_c19_jwks() { askar_crypto::model::reset(); crate::c19::jwks() }
    #[no_mangle] pub extern "C" fn h_c19_roles() { askar_crypto::model::reset(); crate::c19::roles() }
    #[no_mangle] pub extern "C" fn h_c19_codecs() { askar_crypto::model::reset(); crate::c19::codecs() }
    #[no_mangle] pub extern "C" fn h_c19_ec() { askar_crypto::model::reset(); crate::c19::ec() }
}
#[cfg(feature = "c20")] pub mod c20;
#[cfg(feature = "c20")] pub mod c20_entries {
    #[no_mangle] pub extern "C" fn h_c20_wire() { askar_crypto::model::reset(); crate::c20::wire() }
    #[no_mangle] pub extern "C" fn h_c20_values() { askar_crypto::model::reset(); crate::c20::values() }
    #[no_mangle] pub extern "C" fn h_c20_edges() { askar_crypto::model::reset(); crate::c20::edges() }
    #[no_mangle] pub extern "C" fn h_c20_builder() { askar_crypto::model::reset(); crate::c20::builder() }
    #[no_mangle] pub extern "C" fn h_c20_read() { askar_crypto::model::reset(); crate::c20::read() }
    #[no_mangle] pub extern "C" fn h_c20_read_typ() { askar_crypto::model::reset(); crate::c20::read_typ() }
    #[no_mangle] pub extern "C" fn h_c20_read_unknown() { askar_crypto::model::reset(); crate::c20::read_unknown() }
}
#[cfg(feature = "c21")] pub mod c21;
#[cfg(feature = "c21")] pub mod c21_entries {
    #[no_mangle] pub extern "C" fn h_c21_fields() { askar_crypto::model::reset(); crate::c21::fields() }
    #[no_mangle] pub extern "C" fn h_c21_values() { askar_crypto::model::reset(); crate::c21::values() }
    #[no_mangle] pub extern "C" fn h_c21_builder() { askar_crypto::model::reset(); crate::c21::builder() }
    #[no_mangle] pub extern "C" fn h_c21_json_content() { askar_crypto::model::reset(); crate::c21::json_content() }
    #[no_mangle] pub extern "C" fn h_c21_read() { askar_crypto::model::reset(); crate::c21::read() }
    #[no_mangle] pub extern "C" fn h_c21_names() { askar_crypto::model::reset(); crate::c21::names() }
}
#[cfg(feature = "c22")] pub mod c22;
#[cfg(feature = "c22")] pub mod c22_entries {
    #[no_mangle] pub extern "C" fn h_c22_lists() { askar_crypto::model::reset(); crate::c22::lists() }
    #[no_mangle] pub extern "C" fn h_c22_materials() { askar_crypto::model::reset(); crate::c22::materials() }
    #[no_mangle] pub extern "C" fn h_c22_services() { askar_crypto::model::reset(); crate::c22::services() }
    #[no_mangle] pub extern "C" fn h_c22_texts() { askar_crypto::model::reset(); crate::c22::texts() }
    #[no_mangle] pub extern "C" fn h_c22_read() { askar_crypto::model::reset(); crate::c22::read() }
    #[no_mangle] pub extern "C" fn h_c22_order() { askar_crypto::model::reset(); crate::c22::order() }
    #[no_mangle] pub extern "C" fn h_c22_broken() { askar_crypto::model::reset(); crate::c22::broken() }
    #[no_mangle] pub extern "C" fn h_c22_secrets() { askar_crypto::model::reset(); crate::c22::secrets() }
    #[no_mangle] pub extern "C" fn h_c22_secrets_read() { askar_crypto::model::reset(); crate::c22::secrets_read() }
    #[no_mangle] pub extern "C" fn h_c22_names() { askar_crypto::model::reset(); crate::c22::names() }
    #[no_mangle] pub extern "C" fn h_c22_secret_names() { askar_crypto::model::reset(); crate::c22::secret_names() }
}
#[cfg(feature = "c23")] pub mod c23;
#[cfg(feature = "c23")] pub mod c23_entries {
    #[no_mangle] pub extern "C" fn h_c23_did_faults() { askar_crypto::model::reset(); crate::c23::did_faults() }
    #[no_mangle] pub extern "C" fn h_c23_did_missing() { askar_crypto::model::reset(); crate::c23::did_missing() }
    #[no_mangle] pub extern "C" fn h_c23_secret_faults() { askar_crypto::model::reset(); crate::c23::secret_faults() }
    #[no_mangle] pub extern "C" fn h_c23_secret_missing() { askar_crypto::model::reset(); crate::c23::secret_missing() }
}
#[cfg(feature = "c24")] pub mod c24;
#[cfg(feature = "c24")] pub mod c24_entries {
    #[no_mangle] pub extern "C" fn h_c24_secrets() { askar_crypto::model::reset(); crate::c24::secrets() }
    #[no_mangle] pub extern "C" fn h_c24_subsets() { askar_crypto::model::reset(); crate::c24::subsets() }
    #[no_mangle] pub extern "C" fn h_c24_entries() { askar_crypto::model::reset(); crate::c24::entries() }
    #[no_mangle] pub extern "C" fn h_c24_layers() { askar_crypto::model::reset(); crate::c24::layers() }
}
#[cfg(feature = "c25")] pub mod c25;
#[cfg(feature = "c25")] pub mod c25_entries {
    #[no_mangle] pub extern "C" fn h_c25_written() { askar_crypto::model::reset(); crate::c25::written() }
    #[no_mangle] pub extern "C" fn h_c25_enc_names() { askar_crypto::model::reset(); crate::c25::enc_names() }
    #[no_mangle] pub extern "C" fn h_c25_alg_names() { askar_crypto::model::reset(); crate::c25::alg_names() }
    #[no_mangle] pub extern "C" fn h_c25_sign_names() { askar_crypto::model::reset(); crate::c25::sign_names() }
    #[no_mangle] pub extern "C" fn h_c25_token_names() { askar_crypto::model::reset(); crate::c25::token_names() }
}
#[cfg(feature = "c26")] pub mod c26;
#[cfg(feature = "c26")] pub mod c26_entries {
    #[no_mangle] pub extern "C" fn h_c26_kinds() { askar_crypto::model::reset(); crate::c26::kinds() }
    #[no_mangle] pub extern "C" fn h_c26_names() { askar_crypto::model::reset(); crate::c26::names() }
    #[no_mangle] pub extern "C" fn h_c26_others() { askar_crypto::model::reset(); crate::c26::others() }
    #[no_mangle] pub extern "C" fn h_c26_core_kinds() { askar_crypto::model::reset(); crate::c26::core_kinds() }
}
#[cfg(feature = "c27")] pub mod c27;
#[cfg(feature = "c27")] pub mod c27_entries {
    #[no_mangle] pub extern "C" fn h_c27_answered() { askar_crypto::model::reset(); crate::c27::answered() }
    #[no_mangle] pub extern "C" fn h_c27_failed() { askar_crypto::model::reset(); crate::c27::failed() }
    #[no_mangle] pub extern "C" fn h_c27_dropped() { askar_crypto::model::reset(); crate::c27::dropped() }
    #[no_mangle] pub extern "C" fn h_c27_unknown() { askar_crypto::model::reset(); crate::c27::unknown() }
    #[no_mangle] pub extern "C" fn h_c27_interleaved() { askar_crypto::model::reset(); crate::c27::interleaved() }
}
#[cfg(feature = "c28")] pub mod c28;
#[cfg(feature = "c28")] pub mod c28_entries {
    #[no_mangle] pub extern "C" fn h_c28_pack() { askar_crypto::model::reset(); crate::c28::pack() }
    #[no_mangle] pub extern "C" fn h_c28_unpack() { askar_crypto::model::reset(); crate::c28::unpack() }
    #[no_mangle] pub extern "C" fn h_c28_wrong() { askar_crypto::model::reset(); crate::c28::wrong() }
    #[no_mangle] pub extern "C" fn h_c28_unpack_metadata() { askar_crypto::model::reset(); crate::c28::unpack_metadata() }
    #[no_mangle] pub extern "C" fn h_c28_pack_metadata() { askar_crypto::model::reset(); crate::c28::pack_metadata() }
    #[no_mangle] pub extern "C" fn h_c28_styles() { askar_crypto::model::reset(); crate::c28::styles() }
}
#[cfg(feature = "c29")] pub mod c29;
#[cfg(feature = "c29")] pub mod c29_entries {
    #[no_mangle] pub extern "C" fn h_c29_empty() { askar_crypto::model::reset(); crate::c29::empty() }
    #[no_mangle] pub extern "C" fn h_c29_lists() { askar_crypto::model::reset(); crate::c29::lists() }
    #[no_mangle] pub extern "C" fn h_c29_texts() { askar_crypto::model::reset(); crate::c29::texts() }
    #[no_mangle] pub extern "C" fn h_c29_names() { askar_crypto::model::reset(); crate::c29::names() }
    #[no_mangle] pub extern "C" fn h_c29_headers() { askar_crypto::model::reset(); crate::c29::headers() }
}
#[cfg(feature = "c30")] pub mod c30;
#[cfg(feature = "c30")] pub mod c30_entries {
    #[no_mangle] pub extern "C" fn h_c30_encrypted() { askar_crypto::model::reset(); crate::c30::encrypted() }
    #[no_mangle] pub extern "C" fn h_c30_signed() { askar_crypto::model::reset(); crate::c30::signed() }
    #[no_mangle] pub extern "C" fn h_c30_unpacked() { askar_crypto::model::reset(); crate::c30::unpacked() }
    #[no_mangle] pub extern "C" fn h_c30_from_prior() { askar_crypto::model::reset(); crate::c30::from_prior() }
    #[no_mangle] pub extern "C" fn h_c30_forward() { askar_crypto::model::reset(); crate::c30::forward() }
    #[no_mangle] pub extern "C" fn h_c30_object() { askar_crypto::model::reset(); crate::c30::object() }
    #[no_mangle] pub extern "C" fn h_c30_malformed() { askar_crypto::model::reset(); crate::c30::malformed() }
    #[no_mangle] pub extern "C" fn h_c30_texts() { askar_crypto::model::reset(); crate::c30::texts() }
}
#[cfg(feature = "c31")] pub mod c31;
#[cfg(feature = "c31")] pub mod c31_entries {
    #[no_mangle] pub extern "C" fn h_c31_encrypted() { askar_crypto::model::reset(); crate::c31::encrypted() }
    #[no_mangle] pub extern "C" fn h_c31_signed() { askar_crypto::model::reset(); crate::c31::signed() }
    #[no_mangle] pub extern "C" fn h_c31_unpacked() { askar_crypto::model::reset(); crate::c31::unpacked() }
    #[no_mangle] pub extern "C" fn h_c31_from_prior() { askar_crypto::model::reset(); crate::c31::from_prior() }
    #[no_mangle] pub extern "C" fn h_c31_forward() { askar_crypto::model::reset(); crate::c31::forward() }
    #[no_mangle] pub extern "C" fn h_c31_two() { askar_crypto::model::reset(); crate::c31::two() }
    #[no_mangle] pub extern "C" fn h_c31_json_values() { askar_crypto::model::reset(); crate::c31::json_values() }
    #[no_mangle] pub extern "C" fn h_c31_texts() { askar_crypto::model::reset(); crate::c31::texts() }
}
#[cfg(feature = "c32")] pub mod c32;
#[cfg(feature = "c32")] pub mod c32_entries {
    #[no_mangle] pub extern "C" fn h_c32_dids() { askar_crypto::model::reset(); crate::c32::dids() }
    #[no_mangle] pub extern "C" fn h_c32_secrets() { askar_crypto::model::reset(); crate::c32::secrets() }
    #[no_mangle] pub extern "C" fn h_c32_find() { askar_crypto::model::reset(); crate::c32::find() }
    #[no_mangle] pub extern "C" fn h_c32_foreign() { askar_crypto::model::reset(); crate::c32::foreign() }
}
pub const TABLE: &[(&str, extern "C" fn())] = &[
    #[cfg(feature = "c01")] ("h_c01_configs", c01_entries::h_c01_configs),
    #[cfg(feature = "c01")] ("h_c01_content", c01_entries::h_c01_content),
    #[cfg(feature = "c01")] ("h_c01_sizes", c01_entries::h_c01_sizes),
    #[cfg(feature = "c02")] ("h_c02_headers", c02_entries::h_c02_headers),
    #[cfg(feature = "c02")] ("h_c02_content", c02_entries::h_c02_content),
    #[cfg(feature = "c02")] ("h_c02_edges", c02_entries::h_c02_edges),
    #[cfg(feature = "c02")] ("h_c02_signed", c02_entries::h_c02_signed),
    #[cfg(feature = "c02")] ("h_c02_signed_text", c02_entries::h_c02_signed_text),
    #[cfg(feature = "c03")] ("h_c03_fields", c03_entries::h_c03_fields),
    #[cfg(feature = "c03")] ("h_c03_text", c03_entries::h_c03_text),
    #[cfg(feature = "c03")] ("h_c03_mixed", c03_entries::h_c03_mixed),
    #[cfg(feature = "c03")] ("h_c03_nested", c03_entries::h_c03_nested),
    #[cfg(feature = "c04")] ("h_c04_tamper", c04_entries::h_c04_tamper),
    #[cfg(feature = "c04")] ("h_c04_signer", c04_entries::h_c04_signer),
    #[cfg(feature = "c04")] ("h_c04_names", c04_entries::h_c04_names),
    #[cfg(feature = "c04")] ("h_c04_near", c04_entries::h_c04_near),
    #[cfg(feature = "c04")] ("h_c04_payload", c04_entries::h_c04_payload),
    #[cfg(feature = "c05")] ("h_c05_keys", c05_entries::h_c05_keys),
    #[cfg(feature = "c05")] ("h_c05_stated", c05_entries::h_c05_stated),
    #[cfg(feature = "c05")] ("h_c05_claimed", c05_entries::h_c05_claimed),
    #[cfg(feature = "c05")] ("h_c05_pairs", c05_entries::h_c05_pairs),
    #[cfg(feature = "c05")] ("h_c05_near", c05_entries::h_c05_near),
    #[cfg(feature = "c06")] ("h_c06_apv", c06_entries::h_c06_apv),
    #[cfg(feature = "c06")] ("h_c06_edit", c06_entries::h_c06_edit),
    #[cfg(feature = "c06")] ("h_c06_one_did", c06_entries::h_c06_one_did),
    #[cfg(feature = "c06")] ("h_c06_sorting", c06_entries::h_c06_sorting),
    #[cfg(feature = "c07")] ("h_c07_nesting", c07_entries::h_c07_nesting),
    #[cfg(feature = "c07")] ("h_c07_broken", c07_entries::h_c07_broken),
    #[cfg(feature = "c07")] ("h_c07_polyglot", c07_entries::h_c07_polyglot),
    #[cfg(feature = "c07")] ("h_c07_rewrapped", c07_entries::h_c07_rewrapped),
    #[cfg(feature = "c07")] ("h_c07_exact", c07_entries::h_c07_exact),
    #[cfg(feature = "c08")] ("h_c08_short", c08_entries::h_c08_short),
    #[cfg(feature = "c08")] ("h_c08_tokens", c08_entries::h_c08_tokens),
    #[cfg(feature = "c08")] ("h_c08_cut", c08_entries::h_c08_cut),
    #[cfg(feature = "c08")] ("h_c08_inner", c08_entries::h_c08_inner),
    #[cfg(feature = "c08")] ("h_c08_window", c08_entries::h_c08_window),
    #[cfg(feature = "c08")] ("h_c08_shapes", c08_entries::h_c08_shapes),
    #[cfg(feature = "c08")] ("h_c08_token", c08_entries::h_c08_token),
    #[cfg(feature = "c08")] ("h_c08_depth", c08_entries::h_c08_depth),
    #[cfg(feature = "c08")] ("h_c08_names", c08_entries::h_c08_names),
    #[cfg(feature = "c09")] ("h_c09_syntax", c09_entries::h_c09_syntax),
    #[cfg(feature = "c09")] ("h_c09_headers", c09_entries::h_c09_headers),
    #[cfg(feature = "c09")] ("h_c09_accepted", c09_entries::h_c09_accepted),
    #[cfg(feature = "c10")] ("h_c10_anon", c10_entries::h_c10_anon),
    #[cfg(feature = "c10")] ("h_c10_auth", c10_entries::h_c10_auth),
    #[cfg(feature = "c10")] ("h_c10_near_anon", c10_entries::h_c10_near_anon),
    #[cfg(feature = "c10")] ("h_c10_near_auth", c10_entries::h_c10_near_auth),
    #[cfg(feature = "c11")] ("h_c11_sender", c11_entries::h_c11_sender),
    #[cfg(feature = "c11")] ("h_c11_sender_id", c11_entries::h_c11_sender_id),
    #[cfg(feature = "c11")] ("h_c11_signer", c11_entries::h_c11_signer),
    #[cfg(feature = "c11")] ("h_c11_signer_enc", c11_entries::h_c11_signer_enc),
    #[cfg(feature = "c11")] ("h_c11_near_sender", c11_entries::h_c11_near_sender),
    #[cfg(feature = "c11")] ("h_c11_near_signer", c11_entries::h_c11_near_signer),
    #[cfg(feature = "c12")] ("h_c12_content", c12_entries::h_c12_content),
    #[cfg(feature = "c12")] ("h_c12_sender", c12_entries::h_c12_sender),
    #[cfg(feature = "c12")] ("h_c12_recipient", c12_entries::h_c12_recipient),
    #[cfg(feature = "c12")] ("h_c12_keys", c12_entries::h_c12_keys),
    #[cfg(feature = "c12")] ("h_c12_name", c12_entries::h_c12_name),
    #[cfg(feature = "c13")] ("h_c13_onion", c13_entries::h_c13_onion),
    #[cfg(feature = "c13")] ("h_c13_direct", c13_entries::h_c13_direct),
    #[cfg(feature = "c13")] ("h_c13_relay", c13_entries::h_c13_relay),
    #[cfg(feature = "c13")] ("h_c13_deep", c13_entries::h_c13_deep),
    #[cfg(feature = "c14")] ("h_c14_order", c14_entries::h_c14_order),
    #[cfg(feature = "c14")] ("h_c14_endpoint", c14_entries::h_c14_endpoint),
    #[cfg(feature = "c14")] ("h_c14_off", c14_entries::h_c14_off),
    #[cfg(feature = "c14")] ("h_c14_by_key", c14_entries::h_c14_by_key),
    #[cfg(feature = "c15")] ("h_c15_types", c15_entries::h_c15_types),
    #[cfg(feature = "c15")] ("h_c15_bodies", c15_entries::h_c15_bodies),
    #[cfg(feature = "c15")] ("h_c15_attachments", c15_entries::h_c15_attachments),
    #[cfg(feature = "c15")] ("h_c15_read", c15_entries::h_c15_read),
    #[cfg(feature = "c15")] ("h_c15_unwrap", c15_entries::h_c15_unwrap),
    #[cfg(feature = "c15")] ("h_c15_almost", c15_entries::h_c15_almost),
    #[cfg(feature = "c15")] ("h_c15_dressed", c15_entries::h_c15_dressed),
    #[cfg(feature = "c16")] ("h_c16_claims", c16_entries::h_c16_claims),
    #[cfg(feature = "c16")] ("h_c16_issuer", c16_entries::h_c16_issuer),
    #[cfg(feature = "c16")] ("h_c16_issuer_name", c16_entries::h_c16_issuer_name),
    #[cfg(feature = "c16")] ("h_c16_fields", c16_entries::h_c16_fields),
    #[cfg(feature = "c16")] ("h_c16_carried", c16_entries::h_c16_carried),
    #[cfg(feature = "c16")] ("h_c16_near_keys", c16_entries::h_c16_near_keys),
    #[cfg(feature = "c17")] ("h_c17_tamper", c17_entries::h_c17_tamper),
    #[cfg(feature = "c17")] ("h_c17_keys", c17_entries::h_c17_keys),
    #[cfg(feature = "c17")] ("h_c17_names", c17_entries::h_c17_names),
    #[cfg(feature = "c17")] ("h_c17_issuer", c17_entries::h_c17_issuer),
    #[cfg(feature = "c17")] ("h_c17_payload", c17_entries::h_c17_payload),
    #[cfg(feature = "c17")] ("h_c17_packing", c17_entries::h_c17_packing),
    #[cfg(feature = "c17")] ("h_c17_near", c17_entries::h_c17_near),
    #[cfg(feature = "c18")] ("h_c18_text_x", c18_entries::h_c18_text_x),
    #[cfg(feature = "c18")] ("h_c18_text_ed", c18_entries::h_c18_text_ed),
    #[cfg(feature = "c18")] ("h_c18_sizes", c18_entries::h_c18_sizes),
    #[cfg(feature = "c18")] ("h_c18_prefixes", c18_entries::h_c18_prefixes),
    #[cfg(feature = "c18")] ("h_c18_fit", c18_entries::h_c18_fit),
    #[cfg(feature = "c18")] ("h_c18_jwks", c18_entries::h_c18_jwks),
    #[cfg(feature = "c18")] ("h_c18_roles", c18_entries::h_c18_roles),
    #[cfg(feature = "c18")] ("h_c18_codecs", c18_entries::h_c18_codecs),
    #[cfg(feature = "c18")] ("h_c18_ec", c18_entries::h_c18_ec),
    #[cfg(feature = "c19")] ("h_c19_text58", c19_entries::h_c19_text58),
    #[cfg(feature = "c19")] ("h_c19_text_mb", c19_entries::h_c19_text_mb),
    #[cfg(feature = "c19")] ("h_c19_sizes", c19_entries::h_c19_sizes),
    #[cfg(feature = "c19")] ("h_c19_prefixes", c19_entries::h_c19_prefixes),
    #[cfg(feature = "c19")] ("h_c19_fit", c19_entries::h_c19_fit),
    #[cfg(feature = "c19")] ("h_c19_jwks", c19_entries::h_c19_jwks),
    #[cfg(feature = "c19")] ("h_c19_roles", c19_entries::h_c19_roles),
    #[cfg(feature = "c19")] ("h_c19_codecs", c19_entries::h_c19_codecs),
    #[cfg(feature = "c19")] ("h_c19_ec", c19_entries::h_c19_ec),
    #[cfg(feature = "c20")] ("h_c20_wire", c20_entries::h_c20_wire),
    #[cfg(feature = "c20")] ("h_c20_values", c20_entries::h_c20_values),
    #[cfg(feature = "c20")] ("h_c20_edges", c20_entries::h_c20_edges),
    #[cfg(feature = "c20")] ("h_c20_builder", c20_entries::h_c20_builder),
    #[cfg(feature = "c20")] ("h_c20_read", c20_entries::h_c20_read),
    #[cfg(feature = "c20")] ("h_c20_read_typ", c20_entries::h_c20_read_typ),
    #[cfg(feature = "c20")] ("h_c20_read_unknown", c20_entries::h_c20_read_unknown),
    #[cfg(feature = "c21")] ("h_c21_fields", c21_entries::h_c21_fields),
    #[cfg(feature = "c21")] ("h_c21_values", c21_entries::h_c21_values),
    #[cfg(feature = "c21")] ("h_c21_builder", c21_entries::h_c21_builder),
    #[cfg(feature = "c21")] ("h_c21_json_content", c21_entries::h_c21_json_content),
    #[cfg(feature = "c21")] ("h_c21_read", c21_entries::h_c21_read),
    #[cfg(feature = "c21")] ("h_c21_names", c21_entries::h_c21_names),
    #[cfg(feature = "c22")] ("h_c22_lists", c22_entries::h_c22_lists),
    #[cfg(feature = "c22")] ("h_c22_materials", c22_entries::h_c22_materials),
    #[cfg(feature = "c22")] ("h_c22_services", c22_entries::h_c22_services),
    #[cfg(feature = "c22")] ("h_c22_texts", c22_entries::h_c22_texts),
    #[cfg(feature = "c22")] ("h_c22_read", c22_entries::h_c22_read),
    #[cfg(feature = "c22")] ("h_c22_order", c22_entries::h_c22_order),
    #[cfg(feature = "c22")] ("h_c22_broken", c22_entries::h_c22_broken),
    #[cfg(feature = "c22")] ("h_c22_secrets", c22_entries::h_c22_secrets),
    #[cfg(feature = "c22")] ("h_c22_secrets_read", c22_entries::h_c22_secrets_read),
    #[cfg(feature = "c22")] ("h_c22_names", c22_entries::h_c22_names),
    #[cfg(feature = "c22")] ("h_c22_secret_names", c22_entries::h_c22_secret_names),
    #[cfg(feature = "c23")] ("h_c23_did_faults", c23_entries::h_c23_did_faults),
    #[cfg(feature = "c23")] ("h_c23_did_missing", c23_entries::h_c23_did_missing),
    #[cfg(feature = "c23")] ("h_c23_secret_faults", c23_entries::h_c23_secret_faults),
    #[cfg(feature = "c23")] ("h_c23_secret_missing", c23_entries::h_c23_secret_missing),
    #[cfg(feature = "c24")] ("h_c24_secrets", c24_entries::h_c24_secrets),
    #[cfg(feature = "c24")] ("h_c24_subsets", c24_entries::h_c24_subsets),
    #[cfg(feature = "c24")] ("h_c24_entries", c24_entries::h_c24_entries),
    #[cfg(feature = "c24")] ("h_c24_layers", c24_entries::h_c24_layers),
    #[cfg(feature = "c25")] ("h_c25_written", c25_entries::h_c25_written),
    #[cfg(feature = "c25")] ("h_c25_enc_names", c25_entries::h_c25_enc_names),
    #[cfg(feature = "c25")] ("h_c25_alg_names", c25_entries::h_c25_alg_names),
    #[cfg(feature = "c25")] ("h_c25_sign_names", c25_entries::h_c25_sign_names),
    #[cfg(feature = "c25")] ("h_c25_token_names", c25_entries::h_c25_token_names),
    #[cfg(feature = "c26")] ("h_c26_kinds", c26_entries::h_c26_kinds),
    #[cfg(feature = "c26")] ("h_c26_names", c26_entries::h_c26_names),
    #[cfg(feature = "c26")] ("h_c26_others", c26_entries::h_c26_others),
    #[cfg(feature = "c26")] ("h_c26_core_kinds", c26_entries::h_c26_core_kinds),
    #[cfg(feature = "c27")] ("h_c27_answered", c27_entries::h_c27_answered),
    #[cfg(feature = "c27")] ("h_c27_failed", c27_entries::h_c27_failed),
    #[cfg(feature = "c27")] ("h_c27_dropped", c27_entries::h_c27_dropped),
    #[cfg(feature = "c27")] ("h_c27_unknown", c27_entries::h_c27_unknown),
    #[cfg(feature = "c27")] ("h_c27_interleaved", c27_entries::h_c27_interleaved),
    #[cfg(feature = "c28")] ("h_c28_pack", c28_entries::h_c28_pack),
    #[cfg(feature = "c28")] ("h_c28_unpack", c28_entries::h_c28_unpack),
    #[cfg(feature = "c28")] ("h_c28_wrong", c28_entries::h_c28_wrong),
    #[cfg(feature = "c28")] ("h_c28_unpack_metadata", c28_entries::h_c28_unpack_metadata),
    #[cfg(feature = "c28")] ("h_c28_pack_metadata", c28_entries::h_c28_pack_metadata),
    #[cfg(feature = "c28")] ("h_c28_styles", c28_entries::h_c28_styles),
    #[cfg(feature = "c29")] ("h_c29_empty", c29_entries::h_c29_empty),
    #[cfg(feature = "c29")] ("h_c29_lists", c29_entries::h_c29_lists),
    #[cfg(feature = "c29")] ("h_c29_texts", c29_entries::h_c29_texts),
    #[cfg(feature = "c29")] ("h_c29_names", c29_entries::h_c29_names),
    #[cfg(feature = "c29")] ("h_c29_headers", c29_entries::h_c29_headers),
    #[cfg(feature = "c30")] ("h_c30_encrypted", c30_entries::h_c30_encrypted),
    #[cfg(feature = "c30")] ("h_c30_signed", c30_entries::h_c30_signed),
    #[cfg(feature = "c30")] ("h_c30_unpacked", c30_entries::h_c30_unpacked),
    #[cfg(feature = "c30")] ("h_c30_from_prior", c30_entries::h_c30_from_prior),
    #[cfg(feature = "c30")] ("h_c30_forward", c30_entries::h_c30_forward),
    #[cfg(feature = "c30")] ("h_c30_object", c30_entries::h_c30_object),
    #[cfg(feature = "c30")] ("h_c30_malformed", c30_entries::h_c30_malformed),
    #[cfg(feature = "c30")] ("h_c30_texts", c30_entries::h_c30_texts),
    #[cfg(feature = "c31")] ("h_c31_encrypted", c31_entries::h_c31_encrypted),
    #[cfg(feature = "c31")] ("h_c31_signed", c31_entries::h_c31_signed),
    #[cfg(feature = "c31")] ("h_c31_unpacked", c31_entries::h_c31_unpacked),
    #[cfg(feature = "c31")] ("h_c31_from_prior", c31_entries::h_c31_from_prior),
    #[cfg(feature = "c31")] ("h_c31_forward", c31_entries::h_c31_forward),
    #[cfg(feature = "c31")] ("h_c31_two", c31_entries::h_c31_two),
    #[cfg(feature = "c31")] ("h_c31_json_values", c31_entries::h_c31_json_values),
    #[cfg(feature = "c31")] ("h_c31_texts", c31_entries::h_c31_texts),
    #[cfg(feature = "c32")] ("h_c32_dids", c32_entries::h_c32_dids),
    #[cfg(feature = "c32")] ("h_c32_secrets", c32_entries::h_c32_secrets),
    #[cfg(feature = "c32")] ("h_c32_find", c32_entries::h_c32_find),
    #[cfg(feature = "c32")] ("h_c32_foreign", c32_entries::h_c32_foreign),
];
