use crate::ctx::*;
pub mod amounts;
pub mod codecs;
pub mod hashes;
pub mod json;
pub mod keys;
pub mod text;

pub fn h256(parts: &[&[u8]]) -> [u8; 32] {
    let mut s = blake2b_simd::Params::new().hash_length(32).to_state();
    for p in parts {
        s.update(p);
    }
    s.finalize().as_bytes().try_into().unwrap()
}
pub fn run(p: &str, c: &mut Ctx) {
    match p {
        "C01" => codecs::c01(c),
        "C02" => codecs::c02(c),
        "C03" => codecs::c03(c),
        "C04" => codecs::c04(c),
        "C05" => hashes::c05(c),
        "C06" => hashes::c06(c),
        "C07" => hashes::c07(c),
        "C08" => hashes::c08(c),
        "C09" => hashes::c09(c),
        "C10" => hashes::c10(c),
        "C11" => codecs::c11(c),
        "C12" => hashes::c12(c),
        "C13" => amounts::c13(c),
        "C14" => amounts::c14(c),
        "C15" => amounts::c15(c),
        "C16" => amounts::c16(c),
        "C17" => amounts::c17(c),
        "C18" => codecs::c18(c),
        "C19" => text::c19(c),
        "C20" => keys::c20(c),
        "C21" => keys::c21(c),
        "C22" => keys::c22(c),
        "C23" => json::c23(c),
        "C24" => json::c24(c),
        _ => panic!("no such property"),
    }
}
