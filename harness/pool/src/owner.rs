//! The owner-assertion program: succeeds exactly for the stated owner.
use crate::drive::Run;
use crate::rt::*;
use crate::stats::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
pub const OWNERP: Pubkey = Pubkey::new_from_array([0x61; 32]);
unsafe fn ep(p: *mut u8) -> u64 { serum_assert_owner::entrypoint(p) }
pub fn program(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult { crate::abi::call(ep, p, a, d) }

pub fn run(seed: u64) -> Run {
    let mut r = Rng::new(seed);
    let mut st = Stats { histories: 1, ..Default::default() };
    let mut viols = vec![];
    let mut log = vec![];
    for _ in 0..40 {
        st.steps += 1;
        let mut l = Ledger::new();
        let n = r.below(4) as usize;
        let owners: Vec<Pubkey> = (0..n.max(1)).map(|_| match r.below(4) { 0 => Pubkey::default(), 1 => OWNERP, _ => r.key() }).collect();
        let keys: Vec<Pubkey> = (0..n).map(|_| r.key()).collect();
        for i in 0..n { let len = r.below(300) as usize; l.insert(keys[i], Acct { lamports: r.range(1, 1000), owner: owners[i], data: vec![r.u64() as u8; len], executable: r.chance(1, 8) }); }
        let mut data = match r.below(6) { 0 => r.key().to_bytes().to_vec(), 1 if n > 1 => owners[1].to_bytes().to_vec(), 2 if n > 0 => keys[0].to_bytes().to_vec(), _ => owners[0].to_bytes().to_vec() };
        match r.below(8) {
            0 => { let i = r.below(32) as usize; data[i] ^= 1 << r.below(8) }
            1 => data.truncate(r.below(33) as usize),
            2 => { let b = r.u64() as u8; for _ in 0..r.range(1, 40) { data.push(b) } }
            3 => data[31] ^= 0x80,
            _ => {}
        }
        let want = n > 0 && data.len() == 32 && data == owners[0].to_bytes();
        let metas = keys.iter().map(|k| AccountMeta { pubkey: *k, is_signer: r.chance(1, 3), is_writable: r.chance(1, 2) }).collect();
        let before = l.clone();
        let res = exec(&mut l, &[Instruction { program_id: OWNERP, accounts: metas, data: data.clone() }]);
        let h = hash(&(&data, &owners, n));
        let msg = format!("{} accounts, first owner {}, data {:?} -> {:?}", n, owners[0], data, res);
        st.rel("A01", h, || msg.clone());
        st.states.insert(h);
        let e = st.ops.entry("assert_owner").or_insert([0; 2]);
        e[0] += 1;
        if res.is_ok() { e[1] += 1 }
        if res.is_ok() != want { viols.push(Viol { props: vec!["A01"], msg: format!("expected {}: {}", if want { "success" } else { "failure" }, msg) }) }
        if l != before { viols.push(Viol { props: vec!["A01"], msg: format!("accounts changed: {}", msg) }) }
        log.push(msg);
    }
    Run { st, viols, log }
}
