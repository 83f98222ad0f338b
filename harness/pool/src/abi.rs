//! Calls a program through its deployed binary interface: one serialized input buffer.
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError, pubkey::Pubkey};
pub fn call(f: unsafe fn(*mut u8) -> u64, program_id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let mut size = 8 + 8 + data.len() + 32 + 64;
    for i in infos { size += 8 + 32 + 32 + 8 + 8 + i.data_len() + 10240 + 8 + 16 }
    let mut store = vec![0u64; size / 8 + 8];
    let base = store.as_mut_ptr() as *mut u8;
    let mut at = 0usize;
    let put = |at: &mut usize, b: &[u8]| { unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), base.add(*at), b.len()) }; *at += b.len() };
    put(&mut at, &(infos.len() as u64).to_le_bytes());
    let mut places: Vec<Option<(usize, usize)>> = vec![];
    for (n, i) in infos.iter().enumerate() {
        if let Some(j) = infos[..n].iter().position(|x| x.key == i.key) {
            put(&mut at, &[j as u8, 0, 0, 0, 0, 0, 0, 0]);
            places.push(None);
            continue;
        }
        put(&mut at, &[0xff, i.is_signer as u8, i.is_writable as u8, i.executable as u8, 0, 0, 0, 0]);
        put(&mut at, i.key.as_ref());
        put(&mut at, i.owner.as_ref());
        let lam = at;
        put(&mut at, &i.lamports().to_le_bytes());
        let d = i.data.borrow();
        put(&mut at, &(d.len() as u64).to_le_bytes());
        let dat = at;
        put(&mut at, &d);
        at += 10240;
        at = (at + 7) / 8 * 8;
        put(&mut at, &0u64.to_le_bytes());
        places.push(Some((lam, dat)));
    }
    put(&mut at, &(data.len() as u64).to_le_bytes());
    put(&mut at, data);
    put(&mut at, program_id.as_ref());
    let r = unsafe { f(base) };
    let bytes = unsafe { std::slice::from_raw_parts(base as *const u8, store.len() * 8) };
    for (i, p) in infos.iter().zip(places) {
        if let Some((l, d)) = p {
            **i.lamports.borrow_mut() = u64::from_le_bytes(bytes[l..l + 8].try_into().unwrap());
            let n = i.data_len();
            i.data.borrow_mut().copy_from_slice(&bytes[d..d + n]);
        }
    }
    drop(store);
    if r == 0 { Ok(()) } else { Err(ProgramError::from(r)) }
}
