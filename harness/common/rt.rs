//! Miniature Solana runtime used by every harness: executes the *real* program
//! code on in-memory accounts, with the chain's own guarantees around it
//! (signer/writable privileges, PDA signing, owner-only writes, lamport
//! conservation, all-or-nothing transactions, CPI abort semantics).
#![allow(dead_code)]
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::Instruction,
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub const MAX_GROW: usize = 16 * 1024;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
}
impl Default for Acct {
    fn default() -> Self {
        Acct { lamports: 0, owner: solana_program::system_program::ID, data: vec![], executable: false }
    }
}

pub type Ledger = HashMap<Pubkey, Acct>;
pub type ProcessFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

#[derive(Debug, Clone)]
pub enum TxErr {
    Program(ProgramError),
    Panic(String),
    Runtime(&'static str),
}

#[derive(Clone)]
struct Snap {
    lamports: u64,
    owner: Pubkey,
    data: Vec<u8>,
}

struct Frame {
    program: Pubkey,
    flags: HashMap<Pubkey, (bool, bool)>,
}

struct Ctx {
    frames: Vec<Frame>,
    pre: HashMap<Pubkey, Snap>,
    bufs: HashMap<Pubkey, (*mut u8, usize, *mut Pubkey, usize)>, // backing buffer, capacity, owner cell, current length
    aborted: Option<TxErr>,
    cpis: Vec<(Pubkey, Instruction)>,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static CLOCK: Cell<i64> = Cell::new(1_650_000_000);
    static PROGRAMS: RefCell<HashMap<Pubkey, ProcessFn>> = RefCell::new(HashMap::new());
    static LAST_CPIS: RefCell<Vec<(Pubkey, Instruction)>> = RefCell::new(vec![]);
    static UB: RefCell<Option<String>> = RefCell::new(None);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static LOGGING: Cell<bool> = Cell::new(false);
    pub static GROW: Cell<usize> = Cell::new(MAX_GROW);
}

pub fn set_clock(ts: i64) { CLOCK.with(|c| c.set(ts)) }
pub fn clock() -> i64 { CLOCK.with(|c| c.get()) }
pub fn register(id: Pubkey, f: ProcessFn) { PROGRAMS.with(|p| { p.borrow_mut().insert(id, f); }) }
/// CPIs performed by the last transaction: (caller program, instruction).
pub fn last_cpis() -> Vec<(Pubkey, Instruction)> { LAST_CPIS.with(|c| c.borrow().clone()) }

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) { if LOGGING.with(|l| l.get()) { eprintln!("log: {}", m) } }
    fn sol_log_compute_units(&self) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let r = cpi(ix, infos, seeds);
        if let Err(e) = &r {
            let e = e.clone();
            CTX.with(|c| if let Some(ctx) = c.borrow_mut().as_mut() {
                if ctx.aborted.is_none() { ctx.aborted = Some(TxErr::Program(e)) }
            });
        }
        r
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock { slot: 1, epoch_start_timestamp: 0, epoch: 1, leader_schedule_epoch: 1, unix_timestamp: clock() };
        unsafe { std::ptr::write_unaligned(p as *mut Clock, c) }
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) }
        0
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        if std::env::var_os("VERIF_DEBUG").is_some() { eprintln!("panic: {}", s) }
        // an internal "cannot happen" that is undefined behaviour in the release build
        if s.contains("unreachable code") && s.contains("critbit.rs") { let _ = UB.try_with(|u| *u.borrow_mut() = Some(s.clone())); }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = s);
    }));
}
pub fn take_ub() -> Option<String> { UB.with(|p| p.borrow_mut().take()) }
pub fn set_last_panic(s: &str) { LAST_PANIC.with(|p| *p.borrow_mut() = s.to_string()) }
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

pub fn min_rent(len: usize) -> u64 { Rent::default().minimum_balance(len) }

fn verify_one(program: &Pubkey, writable: bool, pre: &Snap, lam: u64, owner: &Pubkey, data: &[u8]) -> Result<(), &'static str> {
    if &pre.owner != owner {
        if !writable || &pre.owner != program || data.iter().any(|b| *b != 0) {
            return Err("illegal owner change");
        }
    }
    if pre.lamports != lam {
        if !writable { return Err("read-only lamport change") }
        if lam < pre.lamports && &pre.owner != program { return Err("external lamport spend") }
    }
    if pre.data.len() != data.len() {
        if !(*program == solana_program::system_program::ID && pre.owner == *program) { return Err("data size change") }
    } else if pre.data != data {
        if !writable { return Err("read-only data modified") }
        if &pre.owner != program { return Err("external data modified") }
    }
    Ok(())
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    const PRIV: ProgramError = ProgramError::Custom(0xdead_0001);
    const MISSING: ProgramError = ProgramError::Custom(0xdead_0002);
    const VERIFY: ProgramError = ProgramError::Custom(0xdead_0003);
    let caller = CTX.with(|c| c.borrow().as_ref().unwrap().frames.last().unwrap().program);
    let mut pdas = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => pdas.push(k),
            Err(_) => return Err(PRIV),
        }
    }
    let mut flags: HashMap<Pubkey, (bool, bool)> = HashMap::new();
    for m in &ix.accounts {
        let (cs, cw) = CTX.with(|c| c.borrow().as_ref().unwrap().frames.last().unwrap().flags.get(&m.pubkey).cloned()).ok_or(MISSING)?;
        if m.is_signer && !(cs || pdas.contains(&m.pubkey)) { return Err(PRIV) }
        if m.is_writable && !cw { return Err(PRIV) }
        let e = flags.entry(m.pubkey).or_insert((false, false));
        e.0 |= m.is_signer;
        e.1 |= m.is_writable;
    }
    // the called program must be among the accounts of the calling instruction
    if !CTX.with(|c| c.borrow().as_ref().unwrap().frames.last().unwrap().flags.contains_key(&ix.program_id)) { return Err(MISSING) }
    let mut callee: Vec<AccountInfo> = vec![];
    for m in &ix.accounts {
        let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(MISSING)?;
        let mut i = i.clone();
        let f = flags[&m.pubkey];
        i.is_signer = f.0;
        i.is_writable = f.1;
        callee.push(i);
    }
    // verify what the caller did so far to the accounts involved, then refresh
    let check = |program: &Pubkey, fl: &dyn Fn(&Pubkey) -> bool| -> Result<(), ProgramError> {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let ctx = c.as_mut().unwrap();
            for k in flags.keys() {
                let i = infos.iter().find(|i| i.key == k).unwrap();
                let lam = **i.try_borrow_lamports().map_err(|_| VERIFY)?;
                let data = i.try_borrow_data().map_err(|_| VERIFY)?;
                let owner = unsafe { *ctx.bufs[k].2 };
                let pre = &ctx.pre[k];
                if let Err(_) = verify_one(program, fl(k), pre, lam, &owner, &data) { return Err(VERIFY) }
                ctx.pre.insert(*k, Snap { lamports: lam, owner, data: data.to_vec() });
            }
            Ok(())
        })
    };
    let caller_flags = CTX.with(|c| c.borrow().as_ref().unwrap().frames.last().unwrap().flags.clone());
    check(&caller, &|k| caller_flags.get(k).map_or(false, |f| f.1))?;
    let lam_before: u128 = flags.keys().map(|k| **infos.iter().find(|i| i.key == k).unwrap().lamports.borrow() as u128).sum();
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let ctx = c.as_mut().unwrap();
        ctx.cpis.push((caller, ix.clone()));
        ctx.frames.push(Frame { program: ix.program_id, flags: flags.clone() });
    });
    let r = if ix.program_id == solana_program::system_program::ID {
        system_program(&callee, &ix.data)
    } else {
        match PROGRAMS.with(|p| p.borrow().get(&ix.program_id).cloned()) {
            Some(f) => f(&ix.program_id, &callee, &ix.data),
            None => Err(MISSING),
        }
    };
    CTX.with(|c| c.borrow_mut().as_mut().unwrap().frames.pop());
    r?;
    check(&ix.program_id, &|k| flags[k].1)?;
    let lam_after: u128 = flags.keys().map(|k| **infos.iter().find(|i| i.key == k).unwrap().lamports.borrow() as u128).sum();
    if lam_before != lam_after { return Err(VERIFY) }
    Ok(())
}

/// System program: create_account / assign / transfer / allocate.
fn system_program(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    use solana_program::system_instruction::SystemInstruction as SI;
    let bad = || ProgramError::Custom(0xdead_0010);
    if data.len() < 4 { return Err(bad()) }
    let disc = u32::from_le_bytes([data[0], data[1], data[2], data[3]]);
    let u = |o: usize| -> Result<u64, ProgramError> {
        let b = data.get(o..o + 8).ok_or_else(bad)?;
        let mut a = [0u8; 8];
        a.copy_from_slice(b);
        Ok(u64::from_le_bytes(a))
    };
    let k = |o: usize| -> Result<Pubkey, ProgramError> { Ok(Pubkey::new(data.get(o..o + 32).ok_or_else(bad)?)) };
    let _ = std::mem::size_of::<SI>();
    let transfer = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer || from.data_len() != 0 { return Err(bad()) }
        let f = from.lamports().checked_sub(n).ok_or_else(bad)?;
        **from.try_borrow_mut_lamports()? = f;
        let t = to.lamports().checked_add(n).ok_or_else(bad)?;
        **to.try_borrow_mut_lamports()? = t;
        Ok(())
    };
    let alloc = |a: &AccountInfo, n: u64| -> ProgramResult {
        if !a.is_signer || a.data_len() != 0 || *owner_of(a.key) != solana_program::system_program::ID { return Err(bad()) }
        grow(a, n as usize)
    };
    let assign = |a: &AccountInfo, o: &Pubkey| -> ProgramResult {
        if !a.is_signer || *owner_of(a.key) != solana_program::system_program::ID { return Err(bad()) }
        set_owner(a.key, o);
        Ok(())
    };
    match disc {
        0 => {
            if infos.len() < 2 || infos[1].lamports() > 0 { return Err(bad()) }
            alloc(&infos[1], u(12)?)?;
            transfer(&infos[0], &infos[1], u(4)?)?;
            assign(&infos[1], &k(20)?)
        }
        1 => assign(&infos[0], &k(4)?),
        2 => transfer(&infos[0], &infos[1], u(4)?),
        8 => alloc(&infos[0], u(4)?),
        _ => Err(bad()),
    }
}

fn owner_of(k: &Pubkey) -> &'static Pubkey {
    CTX.with(|c| unsafe { &*c.borrow().as_ref().unwrap().bufs[k].2 })
}
fn set_owner(k: &Pubkey, o: &Pubkey) {
    CTX.with(|c| unsafe { *c.borrow().as_ref().unwrap().bufs[k].2 = *o })
}
fn grow(a: &AccountInfo, n: usize) -> ProgramResult {
    let (p, cap) = CTX.with(|c| { let c = c.borrow(); let b = c.as_ref().unwrap().bufs[a.key]; (b.0, b.1) });
    if n > cap { return Err(ProgramError::Custom(0xdead_0011)) }
    let mut d = a.try_borrow_mut_data()?;
    unsafe {
        std::ptr::write_bytes(p, 0, n);
        *d = std::slice::from_raw_parts_mut(p, n);
    }
    CTX.with(|c| c.borrow_mut().as_mut().unwrap().bufs.get_mut(a.key).unwrap().3 = n);
    Ok(())
}

/// The account's bytes as the chain sees them: the memory itself, whatever a
/// program did to its own view of it.
fn raw_data(k: &Pubkey) -> Vec<u8> {
    CTX.with(|c| { let c = c.borrow(); let b = c.as_ref().unwrap().bufs[k]; unsafe { std::slice::from_raw_parts(b.0 as *const u8, b.3).to_vec() } })
}

struct Slot {
    key: Pubkey,
    lamports: u64,
    owner: Pubkey,
    executable: bool,
    buf: Buf,
    len: usize,
}

/// Account memory of exactly the account's size, so that a memory sanitizer
/// sees every access past its end; 8-byte aligned as on chain.
struct Buf { p: *mut u8, cap: usize }
impl Buf {
    fn new(cap: usize) -> Buf {
        let l = std::alloc::Layout::from_size_align(cap.max(1), 8).unwrap();
        Buf { p: unsafe { std::alloc::alloc_zeroed(l) }, cap }
    }
}
impl Drop for Buf {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.p, std::alloc::Layout::from_size_align(self.cap.max(1), 8).unwrap()) }
    }
}

/// Execute a transaction (all-or-nothing) on the ledger.
pub fn exec(ledger: &mut Ledger, ixs: &[Instruction]) -> Result<(), TxErr> {
    let mut keys: Vec<Pubkey> = vec![];
    let mut seen: HashMap<Pubkey, usize> = HashMap::new();
    for ix in ixs {
        for k in ix.accounts.iter().map(|m| m.pubkey) {
            if !seen.contains_key(&k) {
                seen.insert(k, keys.len());
                keys.push(k);
            }
        }
    }
    let grow_ok = PROGRAMS.with(|p| p.borrow().contains_key(&GROW_MARK));
    let mut slots: Vec<Slot> = keys
        .iter()
        .map(|k| {
            let d = Acct::default();
            let a = ledger.get(k).unwrap_or(&d);
            let cap = if a.data.is_empty() && grow_ok { GROW.with(|g| g.get()) } else { a.data.len() };
            let buf = Buf::new(cap);
            unsafe { std::ptr::copy_nonoverlapping(a.data.as_ptr(), buf.p, a.data.len()) };
            Slot { key: *k, lamports: a.lamports, owner: a.owner, executable: a.executable, buf, len: a.data.len() }
        })
        .collect();
    let mut pre = HashMap::new();
    let mut bufs = HashMap::new();
    for s in slots.iter_mut() {
        let d = unsafe { std::slice::from_raw_parts(s.buf.p as *const u8, s.len) };
        pre.insert(s.key, Snap { lamports: s.lamports, owner: s.owner, data: d.to_vec() });
        let cap = s.buf.cap;
        let p = s.buf.p;
        let o = &mut s.owner as *mut Pubkey;
        bufs.insert(s.key, (p, cap, o, s.len));
    }
    let lam_before: u128 = slots.iter().map(|s| s.lamports as u128).sum();
    CTX.with(|c| *c.borrow_mut() = Some(Ctx { frames: vec![], pre, bufs, aborted: None, cpis: vec![] }));
    let result = (|| -> Result<Vec<(Pubkey, Acct)>, TxErr> {
        // shared cells per unique account
        let cells: Vec<(Rc<RefCell<&mut u64>>, Rc<RefCell<&mut [u8]>>, &Pubkey, &Pubkey, bool)> = slots
            .iter_mut()
            .map(|s| {
                let p = s.buf.p;
                let len = s.len;
                let d: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(p, len) };
                // owner is read through a raw pointer because the system program may reassign it
                let o: &Pubkey = unsafe { &*(&s.owner as *const Pubkey) };
                (Rc::new(RefCell::new(&mut s.lamports)), Rc::new(RefCell::new(d)), &s.key, o, s.executable)
            })
            .collect();
        for ix in ixs {
            let mut flags: HashMap<Pubkey, (bool, bool)> = HashMap::new();
            for m in &ix.accounts {
                let e = flags.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
            let infos: Vec<AccountInfo> = ix
                .accounts
                .iter()
                .map(|m| {
                    let c = &cells[seen[&m.pubkey]];
                    let f = flags[&m.pubkey];
                    AccountInfo {
                        key: c.2,
                        is_signer: f.0,
                        is_writable: f.1,
                        lamports: c.0.clone(),
                        data: c.1.clone(),
                        owner: c.3,
                        executable: c.4,
                        rent_epoch: 0,
                    }
                })
                .collect();
            CTX.with(|c| c.borrow_mut().as_mut().unwrap().frames.push(Frame { program: ix.program_id, flags: flags.clone() }));
            let lam_b: u128 = cells.iter().map(|c| **c.0.borrow() as u128).sum();
            let r = crate::guard::call(|| {
                if ix.program_id == solana_program::system_program::ID {
                    return system_program(&infos, &ix.data);
                }
                match PROGRAMS.with(|p| p.borrow().get(&ix.program_id).cloned()) {
                    Some(f) => f(&ix.program_id, &infos, &ix.data),
                    None => Err(ProgramError::Custom(0xdead_0020)),
                }
            });
            if let Some(e) = CTX.with(|c| c.borrow_mut().as_mut().unwrap().aborted.take()) {
                return Err(e);
            }
            match r {
                Err(_) => return Err(TxErr::Panic(last_panic())),
                Ok(Err(e)) => return Err(TxErr::Program(e)),
                Ok(Ok(())) => {}
            }
            CTX.with(|c| c.borrow_mut().as_mut().unwrap().frames.pop());
            // verify the top-level program's effects and refresh
            for (k, f) in &flags {
                let c = &cells[seen[k]];
                let lam = **c.0.try_borrow().map_err(|_| TxErr::Runtime("leaked borrow"))?;
                drop(c.1.try_borrow().map_err(|_| TxErr::Runtime("leaked borrow"))?);
                let data = raw_data(k);
                let owner = *owner_of(k);
                let res = CTX.with(|cx| verify_one(&ix.program_id, f.1, &cx.borrow().as_ref().unwrap().pre[k], lam, &owner, &data));
                res.map_err(TxErr::Runtime)?;
                CTX.with(|cx| cx.borrow_mut().as_mut().unwrap().pre.insert(*k, Snap { lamports: lam, owner, data }));
            }
            let lam_a: u128 = cells.iter().map(|c| **c.0.borrow() as u128).sum();
            if lam_a != lam_b { return Err(TxErr::Runtime("lamports not conserved")) }
        }
        Ok(cells
            .iter()
            .map(|c| (*c.2, Acct { lamports: **c.0.borrow(), owner: *owner_of(c.2), data: raw_data(c.2), executable: c.4 }))
            .collect())
    })();
    let ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
    LAST_CPIS.with(|c| *c.borrow_mut() = ctx.cpis);
    let out = result?;
    let lam_after: u128 = out.iter().map(|(_, a)| a.lamports as u128).sum();
    if lam_after != lam_before { return Err(TxErr::Runtime("lamports not conserved")) }
    for (k, a) in out {
        if a.lamports == 0 {
            ledger.remove(&k);
        } else {
            ledger.insert(k, a);
        }
    }
    drop(slots);
    Ok(())
}

/// Registering this key switches on growable empty accounts (needed only where
/// programs create accounts through the system program).
pub const GROW_MARK: Pubkey = Pubkey::new_from_array([0xEE; 32]);

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15); r.u64(); r }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn key(&mut self) -> Pubkey {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) { c.copy_from_slice(&self.u64().to_le_bytes()) }
        Pubkey::new_from_array(b)
    }
    /// a different key that agrees with `k` almost everywhere: in all but one word, or all but one byte
    pub fn near(&mut self, k: &Pubkey) -> Pubkey {
        let mut b = k.to_bytes();
        match self.below(6) {
            0 => b[31] ^= 1 + self.below(255) as u8,
            1 => b[0] ^= 1 + self.below(255) as u8,
            2 => b[self.below(32) as usize] ^= 1 << self.below(8),
            3 => { let x = self.u64() | 1; for i in 0..8 { b[24 + i] ^= (x >> (8 * i)) as u8 } }
            4 => { let x = self.u64() | 1; for i in 0..8 { b[i] ^= (x >> (8 * i)) as u8 } }
            _ => { let w = 8 * self.below(4) as usize; let x = self.u64() | 1; for i in 0..8 { b[w + i] ^= (x >> (8 * i)) as u8 } }
        }
        Pubkey::new_from_array(b)
    }
    /// a fresh key: often a near miss of one of `like`
    pub fn key_like(&mut self, like: &[Pubkey]) -> Pubkey {
        if like.is_empty() || self.chance(1, 2) { return self.key() }
        let k = *self.pick(like);
        self.near(&k)
    }
    /// u64 with a heavy tail: random bit width
    pub fn wide(&mut self) -> u64 { let b = self.below(65); if b == 0 { 0 } else { self.u64() >> (64 - b) } }
}
