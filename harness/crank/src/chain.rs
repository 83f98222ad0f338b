//! A Solana node as its clients see it: JSON-RPC over HTTP in front of the
//! in-memory chain, with transaction rules (size, signatures, blockhash,
//! at-most-once) applied before the real programs run.
use crate::abs::*;
use crate::rt::*;
use crate::world::*;
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::transaction::Transaction;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

pub const PACKET: usize = 1232;
pub type Reply = Result<Value, (i64, String)>;
pub trait Node: Send + 'static {
    fn handle(&mut self, method: &str, params: &Value) -> Reply;
}

pub fn setup() {
    setup_thread();
    register(GROW_MARK, evil_program);
    GROW.with(|g| g.set(1 << 21));
}

pub struct Server { pub url: String, pub port: u16, stop: Arc<AtomicBool>, join: Option<std::thread::JoinHandle<()>> }
impl Server {
    pub fn start<N: Node>(node: Arc<Mutex<N>>) -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        let stop = Arc::new(AtomicBool::new(false));
        let s2 = stop.clone();
        let join = std::thread::spawn(move || {
            let mut conns: Vec<(TcpStream, std::thread::JoinHandle<()>)> = vec![];
            for c in l.incoming() {
                if s2.load(Ordering::SeqCst) { break }
                let Ok(c) = c else { continue };
                let _ = c.set_nodelay(true);
                let n = node.clone();
                let Ok(c2) = c.try_clone() else { continue };
                conns.push((c2, std::thread::spawn(move || serve(c, n))));
                conns.retain(|x| !x.1.is_finished());
            }
            for (c, j) in conns { let _ = c.shutdown(std::net::Shutdown::Both); let _ = j.join(); }
        });
        Server { url: format!("http://127.0.0.1:{}", port), port, stop, join: Some(join) }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(j) = self.join.take() { let _ = j.join(); }
    }
}

fn serve<N: Node>(mut c: TcpStream, node: Arc<Mutex<N>>) {
    setup();
    let mut buf: Vec<u8> = vec![];
    let mut tmp = vec![0u8; 1 << 16];
    loop {
        let (head, len) = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                let h = String::from_utf8_lossy(&buf[..p]).to_lowercase();
                let n = h.lines().find_map(|l| l.strip_prefix("content-length:")).and_then(|x| x.trim().parse::<usize>().ok()).unwrap_or(0);
                if buf.len() >= p + 4 + n { break (p + 4, n) }
            }
            match c.read(&mut tmp) { Ok(0) | Err(_) => return, Ok(n) => buf.extend_from_slice(&tmp[..n]) }
        };
        let body: Value = serde_json::from_slice(&buf[head..head + len]).unwrap_or(Value::Null);
        buf.drain(..head + len);
        let id = body["id"].clone();
        let m = body["method"].as_str().unwrap_or("").to_string();
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| node.lock().unwrap().handle(&m, &body["params"]))) { Ok(r) => r, Err(_) => Err((-32603, format!("observer failed: {}", last_panic()))) };
        let out = match r {
            Ok(v) => json!({"jsonrpc": "2.0", "result": v, "id": id}),
            Err((code, msg)) => json!({"jsonrpc": "2.0", "error": {"code": code, "message": msg}, "id": id}),
        }
        .to_string();
        let h = format!("HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n", out.len());
        if c.write_all(h.as_bytes()).and_then(|_| c.write_all(out.as_bytes())).is_err() { return }
    }
}

pub fn acct_json(a: Option<&Acct>) -> Value {
    match a {
        None => Value::Null,
        Some(a) => json!({"lamports": a.lamports, "owner": a.owner.to_string(), "data": [base64::encode(&a.data), "base64"], "executable": a.executable, "rentEpoch": 0}),
    }
}
pub fn key_param(p: &Value) -> Option<Pubkey> { p[0].as_str().and_then(|s| s.parse().ok()) }

/// the transaction, if a node would let it in
pub fn decode_tx(text: &str, b64: bool) -> Result<Transaction, String> {
    let raw = if b64 { base64::decode(text).map_err(|e| e.to_string())? } else { bs58::decode(text).into_vec().map_err(|e| e.to_string())? };
    if raw.len() > PACKET { return Err(format!("base64 encoded too large: {} bytes (max: encoded/raw 1644/{})", raw.len(), PACKET)) }
    let tx: Transaction = bincode::deserialize(&raw).map_err(|e| e.to_string())?;
    use solana_sdk::sanitize::Sanitize;
    tx.sanitize().map_err(|e| format!("invalid transaction: {:?}", e))?;
    Ok(tx)
}
/// its instructions with the privileges the message gives each account
pub fn tx_ixs(tx: &Transaction) -> Vec<Instruction> { msg_ixs(&tx.message) }
pub fn msg_ixs(m: &solana_sdk::message::Message) -> Vec<Instruction> {
    m.instructions
        .iter()
        .map(|i| Instruction {
            program_id: m.account_keys[i.program_id_index as usize],
            accounts: i.accounts.iter().map(|a| { let a = *a as usize; AccountMeta { pubkey: m.account_keys[a], is_signer: m.is_signer(a), is_writable: m.is_writable(a) } }).collect(),
            data: i.data.clone(),
        })
        .collect()
}
pub fn base_reply(method: &str, p: &Value) -> Option<Reply> {
    match method {
        "getVersion" => Some(Ok(json!({"solana-core": "1.10.3", "feature-set": 1}))),
        "getMinimumBalanceForRentExemption" => Some(Ok(json!(min_rent(p[0].as_u64().unwrap_or(0) as usize)))),
        _ => None,
    }
}
pub fn evq(l: &Ledger, k: &Pubkey) -> Result<EvQ, String> { EvQ::parse(&l.get(k).ok_or("no event queue")?.data) }
