#![allow(dead_code, unused_imports, unused_mut, unused_variables)]
mod rt; mod stats; mod drive; mod abs; mod abi; mod pool;
fn main() {
    rt::register(spl_token::ID, pool::token_program);
    rt::register(pool::SIMPLE, pool::simple_program);
    rt::register(pool::PARAM, pool::param_program);
    rt::register(pool::RETBUF, pool::retbuf_program);
    #[cfg(feature = "admin")] rt::register(pool::ADMIN, pool::admin_program);
    rt::install();
    pool::lab::scenario();
    println!("ok");
}
