use crate::drv::Ctx;

pub struct Prop {
    pub id: &'static str,
    /// number of worker processes
    pub shards: usize,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

pub mod client;
pub mod codec;
pub mod conn;
pub mod containers;
pub mod cookies;
pub mod growth;
pub mod inflate;
pub mod limit;
pub mod live;
pub mod logging;
pub mod observe;
pub mod pool;
pub mod request;
pub mod response;
pub mod routing;
pub mod startup;
pub mod timeprop;
pub mod tokens;
pub mod web;

pub static ALL: &[Prop] = &[
    routing::C01,
    routing::C02,
    request::C03,
    request::C04,
    request::C05,
    request::C06,
    live::C07,
    conn::C08,
    response::C09,
    response::C10,
    conn::C11,
    live::C12,
    live::C13,
    limit::C14,
    pool::C15,
    pool::C16,
    client::C17,
    client::C18,
    cookies::C19,
    containers::C20,
    codec::C21,
    codec::C22,
    timeprop::C23,
    tokens::C24,
    tokens::C25,
    logging::C26,
    client::C27,
    startup::C28,
    startup::C29,
    growth::C30,
];
