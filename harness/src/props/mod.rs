//! The checks, by property.
use crate::engine::Prop;

pub mod client;
pub mod conn;
pub mod errors;
pub mod frames;
pub mod longrun;
pub mod messages;
pub mod pair;
pub mod patience;
pub mod robust;
pub mod serve;
pub mod server;
pub mod tcp;
pub mod tls;
pub mod wire;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(frames::props());
    v.extend(messages::props());
    v.extend(server::props());
    v.extend(client::props());
    v.extend(robust::props());
    v.extend(errors::props());
    v.extend(conn::props());
    v.extend(tcp::props());
    v.extend(tls::props());
    v.extend(serve::props());
    v.extend(longrun::props());
    v.extend(patience::props());
    v.extend(pair::props());
    v
}

/// Hidden mode: prints material for cross-process freshness checks.
pub fn child(what: &str) {
    match what {
        "masks" => frames::child_masks(),
        "keys" => client::child_keys(),
        _ => {}
    }
}
