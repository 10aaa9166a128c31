pub mod advertiser;
pub mod apart;
#[cfg(feature = "net")]
pub mod asyncs;
pub mod clients;
pub mod codec;
#[cfg(feature = "net")]
pub mod discovery;
#[cfg(feature = "net")]
pub mod e2e;
#[cfg(feature = "net")]
pub mod group;
pub mod memory;
pub mod names;
#[cfg(feature = "net")]
pub mod resolver;
pub mod service;
#[cfg(feature = "net")]
pub mod soak;
#[cfg(feature = "net")]
pub mod sockets;
#[cfg(feature = "net")]
pub mod signals;
#[cfg(feature = "net")]
pub mod faults;
#[cfg(feature = "net")]
pub mod steady;
#[cfg(feature = "net")]
pub mod tap;

use crate::mon::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(codec::props());
    v.extend(names::props());
    v.extend(apart::props());
    v.extend(clients::props());
    v.extend(advertiser::props());
    v.extend(service::props());
    v.extend(memory::props());
    #[cfg(feature = "net")]
    v.extend(resolver::props());
    #[cfg(feature = "net")]
    v.extend(discovery::props());
    #[cfg(feature = "net")]
    v.extend(sockets::props());
    #[cfg(feature = "net")]
    v.extend(e2e::props());
    #[cfg(feature = "net")]
    v.extend(tap::props());
    #[cfg(feature = "net")]
    v.extend(asyncs::props());
    #[cfg(feature = "net")]
    v.extend(steady::props());
    #[cfg(feature = "net")]
    v.extend(signals::props());
    #[cfg(feature = "net")]
    v.extend(faults::props());
    #[cfg(feature = "net")]
    v.extend(group::props());
    v
}
