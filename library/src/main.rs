//! The crate as other contracts use it: helper API (C19) and packet building / acknowledgement reading (C21), in every
//! feature combination without the entry points, and (feature `full`) next to the contract itself. Feature `channel`
//! builds the check of the channel and state building blocks (C26) alone.
#[cfg(not(feature = "channel"))]
mod api;
#[cfg(feature = "channel")]
mod channel;
#[cfg(not(any(feature = "full", feature = "channel")))]
mod packets;
#[cfg(not(feature = "channel"))]
mod req;

use vcommon::runner::Property;

fn main() {
    #[allow(unused_mut)]
    let mut ps: Vec<Property> = vec![];
    #[cfg(not(feature = "channel"))]
    ps.push(api::property());
    #[cfg(not(any(feature = "full", feature = "channel")))]
    ps.push(packets::property());
    #[cfg(feature = "channel")]
    ps.push(channel::property());
    std::process::exit(vcommon::runner::main(ps));
}
