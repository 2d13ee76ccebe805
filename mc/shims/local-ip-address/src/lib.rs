//! The sandbox has no usable interface: the local address is the loopback one.
use std::net::{IpAddr, Ipv4Addr};

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no local address")
    }
}
impl std::error::Error for Error {}

pub fn local_ip() -> Result<IpAddr, Error> {
    Ok(IpAddr::V4(Ipv4Addr::LOCALHOST))
}
