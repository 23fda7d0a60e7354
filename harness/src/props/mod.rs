#[cfg(feature = "std")]
use crate::runner::Property;
#[cfg(not(feature = "std"))]
mod bare;
mod crypto;
mod hs;
#[cfg(feature = "std")]
mod io;
mod secrets;
#[cfg(feature = "std")]
mod traffic;

#[cfg(not(feature = "std"))]
pub use bare::properties as all;

#[cfg(feature = "std")]
pub fn all() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(crypto::properties());
    v.extend(hs::properties());
    v.extend(io::properties());
    v.extend(traffic::properties());
    v.extend(secrets::properties());
    v.sort_by_key(|p| p.id);
    v
}
