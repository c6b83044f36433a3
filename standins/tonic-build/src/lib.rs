//! Stand-in for `tonic-build`: the protocol's submodule is empty in this checkout, so the
//! types are written out by hand (from how the crate uses them) instead of generated.
use std::io;
use std::path::Path;
pub fn compile_protos(_proto: impl AsRef<Path>) -> io::Result<()> {
    let out = std::env::var("OUT_DIR").map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
    std::fs::write(Path::new(&out).join("ecdar_proto_buf.rs"), include_str!("ecdar_proto_buf.rs.in"))
}
