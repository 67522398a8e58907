//! Parts of the harness that do not depend on the code under test: protobuf wire codec, generators, the independent
//! "host chain" reading of messages/queries/responses, and the runner that generates, shrinks and reports.
pub mod callbacks;
pub mod gen;
pub mod host;
pub mod meta;
pub mod msgs;
pub mod pb;
pub mod queries;
pub mod resp;
pub mod runner;

pub fn b64(b: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::STANDARD.encode(b)
}
pub fn unb64(s: &str) -> Result<Vec<u8>, String> {
    use base64::Engine;
    base64::engine::general_purpose::STANDARD.decode(s).map_err(|e| format!("bad base64: {e}"))
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
