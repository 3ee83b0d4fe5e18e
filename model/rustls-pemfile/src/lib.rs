//! Model of `rustls-pemfile` on top of `rustls-pki-types`' PEM reader.
use rustls_pki_types::{pem::PemObject, CertificateDer, PrivatePkcs1KeyDer, PrivatePkcs8KeyDer};
use std::io::{BufRead, Error, ErrorKind};

fn err(e: rustls_pki_types::pem::Error) -> Error {
    Error::new(ErrorKind::InvalidData, format!("{:?}", e))
}
fn slurp(rd: &mut dyn BufRead) -> Vec<u8> {
    let mut v = Vec::new();
    let _ = rd.read_to_end(&mut v);
    v
}
/// Everything up to the first error.
fn all<T>(it: impl Iterator<Item = Result<T, rustls_pki_types::pem::Error>>) -> std::vec::IntoIter<Result<T, Error>> {
    let mut v = Vec::new();
    for r in it {
        let bad = r.is_err();
        v.push(r.map_err(err));
        if bad {
            break;
        }
    }
    v.into_iter()
}
pub fn certs(rd: &mut dyn BufRead) -> impl Iterator<Item = Result<CertificateDer<'static>, Error>> + '_ {
    let data = slurp(rd);
    all(CertificateDer::pem_slice_iter(&data))
}
pub fn pkcs8_private_keys(
    rd: &mut dyn BufRead,
) -> impl Iterator<Item = Result<PrivatePkcs8KeyDer<'static>, Error>> + '_ {
    let data = slurp(rd);
    all(PrivatePkcs8KeyDer::pem_slice_iter(&data))
}
pub fn rsa_private_keys(
    rd: &mut dyn BufRead,
) -> impl Iterator<Item = Result<PrivatePkcs1KeyDer<'static>, Error>> + '_ {
    let data = slurp(rd);
    all(PrivatePkcs1KeyDer::pem_slice_iter(&data))
}
