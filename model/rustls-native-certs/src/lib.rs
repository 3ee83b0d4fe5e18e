//! Model of `rustls-native-certs`: reads `SSL_CERT_FILE` when set.
use rustls_pki_types::{pem::PemObject, CertificateDer};
pub fn load_native_certs() -> Result<Vec<CertificateDer<'static>>, std::io::Error> {
    let Some(path) = std::env::var_os("SSL_CERT_FILE") else { return Ok(vec![]) };
    let data = std::fs::read(path)?;
    Ok(CertificateDer::pem_slice_iter(&data).filter_map(|r| r.ok()).collect())
}
