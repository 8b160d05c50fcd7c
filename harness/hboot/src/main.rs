#![allow(dead_code)]
mod net;
mod p_boot;
mod p_github;

fn main() {
    // no proxy for the loopback server, and no certificates to load for every client
    for v in ["http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    let mut props = vec![];
    props.extend(p_boot::props());
    props.extend(p_github::props());
    vkit::main(props)
}
