#![allow(dead_code)]
mod net;
mod p_config;
mod p_graph;
mod p_index;
mod p_install;
mod p_scan;
mod world;

fn main() {
    let mut props = vec![];
    props.extend(p_scan::props());
    props.extend(p_graph::props());
    props.extend(p_config::props());
    props.extend(p_index::props());
    props.extend(p_install::props());
    vkit::main(props)
}
