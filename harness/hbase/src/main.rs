mod p_faults;
mod p_helpers;
mod p_meta;
mod p_pak;
mod pak_ref;

fn main() {
    let mut props = vec![];
    props.extend(p_pak::props());
    props.extend(p_helpers::props());
    props.extend(p_meta::props());
    props.extend(p_faults::props());
    vkit::main(props)
}
