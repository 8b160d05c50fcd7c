mod gen_exports;
mod gen_props;
mod kismet;
mod model;
mod p_asset;
mod p_containers;
mod p_damage;
mod p_edit;
mod p_faults;
mod p_misc;
mod p_registry;
mod p_usmap;
mod pkg;
mod view;
mod view_exports;

fn main() {
    let mut props = vec![];
    props.extend(p_containers::props());
    props.extend(p_asset::props());
    props.extend(p_edit::props());
    props.extend(p_misc::props());
    props.extend(p_damage::props());
    props.extend(p_registry::props());
    props.extend(p_usmap::props());
    props.extend(p_faults::props());
    vkit::main(props)
}
