#![allow(dead_code)]
#[path = "../../hasset/src/gen_exports.rs"]
mod gen_exports;
#[path = "../../hasset/src/gen_props.rs"]
mod gen_props;
#[path = "../../hasset/src/kismet.rs"]
mod kismet;
mod mini;
#[path = "../../hasset/src/model.rs"]
mod model;
mod p_actors;
#[path = "../../hasset/src/p_containers.rs"]
mod p_containers;
mod p_integ;
#[path = "../../hasset/src/pkg.rs"]
mod pkg;
#[path = "../../hasset/src/view.rs"]
mod view;
#[path = "../../hasset/src/view_exports.rs"]
mod view_exports;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "limited" {
        return p_integ::limited(args[2].parse().unwrap());
    }
    let mut props = vec![];
    props.extend(p_integ::props());
    props.extend(p_actors::props());
    vkit::main(props)
}
