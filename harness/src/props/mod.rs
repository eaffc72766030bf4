mod cross;
mod history;
mod iface;
mod systems;
mod teams;

use crate::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(cross::props());
    v.extend(teams::props());
    v.extend(iface::props());
    v.extend(history::props());
    v.extend(systems::props());
    v
}
