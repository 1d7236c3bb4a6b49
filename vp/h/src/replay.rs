#[cfg(not(vp_symx))]
fn main() {
    nd::replay_main(&vph::table());
}
#[cfg(vp_symx)]
fn main() {}
