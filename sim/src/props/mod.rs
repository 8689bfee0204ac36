use crate::core::Prop;
pub mod biq;
pub mod delay;
pub mod env;
pub mod memory;
pub mod osc;
pub mod preempt;
pub mod crash;
pub mod reentry;
pub mod reverb;
pub mod rt;
pub mod patch;
pub mod arch;

static ALL: [&dyn Prop; 22] = [
    &memory::C01,
    &preempt::C02,
    &reentry::C03,
    &delay::C04,
    &delay::C05,
    &reverb::C06,
    &reverb::C07,
    &reverb::C08,
    &env::C09,
    &env::C10,
    &env::C11,
    &osc::C12,
    &osc::C13,
    &osc::C14,
    &biq::C15,
    &biq::C16,
    &biq::C17,
    &memory::C18,
    &crash::C19,
    &rt::C20,
    &patch::C21,
    &arch::C22,
];
pub fn all() -> impl Iterator<Item = &'static dyn Prop> {
    ALL.iter().copied()
}
