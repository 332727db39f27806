#[path = "../../../common/replay.rs"]
mod replay;
fn main() { replay::main_with(stress_harness::TABLE) }
