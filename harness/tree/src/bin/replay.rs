#[path = "../../../common/replay.rs"]
mod replay;
fn main() { replay::main_with(tree_harness::TABLE) }
