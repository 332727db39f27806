#[path = "../../../common/replay.rs"]
mod replay;
fn main() { replay::main_with(editor_harness::TABLE) }
