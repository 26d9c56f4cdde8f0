#[global_allocator]
static A: sx::native::Watcher = sx::native::Watcher;
#[cfg(feature = "models")]
use hk::TABLES;
#[cfg(not(feature = "models"))]
use hk_real::TABLES;
fn main() { sx::native::main(TABLES) }
