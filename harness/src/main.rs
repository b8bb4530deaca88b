// the interpreter keeps its own account of memory
#[cfg(not(miri))]
#[global_allocator]
static A: ctverify::alloc::Counting = ctverify::alloc::Counting;

fn main() {
    std::process::exit(ctverify::runner::main(ctverify::props::all()));
}
