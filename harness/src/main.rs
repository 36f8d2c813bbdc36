fn main() {
    verif_harness::runner::main();
}
