fn main() {
    let mut r = contracts::rt::Runner::from_args("C17");
    contracts::c17::register(&mut r);
    r.finish();
}
