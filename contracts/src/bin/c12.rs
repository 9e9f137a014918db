fn main() {
    let mut r = contracts::rt::Runner::from_args("C12");
    contracts::c12::register(&mut r);
    r.finish();
}
