fn main() {
    let mut r = contracts::rt::Runner::from_args("C13");
    contracts::c13::register(&mut r);
    r.finish();
}
