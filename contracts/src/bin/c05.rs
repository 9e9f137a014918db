fn main() {
    let mut r = contracts::rt::Runner::from_args("C05");
    contracts::c05::register(&mut r);
    r.finish();
}
