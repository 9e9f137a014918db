fn main() {
    let mut r = contracts::rt::Runner::from_args("C07");
    contracts::c07::register(&mut r);
    r.finish();
}
