fn main() {
    let mut r = contracts::rt::Runner::from_args("C22");
    contracts::c22::register(&mut r);
    r.finish();
}
