fn main() {
    let mut r = contracts::rt::Runner::from_args("C21");
    contracts::c21::register(&mut r);
    r.finish();
}
