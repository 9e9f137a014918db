fn main() {
    let mut r = contracts::rt::Runner::from_args("C01");
    contracts::c01::register(&mut r);
    r.finish();
}
