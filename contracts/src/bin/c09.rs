fn main() {
    let mut r = contracts::rt::Runner::from_args("C09");
    contracts::c09::register(&mut r);
    r.finish();
}
