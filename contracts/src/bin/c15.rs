fn main() {
    let mut r = contracts::rt::Runner::from_args("C15");
    contracts::c15::register(&mut r);
    r.finish();
}
