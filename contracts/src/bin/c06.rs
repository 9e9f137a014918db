fn main() {
    let mut r = contracts::rt::Runner::from_args("C06");
    contracts::c06::register(&mut r);
    r.finish();
}
