fn main() {
    let mut r = contracts::rt::Runner::from_args("C19");
    contracts::c19::register(&mut r);
    r.finish();
}
