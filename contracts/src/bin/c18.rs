fn main() {
    let mut r = contracts::rt::Runner::from_args("C18");
    contracts::c18::register(&mut r);
    r.finish();
}
