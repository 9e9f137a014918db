fn main() {
    let mut r = contracts::rt::Runner::from_args("C10");
    contracts::c10::register(&mut r);
    r.finish();
}
