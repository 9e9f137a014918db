fn main() {
    let mut r = contracts::rt::Runner::from_args("C20");
    contracts::c20::register(&mut r);
    r.finish();
}
