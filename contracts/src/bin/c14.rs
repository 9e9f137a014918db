fn main() {
    let mut r = contracts::rt::Runner::from_args("C14");
    contracts::c14::register(&mut r);
    r.finish();
}
