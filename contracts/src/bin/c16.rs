fn main() {
    let mut r = contracts::rt::Runner::from_args("C16");
    contracts::c16::register(&mut r);
    r.finish();
}
