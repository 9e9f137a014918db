fn main() {
    let mut r = contracts::rt::Runner::from_args("C04");
    contracts::c04::register(&mut r);
    r.finish();
}
