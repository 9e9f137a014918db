fn main() {
    let mut r = contracts::rt::Runner::from_args("C11");
    contracts::c11::register(&mut r);
    r.finish();
}
