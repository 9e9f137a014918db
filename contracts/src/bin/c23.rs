fn main() {
    let mut r = contracts::rt::Runner::from_args("C23");
    contracts::c23::register(&mut r);
    r.finish();
}
