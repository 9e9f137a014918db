fn main() {
    let mut r = contracts::rt::Runner::from_args("C03");
    contracts::c03::register(&mut r);
    r.finish();
}
