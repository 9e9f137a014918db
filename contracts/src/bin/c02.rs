fn main() {
    let mut r = contracts::rt::Runner::from_args("C02");
    contracts::c02::register(&mut r);
    r.finish();
}
