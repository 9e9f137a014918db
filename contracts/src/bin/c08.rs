fn main() {
    let mut r = contracts::rt::Runner::from_args("C08");
    contracts::c08::register(&mut r);
    r.finish();
}
