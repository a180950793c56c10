fn main() {
    prmon::cli(prmon::props::all());
}
