//! replay HARNESS HEX..: 0 the contract holds on these values, 1 it fails (the message says what)
fn main() {
    #[cfg(not(kani))]
    {
        let a: Vec<String> = std::env::args().collect();
        let hex = |s: &String| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        if let Err(m) = bits::replay(&a[1], a[2..].iter().map(hex).collect()) {
            println!("{}", m);
            std::process::exit(1)
        }
    }
}
