// C19: the Rust surface.
extern crate chiavdf;
use std::io::{BufRead, Write};
fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![]; } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn main() {
    let stdin = std::io::stdin(); let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap(); let t: Vec<&str> = line.split_whitespace().collect(); if t.is_empty() { continue; }
        let r = match t[0] {
            "create" => { let n: usize = t[2].parse::<usize>().unwrap() / 8; let mut v = vec![0u8; n]; if chiavdf::create_discriminant(&unhex(t[1]), &mut v) { format!("ok:{}", hex(&v)) } else { "fail".to_string() } }
            "prove" => match chiavdf::prove(&unhex(t[1]), &unhex(t[2]), t[3].parse().unwrap(), t[4].parse().unwrap()) { Some(v) => format!("ok:{}", hex(&v)), None => "fail".to_string() },
            "verify" => format!("{}", chiavdf::verify_n_wesolowski(&unhex(t[1]), &unhex(t[2]), &unhex(t[3]), t[4].parse().unwrap(), t[5].parse().unwrap())),
            _ => "?".to_string(),
        };
        let mut o = out.lock(); writeln!(o, "{}", r).unwrap(); o.flush().unwrap();
    }
}
