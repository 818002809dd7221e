#![allow(non_snake_case, dead_code, unused_macros, unused_imports, unused_variables, unused_mut)]
extern crate aeonflux;
extern crate bincode;
extern crate curve25519_dalek;
extern crate merlin;
extern crate rand;
extern crate rand_core;
#[macro_use]
extern crate serde;
extern crate serde_json;
extern crate sha2;
extern crate signal_credential;
extern crate symcore;

pub mod sym;
#[macro_use]
mod statements;
mod nizk;
mod scenarios;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let name = &args[1];
    rand::set_symbolic_entropy(|d: &mut [u8]| symcore::entropy("thread", d));
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or(String::new());
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => info.payload().downcast_ref::<String>().cloned().unwrap_or(String::new()),
        };
        symcore::finish("PANIC", &format!("{} at {}", msg, loc))
    }));
    symcore::with(|s| {
        if cfg!(feature = "conc") {
            let t = std::fs::read_to_string(&args[2]).unwrap();
            for l in t.lines() {
                let mut b = [0u8; 32];
                for i in 0..32 { b[i] = u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap(); }
                s.tape.push(b);
            }
        } else if args.len() > 2 {
            s.prefix = args[2].chars().map(|c| c == 'T').collect();
        }
    });
    if name == "--list" {
        for s in nizk::list().iter().chain(scenarios::list().iter()) { println!("{}", s.0); }
        return;
    }
    let all = nizk::list().into_iter().chain(scenarios::list().into_iter());
    for s in all {
        if s.0 == *name { (s.1)(); symcore::finish("OK", ""); }
    }
    eprintln!("no scenario {}", name);
    std::process::exit(2);
}
