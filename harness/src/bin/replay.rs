//! Replays one input stream through a harness compiled for the host: replay <entry> <hex>
use harness::sym;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let hex = a.get(2).map(|s| s.as_str()).unwrap_or("");
    let input: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    sym::S.lock().unwrap().input = input;
    std::panic::set_hook(Box::new(|p| {
        let loc = p.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        sym::finish("panic", 0, &format!("{} at {}", p.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(p.payload().downcast_ref::<String>().cloned()).unwrap_or_default(), loc));
    }));
    let f = harness::TABLE.iter().find(|(n, _)| *n == a[1]).expect("no such entry").1;
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || f()).unwrap();
    let _ = h.join();
    sym::finish("ok", 0, "");
}
