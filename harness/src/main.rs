mod api;
mod envprogs;
mod exec;
mod native;
mod world;

fn main() {
    std::env::set_var("RUST_LOG", "off");
    native::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.iter().map(|x| x.as_str()).collect::<Vec<_>>()[..] {
        ["exec", i, o] => exec::main(i, o),
        ["api", i, o] => api::main(i, o),
        _ => {
            eprintln!("usage: twharness exec IN OUT");
            std::process::exit(2);
        }
    }
}
