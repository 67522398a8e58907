fn main() {
    use icacheck::driver as d;
    let v = [d::contract_addr(), format!("wasm.{}", d::contract_addr())].into_iter().chain((0..8).map(d::actor)).collect();
    vcommon::gen::KNOWN.set(v).unwrap();
    std::process::exit(vcommon::runner::main(icacheck::props::all()));
}
