fn main() -> std::process::ExitCode {
    vt::run::main()
}
