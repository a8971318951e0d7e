fn main() { let r = std::panic::catch_unwind(|| chopper::util::tz::ChopperTz::new_from_cli_arg(Some("ab\u{e9}cd"), None).is_err()); match r { Ok(true) => (), _ => std::process::exit(1) } }
