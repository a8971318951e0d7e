use chopper::util::tz::ChopperTz; use std::collections::HashMap;
fn main() { let mut m = HashMap::new(); m.insert("NY", chrono_tz::America::New_York); m.insert("ny", chrono_tz::Asia::Tokyo);
  let t = ChopperTz::new_from_cli_arg(Some("ny"), Some(m)).unwrap();
  let d = chrono::NaiveDate::from_ymd(2020, 1, 1).and_hms(0, 0, 0);
  if t.from_local_datetime(&d).unwrap().timestamp() != 1577836800 - 9 * 3600 { std::process::exit(1) } }
