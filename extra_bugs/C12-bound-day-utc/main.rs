fn main() { if chopper::util::timestamp_util::parse_datetime_range_element("201901", &chopper::util::tz::ChopperTz::new_always_fails()).is_ok() { std::process::exit(1) } }
