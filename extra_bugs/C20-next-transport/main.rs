use chopper::input::input_factory::InputFactory; use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::source::csv_configs::*; use chopper::util::tz::ChopperTz; use chopper::cli::util::YesNoAuto;
#[derive(Clone)] struct T; impl StreamingTransport for T { fn can_open(&self, _: &std::path::Path) -> bool { true } fn open(&self, _: &std::path::Path) -> std::io::Result<Box<dyn std::io::Read>> { Err(std::io::Error::new(std::io::ErrorKind::Other, "no")) }
 fn box_clone(&self) -> Box<dyn StreamingTransport> { Box::new(self.clone()) } fn name(&self) -> &str { "t" } }
fn main() {
  std::fs::write("a.csv", "time,a\n1000000000000000000,x\n").unwrap();
  let ts = TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Auto, ChopperTz::new_always_fails());
  let mut f = InputFactory::new(CSVInputConfig::new(None, YesNoAuto::Auto, ts).unwrap(), None, Some(vec![Box::new(T)])).unwrap();
  if f.create_source_from_path("a.csv").is_ok() { eprintln!("opened through another transport"); std::process::exit(1); }
}
