//! One monitor per property.
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;

use crate::driver::{Agg, Config};

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    /// Replay only this case.
    pub only: Option<u64>,
}

impl Ctx {
    /// A driver configuration running `quick` or `thorough` cases.
    pub fn config(&self, quick: u64, thorough: u64) -> Config {
        let scale: f64 = std::env::var("LSMON_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let n = ((if self.thorough { thorough } else { quick }) as f64 * scale) as u64;
        let wall = if self.thorough { 780 } else { 240 };
        let mut c = Config { cases: n, wall: std::time::Duration::from_secs(wall), ..Config::default() };
        if let Some(i) = self.only {
            c.first = i;
            c.cases = 1;
            c.threads = 1;
        }
        c
    }
}

pub struct Report {
    pub agg: Agg,
    /// How cases are made and what makes one non-trivial.
    pub rule: String,
    pub assumptions: Vec<String>,
    /// Exhausting the work budget refutes the property (otherwise: inconclusive).
    pub runaway_is_violation: bool,
    /// Description of a case, for replay files of runaways.
    pub describe: Box<dyn Fn(u64) -> String>,
}

pub fn run(ctx: &Ctx) -> Option<Report> {
    Some(match ctx.id.as_str() {
        "C01" => c01::run(ctx),
        "C02" => c02::run(ctx),
        "C03" => c03::run(ctx),
        "C04" => c04::run(ctx),
        "C05" => c05::run(ctx),
        "C06" => c06::run(ctx),
        "C07" => c07::run(ctx),
        "C08" => c08::run(ctx),
        "C09" => c09::run(ctx),
        "C10" => c10::run(ctx),
        "C11" => c11::run(ctx),
        "C12" => c12::run(ctx),
        "C13" => c13::run(ctx),
        "C14" => c14::run(ctx),
        "C15" => c15::run(ctx),
        "C16" => c16::run(ctx),
        "C17" => c17::run(ctx),
        "C18" => c18::run(ctx),
        "C19" => c19::run(ctx),
        "C20" => c20::run(ctx),
        "C21" => c21::run(ctx),
        "C22" => c22::run(ctx),
        _ => return None,
    })
}
