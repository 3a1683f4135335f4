//! Crashes of the whole process (stack overflows, aborts) are verdicts, too: a check runs in a
//! child process, which leaves a note of the cases that it's working on.
use std::os::unix::{fs::FileExt, process::ExitStatusExt};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::{
    atomic::{AtomicU64, Ordering},
    OnceLock,
};

const NOTES: &str = "LSMON_NOTES";
const MAX: u64 = 256;

/// Called before each case.
pub fn working_on(i: u64) {
    static FILE: OnceLock<Option<std::fs::File>> = OnceLock::new();
    static NEXT: AtomicU64 = AtomicU64::new(0);
    thread_local!(static MINE: u64 = NEXT.fetch_add(1, Ordering::SeqCst));
    let f = FILE.get_or_init(|| std::fs::OpenOptions::new().write(true).open(std::env::var_os(NOTES)?).ok());
    let k = MINE.with(|k| *k);
    if let (Some(f), true) = (f, k < MAX) {
        let _ = f.write_at(&(i + 1).to_le_bytes(), 8 * k);
    }
}

fn run(args: &[String], notes: &std::path::Path, quiet: bool) -> ExitStatus {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("check").args(args).env(NOTES, notes);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    c.status().expect("can't run myself")
}

fn crashed(s: ExitStatus) -> bool {
    // Not those that come from outside.
    matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11))
}

pub fn watch(args: &[String]) -> ! {
    if std::env::var_os(NOTES).is_some() {
        crate::report::main(args);
    }
    let notes = std::env::temp_dir().join(format!("lsmon-{}", std::process::id()));
    let _ = std::fs::write(&notes, []);
    let s = run(args, &notes, false);
    let seen = std::fs::read(&notes).unwrap_or_default();
    if !crashed(s) {
        let _ = std::fs::remove_file(&notes);
        std::process::exit(s.code().unwrap_or(2));
    }
    let mut cases: Vec<u64> = seen.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).filter(|i| *i > 0).map(|i| i - 1).collect();
    cases.sort();
    cases.dedup();
    let mut base: Vec<String> = args.to_vec();
    if let Some(k) = base.iter().position(|a| a == "--case") {
        base.drain(k..(k + 2).min(base.len()));
    }
    let one = |i: u64| base.iter().cloned().chain(["--case".to_string(), i.to_string()]).collect::<Vec<_>>();
    let bad = cases.iter().copied().find(|i| crashed(run(&one(*i), &notes, true)));
    let _ = std::fs::remove_file(&notes);
    let id = args.first().cloned().unwrap_or_default();
    let _ = std::fs::create_dir_all("evidence/replay");
    let path = format!("evidence/replay/{id}-crash.txt");
    let how = format!("the process crashed ({s})");
    let text = match bad {
        Some(i) => format!("property {id}\nreplay: cd /verif && ./check.sh {}\n{how} in case {i}\n", one(i).join(" ")),
        None => format!("property {id}\nreplay: cd /verif && ./check.sh {}\n{how} during one of the cases {cases:?}\n", args.join(" ")),
    };
    let _ = std::fs::write(&path, &text);
    println!("VIOLATION property={id} replay={path}");
    println!("  {}", text.lines().last().unwrap_or_default());
    std::process::exit(1);
}
