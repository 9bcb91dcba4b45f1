//! Executions in processes of their own: what kills a process or never ends is a result like any other.
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const INNER: &str = "PCISIM_INNER";
pub const TRACE: &str = "PCISIM_TRACE";

pub enum End {
    /// exit code and what it printed
    Code(i32, String),
    Killed(i32),
    Slow,
    None,
}

pub fn inner() -> bool {
    std::env::var_os(INNER).is_some()
}

/// Executes this program again. Its output goes to ours, or to a file that is read at the end.
pub fn run(args: &[String], trace: Option<&str>, limit: Option<Duration>, keep: Option<&str>) -> End {
    let Ok(exe) = std::env::current_exe() else { return End::None };
    let mut c = Command::new(exe);
    c.args(args).env(INNER, "1").stdin(Stdio::null());
    if let Some(t) = trace {
        c.env(TRACE, t);
    }
    if let Some(k) = keep {
        let Ok(f) = std::fs::File::create(k) else { return End::None };
        c.stdout(f).stderr(Stdio::null());
    }
    let Ok(mut child) = c.spawn() else { return End::None };
    let t0 = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if limit.is_some_and(|l| t0.elapsed() > l) => {
                let _ = child.kill();
                let _ = child.wait();
                return End::Slow;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(if t0.elapsed() < Duration::from_millis(200) { 1 } else { 20 })),
            Err(_) => return End::None,
        }
    };
    let text = keep.and_then(|k| std::fs::read(k).ok()).map_or(String::new(), |b| String::from_utf8_lossy(&b).to_string());
    match (st.code(), st.signal()) {
        (Some(c), _) => End::Code(c, text),
        (None, Some(s)) => End::Killed(s),
        _ => End::None,
    }
}

/// What the replay file does: its class, if it violates.
pub fn class_of(file: &str, limit: Duration) -> Option<String> {
    let keep = format!("{}.out", file);
    let e = run(&["replay".into(), file.into()], None, Some(limit), Some(&keep));
    let _ = std::fs::remove_file(&keep);
    match e {
        // killed from outside is not the library's doing
        End::Killed(s) if s != 9 && s != 15 && s != 2 => Some("crash".into()),
        End::Slow => Some("hang".into()),
        End::Code(1, t) => t.lines().find_map(|l| l.strip_prefix("class: ")).map(|l| l.to_string()),
        _ => None,
    }
}
