#[path = "../../harness/src/core.rs"]
mod core;
mod wallet;

use crate::core::*;
use std::os::unix::io::FromRawFd;

/// The wallet asks the terminal on its standard output for its size. Run in a child whose standard
/// output is a pseudo-terminal, and pass on what the child prints.
fn on_terminal() -> Option<i32> {
    use std::io::{Read, Write};
    unsafe {
        let (mut master, mut slave) = (0, 0);
        let ws = libc::winsize { ws_row: 40, ws_col: 160, ws_xpixel: 0, ws_ypixel: 0 };
        let mut t: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut t);
        if libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), &t, &ws) != 0 {
            return None;
        }
        libc::fcntl(master, libc::F_SETFD, libc::FD_CLOEXEC);
        let mut child = std::process::Command::new(std::env::current_exe().ok()?)
            .args(std::env::args_os().skip(1))
            .env("VHW_CHILD", "1")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::from_raw_fd(slave))
            .spawn()
            .ok()?;
        let mut m = std::fs::File::from_raw_fd(master);
        let mut buf = [0u8; 4096];
        let out = std::io::stdout();
        loop {
            match m.read(&mut buf) {
                Ok(0) => break,
                Ok(n) => {
                    out.lock().write_all(&buf[..n]).ok();
                    out.lock().flush().ok();
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        Some(child.wait().ok()?.code().unwrap_or(2))
    }
}

fn main() {
    if std::env::var("VHW_CHILD").is_err() {
        if let Some(code) = on_terminal() {
            std::process::exit(code);
        }
    }
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("usage: vhw PROPERTY quick|thorough [group:case]");
    let tier = match a.next().as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let only_case = a.next().map(|s| {
        let (g, c) = s.split_once(':').expect("group:case");
        (g.to_string(), c.parse().expect("case number"))
    });
    let args = Args {
        prop: prop.clone(),
        tier,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only_case,
        verif: std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into()),
    };
    install_panic_hook();
    let all = wallet::properties();
    let p = all.iter().find(|p| p.id == prop).expect("unknown property");
    std::process::exit(run(&args, p));
}
