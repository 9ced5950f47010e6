//! Every simulated run happens in a freshly forked process that has never run the code under
//! test, so that nothing (statics, thread locals, heap) survives from one run into another.

use std::os::fd::FromRawFd;

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Done(Vec<u8>),
    Exit(i32),
    Signal(i32),
}
impl End {
    pub fn describe(&self) -> String {
        match self {
            End::Done(_) => "done".into(),
            End::Exit(86) => "deadlock: no thread can run".into(),
            End::Exit(87) => "step limit exceeded".into(),
            End::Exit(c) => format!("process exited with {c}"),
            End::Signal(libc::SIGXCPU) => "processor time limit exceeded".into(),
            End::Signal(libc::SIGKILL) => "killed (time limit)".into(),
            End::Signal(s) => format!("process died from signal {s}"),
        }
    }
}

fn read_all(fd: i32, deadline_s: u64) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let start = std::time::Instant::now();
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let left = (deadline_s * 1000) as i64 - start.elapsed().as_millis() as i64;
        if left <= 0 {
            return None;
        }
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, left as i32) };
        if r <= 0 {
            continue;
        }
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            return Some(out);
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
}

pub fn set_cpu_limit(s: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: s, rlim_max: s + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
}

/// Runs `f` in a forked child; its result travels through a pipe.
pub fn in_child(cpu_s: u64, f: impl FnOnce() -> Vec<u8>) -> End {
    let mut p = [0i32; 2];
    unsafe {
        if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            panic!("pipe failed")
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork failed")
        }
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            set_cpu_limit(cpu_s);
            let nul = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(nul, 1);
            libc::dup2(nul, 2);
            libc::close(nul);
            let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let out = match out {
                Ok(o) => o,
                Err(_) => libc::_exit(98),
            };
            use std::io::Write;
            let mut w = std::fs::File::from_raw_fd(p[1]);
            let _ = w.write_all(&out);
            drop(w);
            libc::_exit(0);
        }
        libc::close(p[1]);
        let out = read_all(p[0], cpu_s * 4 + 30);
        libc::close(p[0]);
        if out.is_none() {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            return End::Signal(libc::WTERMSIG(st));
        }
        let c = libc::WEXITSTATUS(st);
        if c != 0 {
            return End::Exit(c);
        }
        End::Done(out.unwrap_or_default())
    }
}

/// A scratch directory below one private root that is removed at the end.
pub struct Scratch {
    pub root: String,
    n: std::cell::Cell<u64>,
}
impl Scratch {
    pub fn new(root: &str) -> Self {
        std::fs::create_dir_all(root).expect("scratch");
        Scratch { root: root.into(), n: std::cell::Cell::new(0) }
    }
    /// A fresh empty directory with always the same length of path.
    pub fn dir(&self) -> String {
        let n = self.n.get();
        self.n.set(n + 1);
        let d = format!("{}/{:08}", self.root, n % 100_000_000);
        std::fs::create_dir_all(&d).expect("scratch dir");
        d
    }
    pub fn done(&self, d: &str) {
        assert!(d.starts_with(&self.root) && d.len() > self.root.len());
        let _ = std::fs::remove_dir_all(d);
    }
}
