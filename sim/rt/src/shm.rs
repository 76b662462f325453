//! Result area shared between a run (a forked process) and its parent.
pub const MAXT: usize = 6;
pub const LOGCAP: usize = 1 << 20;
pub const TRACECAP: usize = 60_000;
pub const DISKCAP: usize = 1 << 20;
pub const COVCAP: usize = 1 << 16;
pub const NCOUNT: usize = 96;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Viol {
    pub class: u32,
    pub tid: u32,
    pub op: u32,
    pub len: u32,
    pub detail: [u8; 1024],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Preempt {
    pub lstep: u64,
    pub tid: u16,
    pub to: u16,
    pub kind: u32,
}
#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub nviol: u32,
    pub viol: [Viol; 8],
    pub counters: [u64; NCOUNT],
    pub total_steps: u64,
    pub lsteps: [u64; MAXT],
    pub sig: u64,
    pub ntrace: u32,
    pub switches: u32,
    pub cur_tid: u32,
    pub cur_op: [u32; MAXT],
    pub in_sys: u32,
    pub alloc_fail_fired: u32,
    pub sim_ns: u64,
    pub npanic: u32,
    pub note: u32,
    pub panic: [u8; 160],
    pub nguards: u32,
    /// words of static memory that several threads used and some wrote, and how often
    pub nshared: u32,
    pub shared: [(u64, u32); 256],
    pub shared_events: u64,
    pub late_events: u64,
    /// operations that used such memory (bit = position in the program)
    pub late_ops: [u64; MAXT],
    pub disk_len: u32,
    pub disk_durable: u32,
    pub nlog: [u32; MAXT],
    pub trace: [Preempt; TRACECAP],
    pub logs: [[u8; LOGCAP]; MAXT],
    pub disk: [u8; DISKCAP],
    pub cov: [u8; COVCAP],
}
pub static mut SHM: *mut Shm = std::ptr::null_mut();

pub fn map() -> &'static mut Shm {
    unsafe {
        if SHM.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shm>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            SHM = p as *mut Shm;
        }
        &mut *SHM
    }
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
impl Shm {
    pub fn reset(&mut self, keep_disk: bool) {
        self.status = 0;
        self.nviol = 0;
        self.counters = [0; NCOUNT];
        self.total_steps = 0;
        self.lsteps = [0; MAXT];
        self.sig = 0;
        self.ntrace = 0;
        self.switches = 0;
        self.cur_tid = 0;
        self.cur_op = [0; MAXT];
        self.in_sys = 0;
        self.alloc_fail_fired = 0;
        self.sim_ns = 0;
        self.npanic = 0;
        self.note = 0;
        self.nlog = [0; MAXT];
        self.nshared = 0;
        self.shared_events = 0;
        self.late_events = 0;
        self.late_ops = [0; MAXT];
        if !keep_disk {
            self.disk_len = 0;
            self.disk_durable = 0;
        }
    }
    pub fn log(&mut self, tid: usize, s: &[u8]) {
        let n = self.nlog[tid] as usize;
        if n + s.len() + 1 <= LOGCAP {
            self.logs[tid][n..n + s.len()].copy_from_slice(s);
            self.logs[tid][n + s.len()] = b'\n';
            self.nlog[tid] = (n + s.len() + 1) as u32;
        }
    }
    pub fn violation(&mut self, class: u32, tid: u32, op: u32, detail: &str) {
        let i = self.nviol as usize;
        if i < 8 {
            let v = &mut self.viol[i];
            v.class = class;
            v.tid = tid;
            v.op = op;
            let mut l = detail.len().min(1024);
            while !detail.is_char_boundary(l) {
                l -= 1;
            }
            v.detail[..l].copy_from_slice(&detail.as_bytes()[..l]);
            v.len = l as u32;
            self.nviol = i as u32 + 1;
        }
    }
}
