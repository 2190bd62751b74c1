// Shared between the controlled runtime (mcstd) and the explorer (mcx): layout of the shared
// memory segment through which one execution is commanded and its trace reported.

pub const MAX_PREFIX: usize = 1 << 18;
pub const MAX_STEPS: usize = 1 << 18;
pub const MAX_TH: usize = 32;
pub const MAX_TRACK: usize = 12;
pub const TRACK_STDOUT: usize = MAX_TRACK;
pub const MAX_FAULTS: usize = 8;
pub const ARGS_BUF: usize = 1 << 18;

// operation kinds
pub const K_START: u8 = 0;
pub const K_EXIT: u8 = 1;
pub const K_JOIN: u8 = 2;
pub const K_SPAWN: u8 = 3;
pub const K_LOAD: u8 = 4;
pub const K_WRITE: u8 = 5;
pub const K_LOCK: u8 = 6;
pub const K_UNLOCK: u8 = 7;
pub const K_TRYLOCK: u8 = 8;
pub const K_SEND: u8 = 9;
pub const K_RECV: u8 = 10;
pub const K_RECVNB: u8 = 11;
pub const K_SDROP: u8 = 12;
pub const K_RDROP: u8 = 13;
pub const K_TRYSEND: u8 = 14;
pub const K_CVWAIT: u8 = 15;
pub const K_CVNOTIFY: u8 = 16;
pub const K_RLOCK: u8 = 17;
pub const K_RUNLOCK: u8 = 18;
pub const K_YIELD: u8 = 19;
pub const K_PROCEXIT: u8 = 20;
pub const K_CVTIMEOUT: u8 = 21;
pub const K_OTHER: u8 = 22; // conservative: conflicts with everything on its object
pub const K_CVWAKE: u8 = 23; // woken by a notification (only as a further object of a lock step)
pub const KIND_NAMES: [&str; 24] = [
    "start", "exit", "join", "spawn", "load", "write", "lock", "unlock", "trylock", "send", "recv",
    "recv-nb", "sender-drop", "receiver-drop", "try-send", "cv-wait", "cv-notify", "rlock",
    "runlock", "yield", "process-exit", "cv-timeout", "other", "cv-wake",
];

// status values
pub const ST_NONE: u32 = 0;
pub const ST_EXITED: u32 = 1; // main thread ended the process normally; exit_code is valid
pub const ST_DEADLOCK: u32 = 2;
pub const ST_LIVELOCK: u32 = 3;
pub const ST_HORIZON: u32 = 4;
pub const ST_DIVERGED: u32 = 5;
pub const ST_INTERNAL: u32 = 6;

// fault classes
pub const F_OPEN: u8 = 0;
pub const F_READ: u8 = 1;
pub const F_WRITE: u8 = 2;
pub const F_CLOSE: u8 = 3;
// fault actions (value > 0 and < 4096: fail with that errno)
pub const A_EOF: i32 = 10_000; // read returns 0
pub const A_SHORT: i32 = 10_001; // transfer a single byte (or half)
pub const A_FLIP: i32 = 10_002; // data read is corrupted (first byte inverted)

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub class: u8,
    pub track: u8,
    pub sticky: u8, // applies to this and all later calls
    pub nth: u32,
    pub action: i32,
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub tid: u8,
    pub kind: u8,
    pub cont: u8, // 1: belongs to the same step as the previous record
    pub code: u8, // readiness code at choice time
    pub obj: u32,
    pub enabled: u32,
    pub low: u32,  // enabled, but only by letting time pass
    pub stut: u32, // enabled, but the step would only repeat an unchanged observation
    pub aux: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct PendRec {
    pub tid: u8,
    pub kind: u8,
    pub code: u8,
    pub obj: u32,
    pub aux: u32,
}

#[repr(C)]
pub struct Shm {
    // command
    pub seed: u64,
    pub controlled: u32,
    pub cap_override: u32,
    pub max_steps: u32,
    pub cpu_limit: u32,
    pub argc: u32,
    pub prefix_len: u32,
    pub ntracked: u32,
    pub nfaults: u32,
    pub read_chunk: u32,
    /// each compare_exchange_weak fails spuriously this many times before it is tried
    pub weak_fails: u32,
    pub policy: u32, // default scheduling: 0 run to block, lowest id next; 1 highest id next
    pub cwd: [u8; 512],
    pub tracked: [[u8; 96]; MAX_TRACK],
    pub faults: [Fault; MAX_FAULTS],
    pub args: [u8; ARGS_BUF],
    // result
    pub status: u32,
    pub exit_code: i32,
    pub stdout_len: u64,
    pub nsteps: u32,
    pub nrecs: u32,
    pub nthreads: u32,
    pub npend: u32,
    pub faults_hit: u32,
    pub stdout_at_fault: u32,
    pub io_counts: [[u32; 4]; MAX_TRACK + 1],
    pub pend: [PendRec; MAX_TH],
    pub msg: [u8; 256],
    pub prefix: [u8; MAX_PREFIX],
    pub trace: [Rec; MAX_STEPS],
}
