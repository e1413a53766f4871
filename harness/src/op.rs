//! The operations a trace is made of, and their text form (one operation per line: name, then integers).

macro_rules! ops {
    ($($v:ident $name:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        pub enum K { $($v),* }
        pub const NAMES: &[&str] = &[$($name),*];
        pub const ALL: &[K] = &[$(K::$v),*];
    };
}

ops! {
    NewStore "newstore",      // s cap
    Create "create",          // s L
    CreateArch "createarch",  // s L mask how v
    Bulk "bulk",              // s L0 n shape v how
    Churn "churn",            // s L0 n shape v extra
    Spin "spin",              // s L n
    Pages "pages",            // s L0 n sets
    Sets "sets",              // s L0 n kinds how seed
    Throng "throng",          // s seed steps types tags cap (a store of its own)
    Mass "mass",              // s seed n cap (a store of its own)
    Destroy "destroy",        // s L
    BulkDestroy "bulkdestroy",// s L0 n stride phase order
    Add "add",                // s L shape v
    Remove "remove",          // s L shape
    Write "write",            // s L shape v
    Read "read",              // s L shape
    Arch "arch",              // s L
    Alive "alive",            // s L
    Tag "tag",                // s L t
    Untag "untag",            // s L t
    HasTag "hastag",          // s L t
    BulkTag "bulktag",        // s L0 n stride phase t
    BulkOrd "bulkord",        // s L0 n stride phase g
    Ord "ord",                // s L g
    OrdNext "ordnext",        // s L M g
    OrdPrev "ordprev",        // s L M g
    Unord "unord",            // s L g
    OrdLook "ordlook",        // s L g
    OrdScan "ordscan",        // s g
    QOpen "qopen",            // slot s obj qk acc tag mode+256*pre wv labels..
    QNext "qnext",            // slot n how
    QAll "qall",              // slot how
    QDrop "qdrop",            // slot
    QPanic "qpanic",          // slot n
    Sweep "sweep",            // s
    Bad "bad",                // s kind L M g
    Pause "pause",            // nothing (stands for a rejected call left out)
    Fail "fail",              // n sticky
    RNew "rnew",              // r type cap
    RCreate "rcreate",        // r L v
    RRead "rread",            // r L
    RWrite "rwrite",          // r L v
    RReplace "rreplace",      // r L v
    RRelease "rrelease",      // r L
    RBulk "rbulk",            // r L0 n v
    RChurn "rchurn",          // r L0 n v
    RBulkRelease "rbulkrelease", // r L0 n stride phase order
    RSpin "rspin",            // r n v
    RDrop "rdrop",            // r panic_every panic_phase
    RBad "rbad",              // r kind L
    RSweep "rsweep",          // r
    BNew "bnew",              // b
    BInc "binc",              // b how x seed times
    BExc "bexc",              // b how x seed
    BBuild "bbuild",          // b a
    AWith "awith",            // a shape
    AClone "aclone",          // a a'
    ADrop "adrop",            // a
    ACmp "acmp",              // a a' seed
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub a: Vec<u64>,
}

impl Op {
    pub fn new(k: K, a: &[u64]) -> Op {
        Op { k, a: a.to_vec() }
    }

    pub fn to_text(&self) -> String {
        let mut s = NAMES[self.k as usize].to_string();
        for x in &self.a {
            s.push(' ');
            s.push_str(&x.to_string());
        }
        s
    }

    pub fn from_text(l: &str) -> Option<Op> {
        let mut w = l.split_whitespace();
        let n = w.next()?;
        let i = NAMES.iter().position(|x| *x == n)?;
        let mut a = Vec::new();
        for x in w {
            a.push(x.parse().ok()?);
        }
        Some(Op { k: ALL[i], a })
    }

    pub fn u(&self, i: usize) -> usize {
        self.a.get(i).copied().unwrap_or(0) as usize
    }

    /// Operations that only look at stores and may run while queries are open.
    pub fn is_reading(&self) -> bool {
        matches!(
            self.k,
            K::Read | K::Arch | K::Alive | K::HasTag | K::OrdLook | K::OrdScan | K::QOpen | K::QNext | K::QAll | K::QDrop | K::QPanic
        )
    }

    pub fn is_query(&self) -> bool {
        matches!(self.k, K::QOpen | K::QNext | K::QAll | K::QDrop | K::QPanic)
    }
}

pub const C01: u32 = 1 << 1;
pub const C02: u32 = 1 << 2;
pub const C03: u32 = 1 << 3;
pub const C04: u32 = 1 << 4;
pub const C05: u32 = 1 << 5;
pub const C06: u32 = 1 << 6;
pub const C07: u32 = 1 << 7;
pub const C08: u32 = 1 << 8;
pub const C09: u32 = 1 << 9;
pub const C10: u32 = 1 << 10;
pub const C11: u32 = 1 << 11;
pub const C12: u32 = 1 << 12;
pub const C13: u32 = 1 << 13;
pub const C14: u32 = 1 << 14;
pub const C16: u32 = 1 << 16;

/// Properties whose statement is contradicted when this (valid) operation panics, hangs or crashes.
pub fn owners(op: &Op) -> u32 {
    match op.k {
        K::NewStore => C01 | C10,
        K::Create => C01,
        K::CreateArch => C01 | C03,
        K::Bulk | K::Pages | K::Sets => C01 | C02 | C03,
        K::Churn => C01 | C05 | C06,
        K::Spin => C01,
        K::Throng => C01 | C02 | C03 | C04 | C05 | C06 | C07 | C08 | C10 | C16,
        K::Mass => C01 | C02 | C03 | C04 | C05 | C06 | C07 | C08 | C10,
        K::Destroy | K::BulkDestroy => C01 | C05 | C06,
        K::Add => C02 | C03,
        K::Remove => C03,
        K::Write => C02,
        K::Read => C02 | C03,
        K::Arch => C03,
        K::Alive => C01,
        K::Tag | K::Untag | K::HasTag | K::BulkTag => C05,
        K::BulkOrd | K::Ord | K::OrdNext | K::OrdPrev | K::Unord | K::OrdLook | K::OrdScan => C06,
        K::QOpen => {
            C13 | match (op.u(3), op.u(6) & 255) {
                (0, m) if m >= 2 => C05 | C04,
                (0, _) => C04,
                (1, _) => C08,
                _ => C07,
            }
        }
        K::QNext | K::QAll | K::QDrop | K::QPanic => C13,
        K::Sweep => C01 | C02 | C03,
        K::Bad => C11 | if (1..=7).contains(&op.u(1)) { C06 } else { 0 },
        K::Fail => C12,
        K::BNew | K::BInc | K::BExc | K::BBuild | K::AWith | K::AClone | K::ADrop | K::ACmp => C16,
        K::RBad => C11,
        _ => C09,
    }
}
