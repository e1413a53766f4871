//! The simulated allocator: the global allocator of the harness binary. Requests made while a library call runs
//! (`sut(..)`) are served from a private arena under the run's seeded policy; everything else goes to the system.
//!
//! Single-threaded by construction: every simulator process runs exactly one thread.

use crate::rng::{mix2, Rng};
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;

pub struct SimAlloc;

const ARENA: usize = 0x2000_0000_0000;
const PACKED_LEN: usize = 16 << 30;
const FENCE: usize = ARENA + PACKED_LEN;
const FENCE_LEN: usize = 128 << 30;
const PAGE: usize = 4096;
const CANARY: u8 = 0xC3;
const POISON: u8 = 0xD5;
pub const EXIT_RUNAWAY: i32 = 97;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reuse {
    Never,
    Lifo,
    Random,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct AllocCfg {
    /// 0 = packed arena, 1 = guard page after each block, 2 = guard page before each block
    pub fence: u8,
    pub redzone: usize,
    pub min_align: bool,
    pub reuse: Reuse,
    /// 0 random, 1 0xFF, 2 zero, 3 small ints, 4 stale contents
    pub junk: u8,
    pub seed: u64,
    /// large blocks in a packed arena: 0 upwards, 1 downwards, 2 either way
    pub place: u8,
}

impl AllocCfg {
    pub fn plain(seed: u64) -> Self {
        AllocCfg { fence: 0, redzone: 16, min_align: false, reuse: Reuse::Lifo, junk: 0, seed, place: 0 }
    }

    pub fn random(r: &mut Rng) -> Self {
        let fence = *r.pick(&[0u8, 0, 0, 0, 1, 2]);
        AllocCfg {
            fence,
            redzone: *r.pick(&[0usize, 0, 16, 64]),
            min_align: r.chance(1, 2),
            reuse: *r.pick(&[Reuse::Never, Reuse::Lifo, Reuse::Lifo, Reuse::Random]),
            junk: r.below(5) as u8,
            seed: r.next(),
            place: *r.pick(&[0u8, 0, 1, 2]),
        }
    }

    pub fn to_text(&self) -> String {
        format!(
            "{},{},{},{},{},{},{}",
            self.fence,
            self.redzone,
            self.min_align as u8,
            match self.reuse {
                Reuse::Never => 0,
                Reuse::Lifo => 1,
                Reuse::Random => 2,
            },
            self.junk,
            self.seed,
            self.place
        )
    }

    pub fn from_text(s: &str) -> Self {
        let v: Vec<u64> = s.split(',').map(|x| x.parse().unwrap()).collect();
        AllocCfg {
            fence: v[0] as u8,
            redzone: v[1] as usize,
            min_align: v[2] != 0,
            reuse: [Reuse::Never, Reuse::Lifo, Reuse::Random][v[3] as usize],
            junk: v[4] as u8,
            seed: v[5],
            place: v.get(6).map_or(0, |x| *x as u8),
        }
    }
}

#[derive(Clone, Copy)]
struct Blk {
    size: usize,
    align: usize,
    /// span owned by the block, canaries included
    base: usize,
    span: usize,
    fenced: bool,
}

#[derive(Default, Clone, Debug)]
pub struct AllocStats {
    pub allocs: u64,
    pub frees: u64,
    pub fenced: u64,
    pub min_aligned: u64,
    pub reused: u64,
    pub moved_reallocs: u64,
    pub junk_filled: u64,
    pub failed: u64,
    pub live_bytes: usize,
    pub peak_bytes: usize,
}

struct State {
    cfg: AllocCfg,
    rng: Rng,
    live: BTreeMap<usize, Blk>,
    free: Vec<(usize, usize)>,
    bump: usize,
    bump_down: usize,
    fence_bump: usize,
    fenced_live: usize,
    serial: u64,
    stats: AllocStats,
    violation: Option<(&'static str, String)>,
    fail_at: u64,
    fail_sticky: bool,
    fail_fired: bool,
}

static mut IN_SUT: bool = false;
static mut STATE: Option<State> = None;
static mut BUDGET: usize = 1 << 30;

#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    unsafe { STATE.as_mut().unwrap() }
}

struct Enter(bool);
impl Drop for Enter {
    fn drop(&mut self) {
        unsafe { IN_SUT = self.0 }
    }
}

/// Runs a library call: its allocations are simulated.
#[inline]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _g = unsafe {
        let old = IN_SUT;
        IN_SUT = true;
        Enter(old)
    };
    f()
}

/// Leaves library mode for harness code reached from inside a library call (panic hook, destructors).
#[inline]
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _g = unsafe {
        let old = IN_SUT;
        IN_SUT = false;
        Enter(old)
    };
    f()
}

/// Starts a fresh, empty arena.
pub fn reset(cfg: AllocCfg) {
    host(|| unsafe {
        #[allow(static_mut_refs)]
        if STATE.is_none() {
            for (a, len, prot) in [(ARENA, PACKED_LEN, sys::PROT_RW), (FENCE, FENCE_LEN, sys::PROT_NONE)] {
                let p = sys::mmap(
                    a as *mut _,
                    len,
                    prot,
                    sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE | sys::MAP_FIXED_NOREPLACE,
                    -1,
                    0,
                );
                if p as usize != a {
                    eprintln!("harness: cannot map the arena");
                    sys::_exit(2);
                }
            }
        } else {
            let s = st();
            let used = s.bump - ARENA;
            if used > 0 {
                sys::madvise(ARENA as *mut _, round_up(used, PAGE), sys::MADV_DONTNEED);
            }
            let low = s.bump_down / PAGE * PAGE;
            if low < ARENA + PACKED_LEN {
                sys::madvise(low as *mut _, ARENA + PACKED_LEN - low, sys::MADV_DONTNEED);
            }
            let fused = s.fence_bump - FENCE;
            if fused > 0 {
                sys::mmap(
                    FENCE as *mut _,
                    fused,
                    sys::PROT_NONE,
                    sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE | sys::MAP_FIXED,
                    -1,
                    0,
                );
            }
        }
        STATE = Some(State {
            cfg,
            rng: Rng::new(cfg.seed),
            live: BTreeMap::new(),
            free: Vec::new(),
            bump: ARENA,
            bump_down: ARENA + PACKED_LEN,
            fence_bump: FENCE,
            fenced_live: 0,
            serial: 0,
            stats: AllocStats::default(),
            violation: None,
            fail_at: 0,
            fail_sticky: false,
            fail_fired: false,
        });
    })
}

/// For runs whose memory is asked for but not touched.
pub fn raise_budget() {
    unsafe { BUDGET = 6 << 30 }
}

pub fn stats() -> AllocStats {
    st().stats.clone()
}

pub fn live_bytes() -> usize {
    st().stats.live_bytes
}

pub fn take_violation() -> Option<(&'static str, String)> {
    host(|| st().violation.take())
}

/// The n-th request from now (1-based) fails; with `sticky` all later ones fail too.
pub fn arm_failure(n: u64, sticky: bool) {
    let s = st();
    s.fail_at = n;
    s.fail_sticky = sticky;
    s.fail_fired = false;
}

/// Disarms failure injection and tells whether a failure was delivered.
pub fn disarm_failure() -> bool {
    let s = st();
    s.fail_at = 0;
    s.fail_sticky = false;
    s.fail_fired
}

/// Checks all canaries of live blocks and the poison of freed ones.
pub fn check_all() {
    host(|| {
        let s = st();
        let blks: Vec<(usize, Blk)> = s.live.iter().map(|(a, b)| (*a, *b)).collect();
        for (a, b) in blks {
            check_canaries(s, a, &b);
        }
        if s.cfg.junk != 4 {
            // the latest and a rotating window of the older ones
            let n = s.free.len();
            let tail = n.saturating_sub(96);
            let at = if tail > 0 { s.serial as usize % tail } else { 0 };
            let free: Vec<(usize, usize)> = s.free[at..tail.min(at + 32)].iter().chain(&s.free[tail..]).copied().collect();
            for (base, span) in free {
                check_poison(s, base, span);
            }
        }
    })
}

/// Blocks still live (after everything was dropped: leaks).
pub fn leaks() -> (usize, usize, usize) {
    host(|| {
        let s = st();
        let n = s.live.len();
        let bytes = s.live.values().map(|b| b.size).sum();
        let biggest = s.live.values().map(|b| b.size).max().unwrap_or(0);
        (n, bytes, biggest)
    })
}

fn round_up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}

fn viol(s: &mut State, class: &'static str, msg: String) {
    if s.violation.is_none() {
        s.violation = Some((class, msg));
    }
}

unsafe fn fill(p: usize, n: usize, b: u8) {
    std::ptr::write_bytes(p as *mut u8, b, n)
}

unsafe fn first_bad(p: usize, n: usize, b: u8) -> Option<usize> {
    let s = std::slice::from_raw_parts(p as *const u8, n);
    s.iter().position(|x| *x != b)
}

fn check_canaries(s: &mut State, addr: usize, b: &Blk) {
    let (pre, post) = (addr - b.base, b.base + b.span - (addr + b.size));
    unsafe {
        if let Some(i) = first_bad(b.base, pre, CANARY) {
            let d = pre - i;
            viol(s, "write-before-block", format!("{d} bytes before a live block of {} bytes were overwritten", b.size));
        }
        if let Some(i) = first_bad(addr + b.size, post, CANARY) {
            viol(s, "write-past-block", format!("byte {i} past a live block of {} bytes was overwritten", b.size));
        }
    }
}

fn check_poison(s: &mut State, base: usize, span: usize) {
    unsafe {
        if let Some(i) = first_bad(base, span, POISON) {
            viol(s, "write-after-free", format!("byte {i} of a freed span of {span} bytes was overwritten"));
        }
    }
}

fn do_alloc(layout: Layout, zeroed: bool) -> *mut u8 {
    let s = st();
    s.serial += 1;
    s.stats.allocs += 1;
    if s.fail_at > 0 {
        s.fail_at -= 1;
        if s.fail_at == 0 {
            s.fail_fired = true;
            s.stats.failed += 1;
            if s.fail_sticky {
                s.fail_at = 1;
            }
            return std::ptr::null_mut();
        }
    }
    let (size, align) = (layout.size(), layout.align());
    if size == 0 {
        viol(s, "zero-size-request", "a block of size 0 was requested from the global allocator".into());
    }
    if !align.is_power_of_two() {
        viol(s, "bad-align-request", format!("a block with alignment {align} was requested"));
    }
    let real = size.max(1);
    let budget = unsafe { BUDGET };
    if real > budget || s.stats.live_bytes + real > budget {
        eprintln!("harness: memory budget exceeded");
        unsafe { sys::_exit(EXIT_RUNAWAY) };
    }
    let c = s.cfg;
    let fenced = c.fence > 0 && s.fenced_live < 20_000 && FENCE + FENCE_LEN - s.fence_bump > real + 64 * PAGE + 2 * align;
    let (addr, b);
    if fenced {
        let body = round_up(real, PAGE);
        let (base, a);
        if c.fence == 1 {
            // the block ends at the guard page (up to alignment slack)
            let mut start = s.fence_bump + PAGE;
            // make the aligned address possible for huge alignments
            if align > PAGE {
                let want = round_up(start, align) + round_up(real, align) - body;
                start = round_up(want, PAGE);
                let end = start + body;
                let cand = (end - real) / align * align;
                start = start.min(cand / PAGE * PAGE);
            }
            let end = start + body;
            let mut cand = (end - real) / align * align;
            if c.min_align && cand % (2 * align) == 0 && cand >= start + align {
                cand -= align;
            }
            if cand < start {
                start = cand / PAGE * PAGE;
            }
            base = start;
            a = cand;
        } else {
            base = round_up(s.fence_bump + PAGE, align.max(PAGE));
            a = base;
        }
        let span = round_up(a + real - base, PAGE);
        unsafe { sys::mprotect(base as *mut _, span, sys::PROT_RW) };
        s.fence_bump = base + span;
        s.fenced_live += 1;
        s.stats.fenced += 1;
        addr = a;
        b = Blk { size, align, base, span, fenced: true };
        unsafe {
            fill(base, a - base, CANARY);
            fill(a + size, base + span - (a + size), CANARY);
        }
    } else {
        let al = if c.min_align { align } else { align.max(16) };
        let want = real + 2 * c.redzone + 2 * al;
        let mut got = None;
        if c.reuse != Reuse::Never && !s.free.is_empty() {
            let n = s.free.len();
            let start = if c.reuse == Reuse::Lifo { 0 } else { s.rng.below(n) };
            for k in 0..n.min(64) {
                let i = if c.reuse == Reuse::Lifo { n - 1 - k } else { (start + k) % n };
                let (base, span) = s.free[i];
                let mut a = round_up(base + c.redzone, al);
                if c.min_align && a % (2 * align) == 0 {
                    a += align;
                }
                if a + real + c.redzone <= base + span && span <= want * 2 + 64 {
                    s.free.remove(i);
                    if c.junk != 4 {
                        check_poison(s, base, span);
                    }
                    s.stats.reused += 1;
                    got = Some((base, span));
                    break;
                }
            }
        }
        let down = got.is_none() && real >= PAGE && (c.place == 1 || c.place == 2 && s.rng.chance(1, 2));
        let (mut base, mut span) = match got {
            None if down => {
                let mut a = (s.bump_down - c.redzone - real) / al * al;
                if c.min_align && a % (2 * align) == 0 {
                    a -= align;
                    s.stats.min_aligned += 1;
                }
                if a < s.bump + c.redzone + PAGE {
                    eprintln!("harness: arena exhausted");
                    unsafe { sys::_exit(EXIT_RUNAWAY) };
                }
                s.bump_down = a - c.redzone;
                (a - c.redzone, real + 2 * c.redzone)
            }
            Some(x) => x,
            None => {
                let base = s.bump;
                if base + want + PAGE > s.bump_down {
                    eprintln!("harness: arena exhausted");
                    unsafe { sys::_exit(EXIT_RUNAWAY) };
                }
                (base, want)
            }
        };
        let mut a = round_up(base + c.redzone, al);
        if down {
            a = base + c.redzone;
        } else if c.min_align && a % (2 * align) == 0 {
            a += align;
            s.stats.min_aligned += 1;
        }
        if got.is_none() && !down {
            // trim to what is used, so that with redzone 0 the next block is adjacent
            span = a + real + c.redzone - base;
            s.bump = base + span;
            if c.junk == 4 && c.redzone == 0 && align >= PAGE {
                // runs that touch as little as possible don't fill the gap before the block
                span -= a - base;
                base = a;
            }
        }
        if a + real > base + span {
            eprintln!("harness: internal placement error");
            unsafe { sys::_exit(2) };
        }
        addr = a;
        b = Blk { size, align, base, span, fenced: false };
        unsafe {
            fill(base, a - base, CANARY);
            fill(a + size, base + span - (a + size), CANARY);
        }
    }
    unsafe {
        if zeroed {
            fill(addr, size, 0);
        } else {
            s.stats.junk_filled += 1;
            let p = addr as *mut u8;
            match c.junk {
                0 => {
                    let mut i = 0;
                    let k = mix2(c.seed, s.serial);
                    while i + 8 <= size {
                        (p.add(i) as *mut u64).write_unaligned(k.wrapping_mul(i as u64 * 2 + 1) ^ (k >> 7));
                        i += 8;
                    }
                    while i < size {
                        *p.add(i) = (k >> (8 * (i % 8))) as u8;
                        i += 1;
                    }
                }
                1 => fill(addr, size, 0xFF),
                2 => fill(addr, size, 0),
                3 => {
                    for i in 0..size {
                        *p.add(i) = if i % 4 == 0 { (i as u8 >> 2) & 7 } else { 0 };
                    }
                }
                _ => {
                    if got_is_new_fence(&b) {
                        fill(addr, size, 0x5A)
                    }
                }
            }
        }
    }
    s.stats.live_bytes += size;
    s.stats.peak_bytes = s.stats.peak_bytes.max(s.stats.live_bytes);
    s.live.insert(addr, b);
    addr as *mut u8
}

fn got_is_new_fence(b: &Blk) -> bool {
    b.fenced
}

fn do_dealloc(ptr: *mut u8, layout: Layout) {
    let s = st();
    let addr = ptr as usize;
    let b = match s.live.get(&addr) {
        Some(b) => *b,
        None => {
            viol(s, "bad-free", format!("a pointer that is not a live block was freed (size {})", layout.size()));
            return;
        }
    };
    if b.size != layout.size() || b.align != layout.align() {
        viol(
            s,
            "free-layout-mismatch",
            format!(
                "block requested with size {} align {} was freed with size {} align {}",
                b.size,
                b.align,
                layout.size(),
                layout.align()
            ),
        );
    }
    check_canaries(s, addr, &b);
    s.live.remove(&addr);
    s.stats.frees += 1;
    s.stats.live_bytes -= b.size;
    unsafe {
        if b.fenced {
            s.fenced_live -= 1;
            sys::mprotect(b.base as *mut _, b.span, sys::PROT_NONE);
            sys::madvise(b.base as *mut _, b.span, sys::MADV_DONTNEED);
        } else {
            if s.cfg.junk != 4 {
                fill(b.base, b.span, POISON);
            }
            s.free.push((b.base, b.span));
        }
    }
}

pub fn in_arena(addr: usize) -> bool {
    (ARENA..FENCE + FENCE_LEN).contains(&addr)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if IN_SUT {
            host(|| do_alloc(layout, false))
        } else {
            System.alloc(layout)
        }
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if IN_SUT {
            host(|| do_alloc(layout, true))
        } else {
            System.alloc_zeroed(layout)
        }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if in_arena(ptr as usize) {
            host(|| do_dealloc(ptr, layout))
        } else {
            System.dealloc(ptr, layout)
        }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if in_arena(ptr as usize) || IN_SUT {
            // always moves: the least convenient legal behaviour
            let was_sut = IN_SUT;
            IN_SUT = true;
            let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
            IN_SUT = was_sut;
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
                self.dealloc(ptr, layout);
                host(|| st().stats.moved_reallocs += 1);
            }
            new
        } else {
            System.realloc(ptr, layout, new_size)
        }
    }
}
