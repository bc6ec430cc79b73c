//! Request limiters: the token bucket and the counting bucket.
use config::common::{CountBucketConfig, RateBucketConfig};
use limiter_bucket::*;

const BASE: i64 = 1_700_006_400; // start of a day: keeps the calendar arithmetic concrete

/// Time moves by steps picked around the refill boundaries (one path per step); the amounts are symbolic.
struct Clock { ns: u64, iv: u64 }
impl Clock {
    fn start(iv: i64) -> Clock {
        let c = Clock { ns: [999_999_999, 0][sx::choose(0, sx::param("starts", 1) as usize, "start")], iv: iv as u64 * 1_000_000 };
        c.show();
        c
    }
    fn show(&self) { sx::set_clock(BASE + (self.ns / 1_000_000_000) as i64, (self.ns % 1_000_000_000) as i64) }
    fn advance(&mut self) {
        let iv = self.iv;
        let steps = [0, iv - 1, iv, 1, iv + 1, 2 * iv - 1, 2 * iv, 1_000_000, 5 * iv + iv / 2, iv / 2, 100_000 * iv + 7];
        self.ns += steps[sx::choose(0, sx::param("steps", 7) as usize - 1, "step")];
        self.show();
    }
    /// whole intervals since an earlier reading
    fn intervals_since(&self, o: u64) -> usize { ((self.ns - o) / self.iv) as usize }
}
fn interval_ms() -> i64 {
    [100i64, 1, 7, 1000, 86_400_000][sx::choose(0, sx::param("intervals", 3) as usize - 1, "interval")]
}
fn bucket(max: Option<usize>, initial: usize, refill: usize, interval: i64) -> RateBucket {
    RateBucket::from(&RateBucketConfig { max, initial, refill, interval })
}
fn max_opt(hi: u64) -> Option<usize> {
    if sx::bool("max?") { Some(sx::range(0, hi, "max") as usize) } else { None }
}

/// the moment of the next refill, in nanoseconds after BASE, as a stored bucket shows it
fn deadline(b: &RateBucket) -> i64 {
    let raw = bincode::serialize(b).unwrap();
    let s = std::str::from_utf8(&raw[40..]).unwrap();
    let t: chrono::DateTime<chrono::Utc> = s.parse().unwrap();
    (t.timestamp() - BASE) * 1_000_000_000 + t.timestamp_subsec_nanos() as i64
}

sx::harnesses! {
    fn rate_never_over() {
        let iv = interval_ms();
        let refill = sx::range(1, sx::param("refill", 20), "refill") as usize;
        let initial = sx::range(0, 60, "initial") as usize;
        let max = max_opt(60);
        let mut clock = Clock::start(iv);
        let t0 = clock.ns;
        let b = bucket(max, initial, refill, iv);
        let cap = b.max();
        match max {
            Some(m) => sx::check!(cap == m, "a configured maximum is the maximum"),
            None => sx::check!(cap >= initial && cap >= refill, "the default maximum leaves room for the initial tokens and a refill"),
        }
        sx::check!(b.refill() == refill, "refill is as configured");
        sx::check!(b.interval().num_milliseconds() == iv, "interval is as configured");
        let start = initial.min(cap);
        sx::check!(b.balance() == start, "a bucket starts with its initial tokens, at most its maximum");
        let mut admitted = 0usize;
        let k = sx::param("calls", 3) as usize;
        for i in 0..k {
            clock.advance();
            let n = sx::range(0, 100, "permits") as usize;
            let closed = sx::bool("closed");
            let before = b.balance();
            let got = if closed { b.acquire_closed(n) } else { match b.acquire(n) { Ok(()) => n, Err(_) => 0 } };
            sx::check!(got <= n, "never more than asked for");
            sx::check!(got <= cap || n == 0, "one request never gets more than the maximum");
            admitted += got;
            sx::check!(b.balance() <= cap, "the balance never exceeds the maximum");
            let whole = clock.intervals_since(t0);
            sx::check!(admitted + b.balance() <= start + refill * whole, "tokens handed out and left never exceed the initial ones plus one refill per elapsed interval");
            if closed && n > 0 { sx::check!(got == n || b.balance() == 0, "a partial grant empties the bucket") }
            if !closed && n > 0 && got == 0 { sx::check!(b.balance() < n && b.balance() >= before, "a refused request takes nothing and is refused only when tokens are short") }
            if got > start { sx::cover("refilled") }
            if i > 0 && got < n { sx::cover("limited") }
        }
    }
    fn rate_step() {
        // one call from an arbitrary state: with this step, the bound holds for histories of any length
        let iv = [100i64, 1, 7, 1000, 86_400_000][sx::choose(0, 4, "interval")];
        let ivn = iv * 1_000_000;
        let refill = sx::range(1, sx::param("refill", 100), "refill");
        let max = sx::range(0, sx::param("max", 1000), "max");
        let bal0 = sx::range(0, sx::param("max", 1000), "balance");
        sx::assume(bal0 <= max);
        // the deadline is one interval after the bucket was made
        let dl = [0i64, 1, 500_000, 999_999_999][sx::choose(0, 3, "phase")];
        let at = |ns: i64| { let t = ns + 1_000_000_000 * 200_000; sx::set_clock(BASE - 200_000 + t / 1_000_000_000, t % 1_000_000_000) };
        at(dl - ivn);
        let b = bucket(Some(max as usize), bal0 as usize, refill as usize, iv);
        let steps = [-1, 0, -ivn / 2 - 1, ivn - 1, ivn, 1, ivn + 999_999, ivn + 1_000_000, 2 * ivn - 1, 7 * ivn + ivn / 3, 100_003 * ivn];
        let now = dl + steps[sx::choose(0, steps.len() - 1, "now")];
        at(now);
        sx::check!(deadline(&b) == dl, "the first refill is due one interval after the start");
        let n = sx::range(1, 10_000, "permits");
        let closed = sx::bool("closed");
        let got = if closed { b.acquire_closed(n as usize) as u64 } else if b.acquire(n as usize).is_ok() { n } else { 0 };
        let k = if now < dl { 0 } else { (now - dl) / ivn + 1 };
        let bal1 = (bal0 + refill * k as u64).min(max);
        let want = if closed { n.min(bal1) } else if n <= bal1 { n } else { 0 };
        sx::check!(got == want, "a request gets what the refilled bucket can give");
        sx::check!(b.balance() as u64 == bal1 - want, "the bucket keeps the rest, and never more than its maximum");
        let dl2 = deadline(&b);
        if k == 0 { sx::check!(dl2 == dl, "no refill, no new deadline") } else {
            sx::check!(dl2 > now, "the next refill is still to come");
            sx::check!(dl2 <= now + ivn, "and at most an interval away");
            sx::check!(dl2 >= dl + k * ivn, "refills are never closer together than the interval");
            sx::check!(dl2 < dl + k * ivn + 1_000_000, "and the refill moment drifts by less than a millisecond");
            sx::cover("refill");
        }
        if k > 1 { sx::cover("catch-up") }
    }
    fn rate_refills() {
        // liveness: waiting long enough makes the tokens available
        let iv = interval_ms();
        let refill = sx::range(1, 1000, "refill") as usize;
        let max = sx::range(1, 5000, "max") as usize;
        let mut clock = Clock::start(iv);
        let b = bucket(Some(max), 0, refill, iv);
        clock.advance();
        let _ = b.acquire_closed(usize::MAX);
        sx::check!(b.balance() == 0, "drained");
        let t = clock.ns;
        clock.advance();
        let whole = clock.intervals_since(t);
        let got = b.acquire_closed(usize::MAX);
        // the interval under way when the bucket was drained may end up to one clock tick (1 ms) late
        let late = ((clock.ns - t).saturating_sub(1_000_000) / clock.iv) as usize;
        sx::check!(got >= (refill * late).min(max), "each full interval adds its refill, up to the maximum");
        sx::check!(got <= (refill * (whole + 1)).min(max), "and nothing more");
        if got > 0 { sx::cover("refilled") }
        if got == max { sx::cover("full") }
    }
    fn rate_saturates() {
        // extreme configurations: a refill must never lose tokens
        let refill = sx::u64("refill") as usize;
        sx::assume(refill > 0);
        let max = sx::u64("max") as usize;
        let initial = sx::u64("initial") as usize;
        sx::set_clock(BASE, 0);
        let b = bucket(Some(max), initial, refill, 100);
        let steps = sx::choose(0, 3, "intervals");
        sx::set_clock(BASE + (steps as i64 * 100) / 1000, (steps as i64 * 100) % 1000 * 1_000_000);
        let want = (initial.min(max) as u128 + refill as u128 * steps as u128).min(max as u128);
        let ask = sx::u64("ask") as usize;
        sx::assume(ask > 0);
        let got = b.acquire_closed(ask);
        sx::check!(got as u128 == want.min(ask as u128), "a refill adds its tokens, up to the maximum, whatever the amounts");
        sx::check!(b.balance() as u128 == want - got as u128, "what was not taken stays");
        if steps > 1 { sx::cover("many-intervals") }
    }
    fn rate_store_reload() {
        let iv = [1i64, 100, 86_400_000][sx::choose(0, 2, "interval")];
        sx::set_clock(BASE, [0, 1, 123_456_789][sx::choose(0, 2, "ns")]);
        let b = bucket(Some(sx::u64("max") as usize), sx::u64("initial") as usize, sx::u64("refill") as usize, iv);
        let raw = bincode::serialize(&b).unwrap();
        match bincode::deserialize::<RateBucket>(&raw) {
            Ok(c) => {
                sx::check!(c.refill() == b.refill() && c.max() == b.max() && c.interval() == b.interval() && c.balance() == b.balance(), "a stored bucket reloads with its settings and balance");
                sx::check!(c == b, "a stored bucket reloads as it was, its deadline included");
            }
            Err(_) => sx::fail("a stored bucket must reload"),
        }
        sx::cover("bincode");
    }
    fn rate_store_reload_json() {
        let iv = [1i64, 100, 86_400_000][sx::choose(0, 2, "interval")];
        sx::set_clock(BASE, [0, 123_456_789][sx::choose(0, 1, "ns")]);
        let b = bucket(Some(sx::range(0, 9, "max") as usize), sx::range(0, 9, "initial") as usize, sx::range(0, 9, "refill") as usize, iv);
        let raw = serde_json::to_string(&b).unwrap();
        match serde_json::from_str::<RateBucket>(&raw) {
            Ok(c) => sx::check!(c == b, "a bucket written as text reloads as it was"),
            Err(_) => sx::fail("a bucket written as text must reload"),
        }
        sx::cover("json");
    }
    fn count_bucket() {
        let max = if sx::bool("max?") { Some(sx::i64("max")) } else { None };
        let init = sx::i64("init");
        let how = sx::choose(0, 2, "how");
        let mut b = match how {
            0 => CountBucket::new_with_init(init, max),
            1 => CountBucket::from(&CountBucketConfig { max, initial: init }),
            _ => {
                let mut x = CountBucketBuilder::default();
                x.initial(init);
                if let Some(m) = max { x.max(m) }
                x.build()
            }
        };
        sx::check!(b.max() == max, "the maximum is as configured");
        sx::check!(b.fetch() == init, "the count starts as configured");
        let mut want = init;
        for _ in 0..sx::param("ops", 4) {
            let v = sx::i64("v");
            if sx::bool("dec") { b.dec(v); want = want.wrapping_sub(v) } else { b.inc(v); want = want.wrapping_add(v) }
            sx::check!(b.fetch() == want, "the count is what was added less what was taken");
        }
        let raw = bincode::serialize(&b).unwrap();
        let c: CountBucket = bincode::deserialize(&raw).unwrap();
        sx::check!(c.fetch() == b.fetch() && c.max() == b.max(), "a stored counter reloads as it was");
        sx::check!(CountBucket::new(max).fetch() == 0, "a new counter is empty");
        sx::cover("counted");
    }
}
