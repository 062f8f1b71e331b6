//! C17: time stamps convert without loss, and refuse what does not fit.
use crate::fw::*;
use ntfs::NtfsTime;
use std::time::{Duration, SystemTime};
use time::{Date, Month, OffsetDateTime, Time, UtcOffset};
use vmodel::prng::*;

pub static CHECK: Check = Check {
    id: "C17",
    level: "exploration",
    rule: "case = 400 instants: NT time stamps (uniform, extreme, around both epochs, powers of two, second, day, leap-day, year and century borders), civil times over the whole range of years -999999..999999 with any UTC offset and nanosecond, and system times from far before 1601 to the end of the clock; each converted in both directions and compared with an independent proleptic Gregorian calendar in 128-bit arithmetic (exact value, or error exactly outside 0..2^64 intervals), round trip, the same instant through every route, and order against the neighbouring instants. Non-trivial: distinct instant",
    cases: (12_000, 400_000),
    secs: (40, 900),
    run,
    need: &["stamps", "civil_exact", "civil_too_early", "civil_too_late", "civil_fraction", "system_exact", "system_before_1970", "system_too_early", "system_too_late", "system_fraction", "offsets", "leap_days", "enumerated_borders", "ordered", "both_routes", "both_routes_fraction"],
    assumptions: &["instants between two 100 ns ticks may be rounded either way, as long as order is kept and the result is one of the two neighbouring ticks (or an error when either neighbour is out of range)"],
    limits: (500_000_000, 1 << 30),
};

const DIFF: i128 = 116_444_736_000_000_000;
const MAX: i128 = u64::MAX as i128;

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
/// Days from 1601-01-01 to the given civil date, straight from the rules of the calendar.
fn days(y: i64, m: i64, d: i64) -> i64 {
    let n = y - 1601;
    // Leap days in the years before y, counted from 1601.
    let l = (n.div_euclid(4)) - (n.div_euclid(100)) + (n.div_euclid(400));
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    n * 365 + l + ml[..m as usize - 1].iter().sum::<i64>() + d - 1
}
fn civil(mut day: i64) -> (i64, i64, i64) {
    let mut y = 1601 + day / 366;
    while day >= days(y + 1, 1, 1) {
        y += 1;
    }
    day -= days(y, 1, 1);
    let ml = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while day >= ml[m] {
        day -= ml[m];
        m += 1;
    }
    (y, m as i64 + 1, day + 1)
}

fn stamp(p: &mut Prng) -> u64 {
    let around = |p: &mut Prng, c: u64| {
        let s = p.below(40);
        let d = p.skewed(s as u32);
        if p.chance(1, 2) { c.wrapping_add(d) } else { c.wrapping_sub(d) }
    };
    match p.below(9) {
        0 => p.u64(),
        1 => p.skewed(64),
        2 => around(p, 0),
        3 => around(p, DIFF as u64),
        4 => {
            let k = p.below(64);
            around(p, 1 << k)
        }
        5 => around(p, i64::MAX as u64),
        6 => {
            let s = p.below(1_844_674_407_370);
            around(p, s * 10_000_000)
        }
        7 => {
            let day = p.below(21_350_398);
            around(p, day * 864_000_000_000)
        }
        _ => {
            // Year, leap-day and century borders.
            let y = 1601 + if p.chance(1, 2) { p.below(600) } else { p.below(58_000) } as i64;
            let y = match p.below(3) {
                0 => y,
                1 => y / 100 * 100 + 100,
                _ => y / 400 * 400 + 400,
            };
            let (m, d) = *p.pick(&[(1, 1), (2, 28), (3, 1), (12, 31)]);
            around(p, (days(y.min(60_000), m, d) as u64) * 864_000_000_000)
        }
    }
}

/// Judges a conversion of the instant `ticks` + `frac` (nanoseconds, 0..100).
fn judge(what: &str, ticks: i128, frac: i128, got: Option<u64>) -> Res {
    let lo_in = (0..=MAX).contains(&ticks);
    let hi = ticks + (frac > 0) as i128;
    let hi_in = (0..=MAX).contains(&hi);
    match got {
        Some(v) => {
            let v = v as i128;
            ensure!((v == ticks && lo_in) || (v == hi && hi_in), "{what}: the instant {ticks} intervals + {frac} ns after 1601 becomes {v}");
        }
        None => ensure!(!(lo_in && hi_in), "{what}: the instant {ticks} intervals + {frac} ns after 1601 is refused"),
    }
    Ok(())
}

fn check_stamp(ctx: &mut Ctx, p: &mut Prng, t: u64) -> Res {
    let nt = NtfsTime::from(t);
    ensure!(nt.nt_timestamp() == t, "NtfsTime::from({t}) reports {}", nt.nt_timestamp());
    let dt = OffsetDateTime::from(nt);
    let day = (t / 864_000_000_000) as i64;
    let r = t % 864_000_000_000;
    let (y, m, d) = civil(day);
    let want = (y as i32, m as u8, d as u8, (r / 36_000_000_000) as u8, (r / 600_000_000 % 60) as u8, (r / 10_000_000 % 60) as u8, (r % 10_000_000 * 100) as u32);
    let u = dt.to_offset(UtcOffset::UTC);
    let got = (u.year(), u.month() as u8, u.day(), u.hour(), u.minute(), u.second(), u.nanosecond());
    ensure!(got == want, "time stamp {t} is shown as {got:?}, but means {want:?}");
    ctx.count("leap_days", (m == 2 && d == 29) as u64);
    match NtfsTime::try_from(dt) {
        Ok(b) => ensure!(b == nt && b.nt_timestamp() == t, "time stamp {t} comes back from civil time as {}", b.nt_timestamp()),
        Err(e) => bail!("time stamp {t} cannot be converted back from civil time: {e}"),
    }
    // The same instant seen from another time zone.
    if let Some(o) = offset(p).and_then(|o| dt.checked_to_offset(o)) {
        match NtfsTime::try_from(o) {
            Ok(b) => ensure!(b.nt_timestamp() == t, "time stamp {t} at offset {} becomes {}", o.offset(), b.nt_timestamp()),
            Err(e) => bail!("time stamp {t} at offset {} is refused: {e}", o.offset()),
        }
        ctx.count("offsets", 1);
    }
    // Through system time.
    let st = if t as i128 >= DIFF {
        let k = t - DIFF as u64;
        SystemTime::UNIX_EPOCH.checked_add(Duration::new(k / 10_000_000, (k % 10_000_000) as u32 * 100))
    } else {
        let k = DIFF as u64 - t;
        SystemTime::UNIX_EPOCH.checked_sub(Duration::new(k / 10_000_000, (k % 10_000_000) as u32 * 100))
    };
    let Some(st) = st else { bail!("harness: {t} does not fit a system time") };
    match NtfsTime::try_from(st) {
        Ok(b) => ensure!(b.nt_timestamp() == t, "time stamp {t} comes back from system time as {}", b.nt_timestamp()),
        Err(e) => bail!("time stamp {t} is refused as a system time: {e}"),
    }
    // Order against a neighbour.
    let s = p.below(64);
    let t2 = if p.chance(1, 2) { t.saturating_add(p.skewed(s as u32)) } else { stamp(p) };
    let n2 = NtfsTime::from(t2);
    ensure!(nt.cmp(&n2) == t.cmp(&t2) && (nt == n2) == (t == t2) && nt.partial_cmp(&n2) == Some(t.cmp(&t2)), "time stamps {t} and {t2} compare as {:?}", nt.cmp(&n2));
    ensure!(OffsetDateTime::from(n2).cmp(&dt) == t2.cmp(&t), "time stamps {t} and {t2} are in another order as civil times");
    ctx.count("ordered", 1);
    ctx.count("stamps", 1);
    ctx.eval(mix(t), true);
    Ok(())
}

fn offset(p: &mut Prng) -> Option<UtcOffset> {
    UtcOffset::from_hms(p.range(0, 46) as i8 - 23, p.range(0, 118) as i8 - 59, 0).ok().or_else(|| UtcOffset::from_hms(if p.chance(1, 2) { 14 } else { -12 }, 0, 0).ok())
}

/// Converts the instant given by days since 1601 and nanoseconds of the day.
fn check_civil(ctx: &mut Ctx, p: &mut Prng, y: i64, m: i64, d: i64, nanos: i128) -> Result<Option<(i128, u64)>, Viol> {
    let total = days(y, m, d) as i128 * 86_400_000_000_000 + nanos;
    let Ok(month) = Month::try_from(m as u8) else { bail!("harness: month") };
    let s = (nanos / 1_000_000_000) as u64;
    let (Ok(date), Ok(time)) = (Date::from_calendar_date(y as i32, month, d as u8), Time::from_hms_nano((s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as u8, (nanos % 1_000_000_000) as u32)) else {
        bail!("harness: {y}-{m}-{d}")
    };
    let mut dt = date.with_time(time).assume_utc();
    if p.chance(1, 2) {
        if let Some(o) = offset(p).and_then(|o| dt.checked_to_offset(o)) {
            dt = o;
            ctx.count("offsets", 1);
        }
    }
    let (ticks, frac) = (total.div_euclid(100), total.rem_euclid(100));
    let got = NtfsTime::try_from(dt).ok().map(|t| t.nt_timestamp());
    judge(&format!("civil time {dt}"), ticks, frac, got)?;
    ctx.count(if ticks < 0 { "civil_too_early" } else if ticks > MAX { "civil_too_late" } else if frac > 0 { "civil_fraction" } else { "civil_exact" }, 1);
    if let (Some(v), 0) = (got, frac) {
        let back = OffsetDateTime::from(NtfsTime::from(v));
        ensure!(back == dt, "civil time {dt} comes back as {back}");
    }
    ctx.eval(mix(total as u64 ^ mix((total >> 64) as u64)) ^ 1, true);
    Ok(got.map(|v| (total, v)))
}

fn check_system(ctx: &mut Ctx, total: i128) -> Result<Option<(i128, u64)>, Viol> {
    // total: nanoseconds since 1601.
    let unix = total - DIFF * 100;
    let a = unix.unsigned_abs();
    let secs = a / 1_000_000_000;
    if secs > u64::MAX as u128 {
        return Ok(None);
    }
    let du = Duration::new(secs as u64, (a % 1_000_000_000) as u32);
    let st = if unix >= 0 { SystemTime::UNIX_EPOCH.checked_add(du) } else { SystemTime::UNIX_EPOCH.checked_sub(du) };
    let Some(st) = st else { return Ok(None) };
    let (ticks, frac) = (total.div_euclid(100), total.rem_euclid(100));
    let got = NtfsTime::try_from(st).ok().map(|t| t.nt_timestamp());
    judge(&format!("system time {unix} ns from the Unix epoch"), ticks, frac, got)?;
    ctx.count(if ticks < 0 { "system_too_early" } else if ticks > MAX { "system_too_late" } else if frac > 0 { "system_fraction" } else { "system_exact" }, 1);
    // The same instant as a civil time.
    if let Ok(dt) = OffsetDateTime::from_unix_timestamp_nanos(unix) {
        let c = NtfsTime::try_from(dt).ok().map(|t| t.nt_timestamp());
        ensure!(c == got, "{unix} ns from the Unix epoch: time stamp {got:?} as a system time, but {c:?} as a civil time");
        ctx.count("both_routes", 1);
        ctx.count("both_routes_fraction", (frac > 0 && unix < 0) as u64);
    }
    ctx.count("system_before_1970", (unix < 0 && ticks >= 0) as u64);
    ctx.eval(mix(total as u64 ^ mix((total >> 64) as u64)) ^ 2, true);
    Ok(got.map(|v| (total, v)))
}

fn run(ctx: &mut Ctx, seed: u64) -> Res {
    let mut p = Prng::new(seed);
    if ctx.idx < 16 {
        // Every instant around the borders, in steps of 1, 20 and 100 ns.
        for edge in [0i128, DIFF * 100, (MAX + 1) * 100, (1i128 << 63) * 100] {
            for step in [1i128, 20, 100] {
                let mut last: [Option<(i128, u64)>; 2] = [None, None];
                for k in -300i128..300 {
                    let total = edge + k * step;
                    let dn = total.div_euclid(86_400_000_000_000);
                    // Days before 1601 that these steps reach are all in December 1600.
                    let (y, m, d) = if dn < 0 { (1600, 12, 32 + dn as i64) } else { civil(dn as i64) };
                    let c = check_civil(ctx, &mut p, y, m, d, total.rem_euclid(86_400_000_000_000))?;
                    let s = check_system(ctx, total)?;
                    for (i, g) in [c, s].into_iter().enumerate() {
                        if let (Some((ta, a)), Some((tb, b))) = (last[i], g) {
                            ensure!(a <= b, "instants {ta} and {tb} ns after 1601 are converted to {a} and {b}");
                        }
                        last[i] = g.or(last[i]);
                    }
                    ctx.count("enumerated_borders", 1);
                }
            }
        }
    }
    for _ in 0..160 {
        let t = stamp(&mut p);
        check_stamp(ctx, &mut p, t)?;
    }
    let mut civ = vec![];
    for _ in 0..120 {
        let y = match p.below(6) {
            0 => p.range(0, 1_999_998) as i64 - 999_999,
            1 => p.range(1590, 1610) as i64,
            2 => p.range(1960, 2110) as i64,
            3 => p.range(60_046, 60_066) as i64,
            4 => *p.pick(&[-999_999i64, 999_999, 1600, 1601, 1970, 60_056, 60_055, 2000, 2038, 30_828, 0]),
            _ => p.range(1601, 60_056) as i64,
        };
        let m = p.range(1, 12) as i64;
        let last = match m {
            2 => 28 + leap(y) as u64,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        let d = if p.chance(1, 3) { last } else { p.range(1, last) } as i64;
        ctx.count("leap_days", (m == 2 && d == 29) as u64);
        let n = match p.below(4) {
            0 => 0,
            1 => 86_399_999_999_900 + p.below(100) as i128,
            2 => p.below(864_000_000_000) as i128 * 100,
            _ => p.below(86_400_000_000_000) as i128,
        };
        civ.extend(check_civil(ctx, &mut p, y, m, d, n)?);
        // A close neighbour, for the order.
        if n > 250 {
            let back = p.range(1, 250) as i128;
            civ.extend(check_civil(ctx, &mut p, y, m, d, n - back)?);
        }
    }
    let mut sys = vec![];
    for _ in 0..120 {
        let total = match p.below(6) {
            0 => p.u64() as i128 * 100,
            1 => stamp(&mut p) as i128 * 100,
            2 => stamp(&mut p) as i128 * 100 + p.below(100) as i128,
            3 => -(p.skewed(63) as i128) * (1 << p.below(26)),
            4 => (MAX + p.skewed(63) as i128) * 100 + p.below(100) as i128,
            _ => (p.u64() as i128 - p.u64() as i128) * 500 + p.below(1000) as i128,
        };
        let total = total.clamp(-(1i128 << 92), 1i128 << 92);
        sys.extend(check_system(ctx, total)?);
        sys.extend(check_system(ctx, total + p.range(1, 250) as i128)?);
    }
    // Far ends of the clock.
    for s in [i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 - 1] {
        sys.extend(check_system(ctx, s * 1_000_000_000 + DIFF * 100)?);
        sys.extend(check_system(ctx, s * 1_000_000_000 + DIFF * 100 + 999_999_999)?);
    }
    for l in [&mut civ, &mut sys] {
        l.sort_unstable();
        for w in l.windows(2) {
            ensure!(w[0].1 <= w[1].1, "instants {} and {} ns after 1601 are converted to {} and {}", w[0].0, w[1].0, w[0].1, w[1].1);
            ctx.count("ordered", 1);
        }
    }
    ctx.sample(|| format!("{} civil and {} system times converted, last {:?}", civ.len(), sys.len(), sys.last()));
    Ok(())
}
