//! C17: time arithmetic and conversions.
use bd_time::{OffsetDateTimeExt, ProtoDurationExt, TimeDurationExt, TimestampExt, ToProtoDuration};
use protobuf::well_known_types::duration::Duration as PD;
use time::OffsetDateTime;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Run};

const MIN: i64 = -377_705_116_800; // year -9999
const MAX: i64 = 253_402_300_799;

fn at(s: i64, n: u32) -> OffsetDateTime {
  OffsetDateTime::from_unix_timestamp_nanos(i128::from(s) * 1_000_000_000 + i128::from(n)).unwrap()
}
fn nanos() -> impl Strategy<Value = u32> {
  prop_oneof![3 => Just(0u32), 1 => Just(1u32), 1 => Just(999_999_999u32), 3 => 0u32 .. 1_000_000_000]
}
fn secs() -> impl Strategy<Value = i64> {
  prop_oneof![
    3 => 1_500_000_000i64 .. 1_900_000_000,
    2 => -100_000i64 .. 100_000,
    1 => Just(0i64), 1 => Just(-1i64),
    1 => MIN .. MAX,
    3 => (-40_000i64 .. 6_000_000).prop_map(|m| m * 300),
  ]
}

pub fn c17(run: &mut Run) {
  run.run(
    part(
      "rounding",
      120_000,
      2_000_000,
      "instants from year -9999 to 9999 with sub-second parts, often on a boundary, rounded to intervals of a second to weeks (with \
       sub-second parts, which count as rounded down); non-trivial = not already a multiple",
    ),
    || {
      (
        prop_oneof![4 => secs(), 1 => (-1000i64 .. 1000)],
        nanos(),
        prop_oneof![1i64 .. 100, prop::sample::select(vec![1i64, 5, 60, 300, 3600, 86_400, 604_800]), 1i64 .. 1_000_000],
        nanos(),
        -50_000i32 .. 50_000,
      )
    },
    |(s, n, i, i_n, offset), obs| {
      // Stay away from the ends of the calendar, where the result would not be representable.
      let s = (*s).clamp(MIN + 2_000_000, MAX - 2_000_000);
      let t = at(s, *n).to_offset(time::UtcOffset::from_whole_seconds(*offset).unwrap());
      let interval = time::Duration::seconds(*i) + time::Duration::nanoseconds(i64::from(*i_n));
      let exact = s.rem_euclid(*i) == 0 && *n == 0;
      obs.nontrivial(!exact);
      let (f, c) = (t.floor(interval), t.ceil(interval));
      let step = time::Duration::seconds(*i);
      for (what, r) in [("floor", f), ("ceil", c)] {
        ensure!(
          r.unix_timestamp_nanos() % (i128::from(*i) * 1_000_000_000) == 0,
          "{what} of {t} by {interval} is {r}, not a multiple"
        );
      }
      ensure!(f <= t && t - f < step, "floor of {t} by {interval} is {f}");
      ensure!(c >= t && c - t < step, "ceil of {t} by {interval} is {c}");
      ensure_eq!(f == c, exact, "floor and ceil of {t} by {interval} agree");
      ensure_eq!((f.floor(interval), f.ceil(interval)), (f, f), "rounding a multiple");
      Ok(())
    },
  );
  run.run(
    part(
      "timestamps",
      120_000,
      2_000_000,
      "instants in any UTC offset converted to wire timestamps and milliseconds and back; non-trivial = before 1970 or with a sub-second part",
    ),
    || (secs(), nanos(), -80_000i32 .. 80_000),
    |(s, n, offset), obs| {
      let s = (*s).clamp(MIN + 200_000, MAX - 200_000);
      obs.nontrivial(s < 0 || *n > 0);
      let t = at(s, *n).to_offset(time::UtcOffset::from_whole_seconds(*offset).unwrap());
      let p = t.into_proto().unwrap();
      ensure_eq!((p.seconds, p.nanos), (s, *n as i32), "wire form of {t}");
      ensure_eq!(p.to_offset_date_time(), t, "instant read back from the wire");
      let ms = (i128::from(s) * 1_000_000_000 + i128::from(*n)).div_euclid(1_000_000) as i64;
      ensure_eq!(t.unix_timestamp_ms(), ms, "milliseconds of {t}");
      Ok(())
    },
  );
  run.run(
    part(
      "durations",
      120_000,
      2_000_000,
      "signed durations converted to the wire form and back, and wire durations to the three host forms; non-trivial = negative or with a \
       sub-second part",
    ),
    || (prop_oneof![Just(0i64), -5i64 .. 5, any::<i32>().prop_map(i64::from), -315_576_000_000i64 .. 315_576_000_000], nanos()),
    |(s, n), obs| {
      obs.nontrivial(*s < 0 || *n > 0);
      // A wire duration has seconds and nanos of one sign.
      for sign in [1i64, -1] {
        let (ps, pn) = (s.abs() * sign, *n as i32 * sign as i32);
        let p = PD { seconds: ps, nanos: pn, ..Default::default() };
        let total = i128::from(ps) * 1_000_000_000 + i128::from(pn);
        ensure_eq!(p.to_std_duration_absolute().as_nanos(), total.unsigned_abs(), "absolute form of {ps}s {pn}ns");
        ensure_eq!(p.to_time_duration().whole_nanoseconds(), total, "signed form of {ps}s {pn}ns");
        let checked = p.to_std_duration_checked().map(|d| d.as_nanos());
        ensure_eq!(checked, if total < 0 { None } else { Some(total.unsigned_abs()) }, "checked form of {ps}s {pn}ns");
        let d = time::Duration::seconds(ps) + time::Duration::nanoseconds(i64::from(pn));
        let back = d.into_proto().unwrap();
        ensure_eq!((back.seconds, back.nanos), (ps, pn), "wire form of {d}");
      }
      let d = std::time::Duration::new(s.unsigned_abs(), *n);
      let back = d.into_proto().unwrap();
      ensure_eq!((back.seconds, back.nanos), (s.abs(), *n as i32), "wire form of {d:?}");
      Ok(())
    },
  );
  run.run(
    part(
      "timers",
      20_000,
      200_000,
      "sleeps, deadlines, intervals and jittered intervals on the virtual clock; non-trivial = longer than zero",
    ),
    || (0u64 .. 200_000, 1u64 .. 100_000),
    |(a, b), obs| {
      obs.nontrivial(*a > 0);
      let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
      rt.block_on(async {
        let (da, db) = (time::Duration::milliseconds(*a as i64), time::Duration::milliseconds(*b as i64));
        let start = tokio::time::Instant::now();
        let ms = |i: tokio::time::Instant| i.duration_since(start).as_millis() as u64;
        ensure_eq!(ms(da.add_tokio_now()), *a, "deadline from now");
        ensure_eq!(ms(db.add_tokio_instant(start)), *b, "deadline from an instant");
        let r = da.timeout(db.sleep()).await;
        ensure_eq!(ms(tokio::time::Instant::now()), *a.min(b), "time of a raced sleep");
        if a != b {
          ensure_eq!(r.is_ok(), b < a, "outcome of a raced sleep");
        }
        let t0 = tokio::time::Instant::now();
        let mut i = db.interval();
        i.tick().await;
        ensure_eq!(tokio::time::Instant::now(), t0, "first tick of an interval");
        i.tick().await;
        ensure_eq!((tokio::time::Instant::now() - t0).as_millis() as u64, *b, "second tick of an interval");
        let t0 = tokio::time::Instant::now();
        let mut i = db.interval_at();
        i.tick().await;
        ensure_eq!((tokio::time::Instant::now() - t0).as_millis() as u64, *b, "first tick of a delayed interval");
        let t0 = tokio::time::Instant::now();
        let mut i = db.jittered_interval_at();
        i.tick().await;
        let first = (tokio::time::Instant::now() - t0).as_millis() as u64;
        ensure!(first <= *b, "first tick of a jittered interval of {b} ms after {first} ms");
        i.tick().await;
        let second = (tokio::time::Instant::now() - t0).as_millis() as u64 - first;
        ensure_eq!(second, *b, "period of a jittered interval");
        Ok(())
      })
    },
  );
}
