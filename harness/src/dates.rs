//! C25, C26: stored dates
#[cfg(not(kani))]
use crate::kani;
use crate::{harnesses, witness};
use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
use lcms2::types::DateTimeNumber;

fn days(year: u32, month: u32) -> u32 {
    match month {
        2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn near(v: u16, lo: u32, hi: u32) -> u32 {
    if (v as u32) < lo {
        lo
    } else if v as u32 > hi {
        hi
    } else {
        v as u32
    }
}

harnesses! {
    #[kani::unwind(4)]
    fn decode() {
        let d = DateTimeNumber {
            year: kani::any(),
            month: kani::any(),
            day: kani::any(),
            hours: kani::any(),
            minutes: kani::any(),
            seconds: kani::any(),
        };
        let t: NaiveDateTime = d.into();
        let month = near(d.month, 1, 12);
        assert!(t.year() == d.year as i32);
        assert!(t.month() == month);
        assert!(t.day() == near(d.day, 1, days(d.year as u32, month)));
        assert!(t.hour() == near(d.hours, 0, 23));
        assert!(t.minute() == near(d.minutes, 0, 59));
        assert!(t.second() == near(d.seconds, 0, 59));
        assert!(t.nanosecond() == 0);
        witness!(d.month == 2 && d.day == 30 && d.year == 1900, "February 1900");
        witness!(d.month == 2 && d.day == 29 && d.year == 2000, "a leap day");
        witness!(d.month == 0 && d.day == 0 && d.hours == 24, "out of range");
    }
    #[kani::unwind(4)]
    fn encode() {
        let (y, mo, d): (u16, u32, u32) = (kani::any(), kani::any(), kani::any());
        let (h, mi, s, n): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
        let date = NaiveDate::from_ymd_opt(y as i32, mo, d);
        kani::assume(date.is_some() && h < 24 && mi < 60 && s < 60 && n < 1_000_000_000);
        let t = date.unwrap().and_hms_nano(h, mi, s, n);
        let e = DateTimeNumber::from(t);
        assert!(e.year == y && e.month as u32 == mo && e.day as u32 == d);
        assert!(e.hours as u32 == h && e.minutes as u32 == mi && e.seconds as u32 == s);
        let back: NaiveDateTime = e.into();
        assert!(back.date() == date.unwrap());
        assert!(back.hour() == h && back.minute() == mi && back.second() == s && back.nanosecond() == 0);
        witness!(y == 0, "year 0");
        witness!(y == 2024 && mo == 2 && d == 29, "a leap day");
        witness!(y == 65535 && mo == 12, "the last year");
    }
}
