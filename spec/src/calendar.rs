//! The 365-day calendar: dates, day-of-year, arithmetic and periods.
use crate::Float;
use std::cmp::Ordering;

#[derive(Copy, Clone, PartialEq)]
pub struct Date {
    pub month: u8,
    pub day: u8,
    pub hour: Float,
}

const MONTH_LEN: [u8; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

impl std::ops::Sub for Date {
    type Output = Float;
    fn sub(self, other: Self) -> Float {
        self.day_of_year() - other.day_of_year()
    }
}

impl Eq for Date {}

impl PartialOrd for Date {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Date {
    /// lexicographic on (month, day, hour)
    fn cmp(&self, other: &Self) -> Ordering {
        if self.month != other.month {
            return if self.month < other.month { Ordering::Less } else { Ordering::Greater };
        }
        if self.day != other.day {
            return if self.day < other.day { Ordering::Less } else { Ordering::Greater };
        }
        if self.hour < other.hour {
            Ordering::Less
        } else if self.hour > other.hour {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
}

impl Date {
    /// days elapsed since 1 January 00:00
    pub fn day_of_year(&self) -> Float {
        const BEFORE: [Float; 12] = [0., 31., 59., 90., 120., 151., 181., 212., 243., 273., 304., 334.];
        BEFORE[self.month as usize - 1] + (self.day as Float - 1.0) + self.hour / 24.0
    }

    /// inverse of `day_of_year`
    pub fn from_day_of_year(n: Float) -> Self {
        if n < 0. || n >= 365. {
            panic!("out of the year")
        }
        let (month, before) = if n >= 334. {
            (12, 334.)
        } else if n >= 304. {
            (11, 304.)
        } else if n >= 273. {
            (10, 273.)
        } else if n >= 243. {
            (9, 243.)
        } else if n >= 212. {
            (8, 212.)
        } else if n >= 181. {
            (7, 181.)
        } else if n >= 151. {
            (6, 151.)
        } else if n >= 120. {
            (5, 120.)
        } else if n >= 90. {
            (4, 90.)
        } else if n >= 59. {
            (3, 59.)
        } else if n >= 31. {
            (2, 31.)
        } else {
            (1, 0.)
        };
        let whole = (n - before).floor();
        Date { month, day: whole as u8 + 1, hour: (n - before - whole) * 24.0 }
    }

    pub fn interpolate(&self, other: Self, x: Float) -> Self {
        let a = self.day_of_year();
        let b = other.day_of_year();
        let b = if b < a { b + 365. } else { b };
        Date::from_day_of_year((a + x * (b - a)) % 365.)
    }

    pub fn add_days(&mut self, n_days: usize) {
        let n = n_days % 365;
        if n == 0 {
            return;
        }
        let len = MONTH_LEN[self.month as usize - 1] as usize;
        let day = self.day as usize + n;
        if day <= len {
            self.day += n as u8;
        } else {
            self.month = if self.month == 12 { 1 } else { self.month + 1 };
            self.day = 1;
            self.add_days(day - len - 1);
        }
    }

    pub fn add_hours(&mut self, n_hours: Float) {
        let whole = (n_hours / 24.).floor();
        self.add_days(whole as usize);
        self.hour += n_hours - whole * 24.;
        if self.hour >= 24. {
            self.add_days(1);
            self.hour %= 24.0;
        }
    }

    pub fn add_minutes(&mut self, minutes: Float) {
        self.add_hours(minutes / 60.)
    }

    pub fn add_seconds(&mut self, dt: Float) {
        self.add_hours(dt / 3600.)
    }

    pub fn same_day(&self, other: Self) -> bool {
        self.day == other.day && self.month == other.month
    }
}

#[derive(Copy, Clone)]
pub struct Period {
    pub end: Date,
    pub start: Date,
    pub current: Date,
    pub dt: Float,
    pub goes_through_new_year: bool,
}

impl Period {
    pub fn new(start: Date, end: Date, dt: Float) -> Self {
        if start.hour >= 24.0 || end.hour >= 24.0 {
            panic!("hours go from 0 to 24")
        }
        Self { end, start, current: start, dt, goes_through_new_year: start > end }
    }

    pub fn contains(&self, date: Date) -> bool {
        let before_end = date <= self.end;
        let after_start = date >= self.start;
        if self.goes_through_new_year {
            before_end || after_start
        } else {
            before_end && after_start
        }
    }
}

impl Iterator for Period {
    type Item = Date;
    fn next(&mut self) -> Option<Date> {
        let old = self.current;
        let mut new = old;
        new.add_seconds(self.dt);
        let crossed_end = (old <= self.end) != (new <= self.end);
        let crossed_ny = new < old;
        let stop = if crossed_ny { !self.goes_through_new_year } else { crossed_end };
        if stop {
            return None;
        }
        self.current = new;
        Some(new)
    }
}
