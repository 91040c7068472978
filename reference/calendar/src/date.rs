/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use crate::Float;
use std::cmp::{Ordering, PartialOrd};
use std::fmt;
use std::ops::Sub;

#[cfg(feature = "chrono")]
use chrono::NaiveDate;

#[cfg(feature = "serde")]
use serde::{Deserialize, Serialize};

/// An extremely simple Date object. We don't
/// need anything else, I think.
/// It does not consider years at all!
/// Days and Months are counted from 1
/// (e.g. January is 1, not 0)
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
#[derive(Copy, Clone, PartialEq, Debug, Default)]
pub struct Date {
    /// Months of the year, from 1 to 12
    pub month: u8,

    /// Day of the month, from 1 to N
    pub day: u8,

    /// Hour of the day, from 0.0 to 23.999999
    pub hour: Float,
}

#[cfg(feature = "chrono")]
use chrono::{Datelike, NaiveDateTime, Timelike};

#[cfg(feature = "chrono")]
impl std::convert::From<NaiveDateTime> for Date {
    fn from(item: NaiveDateTime) -> Self {
        let month = item.month() as u8;
        let day = item.day() as u8;
        let hour_int = item.hour() as Float;
        let minute = item.minute() as Float;
        let seconds = item.second() as Float;
        let hour = hour_int + minute / 60. + seconds / 3600.;
        Self { month, day, hour }
    }
}

impl fmt::Display for Date {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // format hour

        let mut hour = self.hour.floor();

        let remainder = self.hour - hour;

        let mut minute = (remainder * 60.0).round();
        if minute == 60.0 {
            hour += 1.0;
            minute = 0.0
        }

        // ignore seconds

        write!(
            f,
            "{:02}/{:02} - {}:{:02}",
            self.month, self.day, hour, minute
        )
    }
}

impl Sub for Date {
    type Output = Float;

    fn sub(self, other: Self) -> Float {
        self.day_of_year() - other.day_of_year()
    }
}

impl Eq for Date {}

impl PartialOrd for Date {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Date {
    fn cmp(&self, other: &Self) -> Ordering {
        match self.month.cmp(&other.month) {
            Ordering::Less => Ordering::Less,
            Ordering::Greater => Ordering::Greater,
            Ordering::Equal => {
                match self.day.cmp(&other.day) {
                    Ordering::Less => Ordering::Less,
                    Ordering::Greater => Ordering::Greater,
                    Ordering::Equal => {
                        // Same day and month; compare by hour
                        if self.hour < other.hour {
                            Ordering::Less
                        } else if self.hour > other.hour {
                            Ordering::Greater
                        } else {
                            // They are the same
                            Ordering::Equal
                        }
                    }
                }
            }
        }
    }
}

impl Date {
    /// Transforms a Date into a `chrono` `NaiveDateTime`.
    ///
    /// Because `Date` does not have a year, we need to pass it as a parameter.        
    #[cfg(feature = "chrono")]
    pub fn into_naive_datetime(self, year: i32) -> Result<NaiveDateTime, String> {
        let hour = self.hour.floor();
        let remainder = self.hour - hour;
        // whole seconds within the hour (without rounding up to the next hour)
        let seconds = ((remainder * 3600.0).round() as u32).min(3599);
        let min = seconds / 60;
        let sec = seconds % 60;

        let r = NaiveDate::from_ymd_opt(year, self.month as u32, self.day as u32)
            .ok_or("Could not build chronos::Date")?;
        let hour = hour.round() as u32;
        let r = r
            .and_hms_opt(hour, min, sec)
            .ok_or("Could not add HMS to chrosnos::Date")?;
        Ok(r)
    }

    /// Interpolates between two dates
    pub fn interpolate(&self, other: Self, x: Float) -> Self {
        let n_self = self.day_of_year();
        let mut n_other = other.day_of_year();

        // If we celebrate new years between both dates
        if n_other < n_self {
            n_other += 365.
        }

        // Interpolate between the two
        let full_n = n_self + x * (n_other - n_self);
        Date::from_day_of_year(full_n % 365.)
    }

    /// Transforms a day of the year into a date
    pub fn from_day_of_year(n: Float) -> Self {
        if !(0. ..365.).contains(&n) {
            panic!("Impossible day of the year '{}' when building a date", n);
        }

        const CUMULATED_DAYS_BEFORE_MONTH: [Float; 12] = [
            0.,   // Jan
            31.,  // Feb
            59.,  // Mar
            90.,  // Apr
            120., // May
            151., // Jun
            181., // Jul
            212., // Aug
            243., // Sept
            273., // Oct
            304., // Nov
            334., // Dec
        ];

        for i in 0..12 {
            if CUMULATED_DAYS_BEFORE_MONTH[i] > n {
                let day_hour = n - CUMULATED_DAYS_BEFORE_MONTH[i - 1];
                let day = day_hour.floor();
                let hour = day_hour - day;

                debug_assert!(hour < 1.0);

                return Date {
                    month: i as u8,
                    day: 1 + day as u8,
                    hour: hour * 24.0,
                };
            }
        }
        // December
        let day_hour = n - CUMULATED_DAYS_BEFORE_MONTH[11];
        let day = day_hour.floor();
        let hour = day_hour - day;

        debug_assert!(hour < 1.0);

        // Return
        Date {
            month: 12,
            day: 1 + day as u8,
            hour: hour * 24.0,
        }
    }

    /// Retrieves the day of the year corresponding
    /// to the date (includes the decimals for the hour)
    pub fn day_of_year(&self) -> Float {
        const CUMULATED_DAYS_BEFORE_MONTH: [Float; 12] = [
            0.,   // Jan
            31.,  // Feb
            59.,  // Mar
            90.,  // Apr
            120., // May
            151., // Jun
            181., // Jul
            212., // Aug
            243., // Sept
            273., // Oct
            304., // Nov
            334., // Dec
        ];

        CUMULATED_DAYS_BEFORE_MONTH[self.month as usize - 1] + self.day as Float + self.hour / 24.0
            - 1.0
    }

    /// Adds a certain number of seconds to a date
    pub fn add_hours(&mut self, n_hours: Float) {
        // Calculate how many days are in those hours, and add them.
        let n_days = (n_hours / 24.).floor();
        self.add_days(n_days as usize);

        // Get remaining seconds and add them
        let remaining_hours = n_hours - 24. * n_days;

        self.hour += remaining_hours;
        if self.hour >= 24. {
            // ... remaining hours should be smaller than 24,
            // so adding a single day should be fine.
            self.add_days(1);
            self.hour %= 24.0;
        }
    }

    /// Adds a certain number of days to a date.
    pub fn add_days(&mut self, n_days: usize) {
        const N_DAYS_PER_MONTH: [u8; 12] = [
            31, // Jan
            28, // Feb
            31, // March
            30, // Apr
            31, // May
            30, // Jun
            31, // Jul
            31, // Aug
            30, // Sept
            31, // Oct
            30, // Nov
            31, // Dec
        ];

        // Lets recursively consume n_days month by month.
        let n_days = n_days % 365;
        if n_days > 0 {
            let would_be_day = self.day as usize + n_days; // Now we can add more than a year
            let n_days_this_month = N_DAYS_PER_MONTH[self.month as usize - 1];

            if would_be_day > n_days_this_month as usize {
                // Add one month, considering that this might be a change in year
                self.month += 1;
                if self.month == 13 {
                    self.month = 1;
                }

                // reset the day
                self.day = 1;
                // And try again with the remaining days
                self.add_days(would_be_day - n_days_this_month as usize - 1);
            } else {
                // No change in month.
                self.day += n_days as u8;
            }
        }
    }

    /// Adds a timestep to the date.
    /// dt is in seconds
    pub fn add_seconds(&mut self, dt: Float) {
        self.add_hours(dt / 3600.);
    }

    /// Adds minutes to the date.    
    pub fn add_minutes(&mut self, minutes: Float) {
        self.add_hours(minutes / 60.);
    }

    /// Checks whether two dates have same day and month
    pub fn same_day(&self, other: Self) -> bool {
        self.month == other.month && self.day == other.day
    }

    /// Checks whether one date is earlier than another
    /// date. Dates are NOT earlier than themselvs.    
    #[deprecated = "Use 'self < other'  instead"]
    pub fn is_earlier(&self, other: Date) -> bool {
        if *self == other {
            return false;
        }
        self <= &other
    }
}

