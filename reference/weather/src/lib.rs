/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

#![deny(missing_docs)]

//! This library is both an [EPW file parser](https://energyplus.net/weather) and
//! a trait that allows getting weather data for simulations

/// The kind of Floating point number used in the
/// library... the `"float"` feature means it becomes `f32`
/// and `f64` is used otherwise.
#[cfg(feature = "float")]
pub type Float = f32;

/// The kind of Floating point number used in the
/// library... the `"float"` feature means it becomes `f32`
/// and `f64` is used otherwise.
#[cfg(not(feature = "float"))]
pub type Float = f64;

#[cfg(feature = "float")]
const PI: Float = std::f32::consts::PI;

#[cfg(not(feature = "float"))]
const PI: Float = std::f64::consts::PI;

/// Solar calculations library. Based on Duffie and Beckman's excellent book.
///
/// We follow the convention of the book. This means that everything is in
/// international units, and times are solar. Angles (inputs and outputs) are
/// in Radians but can be converted into Degrees through the in_degrees() and
/// in_radiance() functions.
///
/// Solar azimuth angle is the angular displacement from south of the
/// projection of beam radiation on the horizontal plane (Figure 1.6.1 of the Book).
/// Displacements east of south are negative and west of south are positive.
///
/// North points in the Y direction. East points in the X direction. Up points in Z.
pub mod solar;
pub use self::solar::{PerezSky, ReinhartSky, SkyUnits, Solar, Time};

/// Data associated to a specific Location
pub mod location;
pub use crate::location::Location;

/// Data associated to the specific weather conditions at a particular moment
pub mod current_weather;
pub use crate::current_weather::CurrentWeather;

/// For handling EPW Files
pub mod epw;
pub use epw::{
    ground_temperature::EPWGroundTemperature, weather::EPWWeather, weather_line::EPWWeatherLine,
};
use serde::{Deserialize, Serialize};

/// Allows creating weathers that can be used for highly-specific
/// simulation. E.g., Having a sinusoidal exterior temperature with no
/// sun.
pub mod synthetic_weather;
pub use crate::synthetic_weather::SyntheticWeather;
pub use calendar::Date;

/// The basic trait defining a Weather that can be used in
/// Building Simulation
pub trait WeatherTrait: Sync {
    /// Retreives a [`CurrentWeather`] object based on the date.
    fn get_weather_data(&self, date: Date) -> CurrentWeather;
}

/// A structure containing weather data
#[derive(Serialize, Deserialize, Debug, Default, Clone)]
pub struct Weather {
    /// The weather data
    pub data: Vec<CurrentWeather>,

    /// Information about the location of the weather
    ///
    /// This is based on EPW Files information
    pub location: Location,
}

impl Weather {
    /// Gets a weather line corresponding to a specific [`Date`].
    ///
    /// It interpolates if necessary    
    pub fn find_weather_line(&self, date: Date) -> CurrentWeather {
        match self.data.binary_search_by(|x| x.date.cmp(&date)) {
            Ok(i) => {
                // Exact match.
                self.data[i]
            }
            Err(i) => {
                let n = self.data.len();
                if i == 0 || i == n {
                    // Border condition: Date is between the last and the first dates found in the data.
                    // This means we need to interpolate with element 0.
                    let last_date = self.data[n - 1].date;
                    let first_date = self.data[0].date;
                    let last_n = last_date.day_of_year();
                    let first_n = first_date.day_of_year() + 365.;
                    let mut date_n = date.day_of_year();
                    if i == 0 {
                        // The date is in the year after the last one in the data
                        date_n += 365.;
                    }

                    let x = (date_n - last_n) / (first_n - last_n);
                    self.data.last().unwrap().interpolate(&self.data[0], x)
                } else {
                    let before = self.data[i - 1].date;
                    let after = self.data[i].date;

                    let before_n = before.day_of_year();
                    let after_n = after.day_of_year();
                    let date_n = date.day_of_year();

                    let x = (date_n - before_n) / (after_n - before_n);
                    self.data[i - 1].interpolate(&self.data[i], x)
                }
            }
        }
    }

    /// Sorts the data by date
    pub fn sort_data(&mut self) {
        self.data.sort_by(|a, b| a.date.cmp(&b.date));
    }

    /// Calculates the solar data (direct_normal, diffuse_horizontal, global_horizontal)
    /// from an array of [`CurrentWeather`].
    pub fn fill_solar_radiation_data(&mut self) -> Result<(), String> {
        let solar = self.location.get_solar();

        let solar_data: Vec<(Float, Float, Float)> = self
            .data
            .iter()
            .enumerate()
            .map(|(line_index, current_data)| {
                let date = current_data.date;

                let pos = solar.sun_position_from_standard_time(date);
                if let Some(sun_direction) = pos {
                    let three_hours_prior_data = if line_index >= 3 {
                        self.data[line_index - 3]
                    } else {
                        *current_data
                    };
                    let prior_data: Option<CurrentWeather> = if line_index >= 1 {
                        let r = self.data[line_index - 1];
                        Some(r)
                    } else {
                        None
                    };

                    let next_data: Option<CurrentWeather> = if line_index + 1 < self.data.len() {
                        let r = self.data[line_index + 1];
                        Some(r)
                    } else {
                        None
                    };

                    let (direct_normal, diffuse_horizontal, global) = solar
                        .direct_diffuse_from_cloud_generic(
                            sun_direction,
                            *current_data,
                            next_data,
                            prior_data,
                            three_hours_prior_data,
                        );
                    (direct_normal, diffuse_horizontal, global)
                } else {
                    (0.0, 0.0, 0.0)
                }
            })
            .collect();

        // write results
        for (w, calculated) in self.data.iter_mut().zip(solar_data) {
            // dbg!(calculated, w.date);
            w.direct_normal_radiation = calculated.0;
            w.diffuse_horizontal_radiation = calculated.1;
            w.global_horizontal_radiation = calculated.2;
        }

        Ok(())
    }
}

impl std::ops::AddAssign<Self> for Weather {
    fn add_assign(&mut self, rhs: Self) {
        if self.location == rhs.location {
            self.data.extend_from_slice(&rhs.data)
        } else {
            panic!("Trying to concatenate climates from different origins")
        }
    }
}

impl WeatherTrait for Weather {
    fn get_weather_data(&self, date: Date) -> CurrentWeather {
        self.find_weather_line(date)
    }
}

