/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/
use crate::Float;

use super::ground_temperature::EPWGroundTemperature;
use super::weather::EPWWeather;
use super::weather_line::EPWWeatherLine;
use std::fmt::Display;
use std::fs;
use std::path::Path;

pub(crate) struct EPWScanner<'a> {
    /// Indicates the position of current character being
    /// scanned
    current: usize,

    /// Indicates the position of the first character of the
    /// element being scanned
    start: usize,

    /// Indicates the line of the EPW file in which we are
    line: usize,

    /// The data source
    src: &'a Vec<u8>,

    /// Are we in a string? (i.e. within quotation marks, e.g. " STRING ")
    in_string: bool,
}

impl<'a> EPWScanner<'a> {
    /// Creates a new scanner.
    pub fn new(src: &'a Vec<u8>) -> Self {
        Self {
            current: 0,
            start: 0,
            line: 1,
            src,
            in_string: false,
        }
    }

    /// Builds a weather file starting from a file name
    pub fn from_file<P: AsRef<Path> + Display>(filename: P) -> Result<EPWWeather, String> {
        let src = match fs::read(&filename) {
            Ok(v) => v,
            Err(_) => return Err(format!("Could not read epw file '{}'", filename)),
        };

        EPWScanner::build_weather_file(&src)
    }

    /// Parses the EPW file and builds a proper EPWWeather
    pub fn build_weather_file(src: &'a Vec<u8>) -> Result<EPWWeather, String> {
        // build a scaner
        let mut scanner = EPWScanner::new(src);

        // create an empty .EPW
        let mut epw = EPWWeather::default();

        scanner.parse_file(&mut epw)?;

        Ok(epw)
    }

    /// Checks if the scanner is finished
    fn is_finished(&self) -> bool {
        self.current >= self.src.len()
    }

    /// Scans all the characters until reaching the Comma.
    /// Returns a slice    
    fn scan_element(&mut self) -> Option<&[u8]> {
        if self.is_finished() {
            return None;
        }

        loop {
            // Return if scanning is over
            if self.is_finished() {
                break;
            }

            // If we find a comma, and we are not in a string, break
            if !self.in_string && self.src[self.current] == b',' {
                break;
            }

            // Increase line number if required
            if self.src[self.current] == b'\n' {
                self.line += 1;
                break;
            }

            // Toggle string if we are in one.
            if self.src[self.current] == b'"' {
                self.in_string = !self.in_string;
            }
            self.current += 1;
        }

        // Ignore the \r thing that I hate
        let mut end = self.current;
        if end > self.start && self.src[end - 1] == b'\r' {
            end -= 1;
        }
        let (ini, fin) = (self.start, end);

        self.current += 1; // skip the comma
        self.start = self.current;

        self.src.get(ini..fin)
    }

    fn scan_string(slice: Option<&[u8]>) -> Result<String, String> {
        match slice {
            Some(v) => {
                let mut s: Vec<u8> = Vec::with_capacity(v.len());
                for b in v.iter() {
                    s.push(*b);
                }

                Ok(String::from_utf8(s).map_err(|e| e.to_string())?)
            }
            None => Err("Internal error... could not source text for element".to_string()),
        }
    }

    /// This function is meant to scan a string
    /// but not use it... returns a bool, but not needed
    fn skip_string(slice: Option<&[u8]>) -> Result<bool, String> {
        let _ = EPWScanner::scan_string(slice);
        Ok(true)
    }

    /// Scans an element and transforms it into a number
    fn scan_number(slice: Option<&[u8]>) -> Result<Float, String> {
        if let Ok(v) = EPWScanner::scan_string(slice) {
            let the_v = match v.parse::<Float>() {
                Ok(v) => v,
                Err(msg) => {
                    return Err(format!("Could not scan number '{}'... {}", v, msg));
                }
            };

            Ok(the_v)
        } else {
            Err("Could not scan number... scan_string() return error".to_string())
        }
    }

    /// Checks if the next element is empty
    fn next_is_empty(&self) -> bool {
        // If scanner is finished, is empty
        if self.is_finished() {
            return true;
        }

        // If not finished, check next one.
        match self.src[self.current] as char {
            ',' => {
                // if comma, empty.
                true
            }
            '\n' => {
                // if new line, we need to check the following
                self.src[self.current] as char == ','
            }
            _ => false,
        }
    }

    /// This function is supposed to recursively parse the entire
    /// file. However, for now it only scans the location and the
    /// data
    fn parse_file(&mut self, epw: &mut EPWWeather) -> Result<(), String> {
        loop {
            // Scan
            let slice_option = self.scan_element();

            // Break if we are finished
            if slice_option.is_none() {
                break;
            }
            let keyword = EPWScanner::scan_string(slice_option)?;

            // Parse ground temperatures, if they are found
            if keyword == *"GROUND TEMPERATURES" {
                self.parse_ground_temperature(epw)?;
            }

            // Parse location, when found
            if keyword == *"LOCATION" {
                self.parse_location(epw)?;
            }

            if keyword == *"DATA PERIODS" {
                self.parse_data_periods(epw)?;
            }
        }

        Ok(())
    }

    /// Parse the actual data, starting from the description of the
    /// data period.
    /// For now, this only allows a single data period
    fn parse_data_periods(&mut self, epw: &mut EPWWeather) -> Result<(), String> {
        let n = EPWScanner::scan_number(self.scan_element())? as usize;
        if n != 1 {
            panic!("Only one data period per EPW file is allowed!");
        }

        let n_records_per_hour = EPWScanner::scan_number(self.scan_element())? as usize;
        if n_records_per_hour != 1 {
            panic!("Only one record per hour is allowed in EPW file!");
        }

        let _data_period_name = EPWScanner::scan_string(self.scan_element())?;
        let _start_day_of_the_week = EPWScanner::scan_string(self.scan_element())?;

        // this is in month/day data format
        let _data_period_start_day = EPWScanner::scan_string(self.scan_element())?;
        // this is in month/day data format
        let _data_period_end_day = EPWScanner::scan_string(self.scan_element())?;

        // Now scan until the file is finished

        while !self.is_finished() {
            epw.data.push(EPWWeatherLine {
                year: EPWScanner::scan_number(self.scan_element())? as usize,
                month: EPWScanner::scan_number(self.scan_element())? as u8,
                day: EPWScanner::scan_number(self.scan_element())? as u8,
                hour: EPWScanner::scan_number(self.scan_element())?,
                minute: EPWScanner::scan_number(self.scan_element())? as u8,
                uncertainty_flags: EPWScanner::skip_string(self.scan_element())?,
                dry_bulb_temperature: EPWScanner::scan_number(self.scan_element())?,
                dew_point_temperature: EPWScanner::scan_number(self.scan_element())?,
                relative_humidity: EPWScanner::scan_number(self.scan_element())?,
                atmospheric_station_pressure: EPWScanner::scan_number(self.scan_element())?,
                extraterrestrial_horizontal_radiation: EPWScanner::scan_number(
                    self.scan_element(),
                )?,
                extraterrestrial_direct_normal_radiation: EPWScanner::scan_number(
                    self.scan_element(),
                )?,
                horizontal_infrared_radiation_intensity: EPWScanner::scan_number(
                    self.scan_element(),
                )?,
                global_horizontal_radiation: EPWScanner::scan_number(self.scan_element())?,
                direct_normal_radiation: EPWScanner::scan_number(self.scan_element())?,
                diffuse_horizontal_radiation: EPWScanner::scan_number(self.scan_element())?,
                global_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                direct_normal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                diffuse_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                zenith_luminance: EPWScanner::scan_number(self.scan_element())?,
                wind_direction: EPWScanner::scan_number(self.scan_element())?.min(360.), //Missing value is 999
                wind_speed: EPWScanner::scan_number(self.scan_element())?,
                total_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                opaque_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                visibility: EPWScanner::scan_number(self.scan_element())?,
                ceiling_height: EPWScanner::scan_number(self.scan_element())?,
                present_weather_observation: EPWScanner::scan_number(self.scan_element())?,
                present_weather_codes: EPWScanner::scan_number(self.scan_element())?,
                precipitable_water: EPWScanner::scan_number(self.scan_element())?,
                aerosol_optical_depth: EPWScanner::scan_number(self.scan_element())?,
                snow_depth: EPWScanner::scan_number(self.scan_element())?,
                last_day_since_last_snowfall: EPWScanner::scan_number(self.scan_element())?
                    as usize,
                albedo: EPWScanner::scan_number(self.scan_element())?,
                liquid_precipitation_depth: EPWScanner::scan_number(self.scan_element())?,
                liquid_precipitation_quantity: EPWScanner::scan_number(self.scan_element())?,
            })
        }
        Ok(())
    }

    /// Parses a location... assumes that the LOCATION
    /// keyword has been consumed already
    fn parse_location(&mut self, epw: &mut EPWWeather) -> Result<(), String> {
        epw.location.city = EPWScanner::scan_string(self.scan_element())?;
        epw.location.state = EPWScanner::scan_string(self.scan_element())?;
        epw.location.country = EPWScanner::scan_string(self.scan_element())?;
        epw.location.source = EPWScanner::scan_string(self.scan_element())?;
        epw.location.wmo = EPWScanner::scan_string(self.scan_element())?;

        epw.location.latitude = EPWScanner::scan_number(self.scan_element())?.to_radians();
        epw.location.longitude = EPWScanner::scan_number(self.scan_element())?.to_radians();
        epw.location.timezone = EPWScanner::scan_number(self.scan_element())? as i8;
        epw.location.elevation = EPWScanner::scan_number(self.scan_element())?;

        Ok(())
    }

    /// Parses the ground temperature        
    #[allow(clippy::field_reassign_with_default)]
    fn parse_ground_temperature(&mut self, epw: &mut EPWWeather) -> Result<(), String> {
        // Number of ground temperatures to scan
        let n_values = EPWScanner::scan_number(self.scan_element())? as usize;

        for _ in 0..n_values {
            let mut g = EPWGroundTemperature::default();

            g.depth = EPWScanner::scan_number(self.scan_element())?;
            if self.next_is_empty() {
                self.scan_element();
            } else {
                g.soil_conductivity = Some(EPWScanner::scan_number(self.scan_element())?);
            }
            if self.next_is_empty() {
                self.scan_element();
            } else {
                g.soil_density = Some(EPWScanner::scan_number(self.scan_element())?);
            }
            if self.next_is_empty() {
                self.scan_element();
            } else {
                g.soil_specific_heat = Some(EPWScanner::scan_number(self.scan_element())?);
            }

            for month in 0..12 {
                g.average_monthly_temperature[month] =
                    EPWScanner::scan_number(self.scan_element())?;
            }

            epw.ground_temperature.push(g);
        }
        Ok(())
    }
}

