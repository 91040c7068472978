/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/
use crate::{solar_surface::SolarSurface, Float};
use calendar::Date;
use communication::{ErrorHandling, MetaOptions, SimulationModel};
use model::{
    print_warning, Boundary, FenestrationType, Model, SimulationState, SimulationStateHeader,
    SolarOptions,
};
use std::borrow::Borrow;
use std::fs::File;
use std::io::Write;
use std::path::Path;
use weather::{CurrentWeather, WeatherTrait};
use weather::{PerezSky, SkyUnits, Solar};

use crate::optical_info::OpticalInfo;

/// The name of the module
pub(crate) const MODULE_NAME: &str = "Solar Model";

/// The memory used by this module during simulation
pub type SolarModelMemory = ();

/// The main model
pub struct SolarModel {
    // Workplanes
    /// The scene that makes up this model from a radiation point of view.
    // solar_scene: Scene,

    // surfaces: Vec<SolarSurface>,

    /// The optical information from the model, containing
    /// DC matrices and view factors
    optical_info: OpticalInfo,

    /// The calculator for solar position and other solar variables
    solar: Solar,

    /// The MF discretization scheme for the sky.
    solar_sky_discretization: usize,
}

impl SolarModel {
    /// This function makes the IR heat transfer Zero... we will try to fix this soon enough,
    /// just not now
    fn update_ir_radiation(
        &self,
        weather_data: &CurrentWeather,
        model: &Model,
        state: &mut SimulationState,
    ) -> Result<(), String> {
        pub const SIGMA: crate::Float = 5.670374419e-8;

        fn ir(temp: Float, emissivity: Float) -> Float {
            emissivity * SIGMA * (temp + 273.15).powi(4)
        }

        let db = weather_data.dry_bulb_temperature;
        let horizontal_ir = match weather_data.horizontal_infrared_radiation_intensity {
            Some(v) => v,
            None => weather_data.derive_horizontal_ir(),
        };

        // surfaces are never skipped
        for (index, surface) in model.surfaces.iter().enumerate() {
            // Deal with front
            match &surface.front_boundary {
                Boundary::Space { .. } => {
                    // Zero net IR exchange
                    let temp = surface.first_node_temperature(state).unwrap_or(22.);
                    let ir = ir(temp, 1.0);
                    #[cfg(debug_assertions)]
                    if ir.is_nan() {
                        dbg!(ir);
                    }
                    surface.set_front_ir_irradiance(state, ir)?;
                }
                Boundary::AmbientTemperature { temperature } => {
                    // It depends on the ambient temperature
                    let ir = ir(*temperature, 1.0);
                    #[cfg(debug_assertions)]
                    if ir.is_nan() {
                        dbg!(ir);
                    }
                    surface.set_front_ir_irradiance(state, ir)?;
                }
                Boundary::Ground | Boundary::Adiabatic => {
                    // ignore ground and adiabatic
                }
                Boundary::Outdoor => {
                    // outdoor
                    let view_factors = &self.optical_info.front_surfaces_view_factors[index];
                    let ground_other = (view_factors.ground + view_factors.air) * ir(db, 1.0);
                    let sky = view_factors.sky * horizontal_ir;
                    #[cfg(debug_assertions)]
                    if (ground_other + sky).is_nan() {
                        dbg!(ground_other + sky);
                    }
                    surface.set_front_ir_irradiance(state, ground_other + sky)?;
                }
            }

            // Deal with Back
            match &surface.back_boundary {
                Boundary::Space { .. } => {
                    // Zero net IR exchange
                    let temp = surface.last_node_temperature(state).unwrap_or(22.);
                    let ir = ir(temp, 1.0);
                    #[cfg(debug_assertions)]
                    if ir.is_nan() {
                        dbg!(ir);
                    }
                    surface.set_back_ir_irradiance(state, ir)?;
                }
                Boundary::AmbientTemperature { temperature } => {
                    let ir = ir(*temperature, 1.0);
                    if ir.is_nan() {
                        dbg!(ir);
                    }
                    surface.set_back_ir_irradiance(state, ir)?;
                }
                Boundary::Ground | Boundary::Adiabatic => {
                    // ignore ground and adiabatic
                }
                Boundary::Outdoor => {
                    // outdoor
                    let view_factors = &self.optical_info.back_surfaces_view_factors[index];
                    let ground_other = (view_factors.ground + view_factors.air) * ir(db, 1.0);
                    let sky = view_factors.sky * horizontal_ir;
                    if (ground_other + sky).is_nan() {
                        dbg!(ground_other, sky);
                    }
                    surface.set_back_ir_irradiance(state, ground_other + sky)?;
                }
            }
        }

        // some fenestrations (i.e., Opening) will be skipped
        for (index, surface) in model.fenestrations.iter().enumerate() {
            if let FenestrationType::Opening = surface.category {
                continue;
            }

            // Deal with front
            match &surface.front_boundary {
                Boundary::Space { .. } => {
                    // Zero net IR exchange
                    let temp = surface.first_node_temperature(state).unwrap_or(22.);
                    surface.set_front_ir_irradiance(state, ir(temp, 1.0))?;
                }
                Boundary::AmbientTemperature { temperature } => {
                    surface.set_front_ir_irradiance(state, ir(*temperature, 1.0))?;
                }
                Boundary::Ground | Boundary::Adiabatic => {}
                Boundary::Outdoor => {
                    let view_factors = &self.optical_info.front_fenestrations_view_factors[index];
                    let ground_other = (view_factors.ground + view_factors.air) * ir(db, 1.0);
                    let sky = view_factors.sky * horizontal_ir;
                    surface.set_front_ir_irradiance(state, ground_other + sky)?;
                }
            }

            // Deal with Back
            match &surface.back_boundary {
                Boundary::Space { .. } => {
                    // Zero net IR exchange
                    let temp = surface.last_node_temperature(state).unwrap_or(22.);
                    surface.set_back_ir_irradiance(state, ir(temp, 1.0))?;
                }
                Boundary::AmbientTemperature { temperature } => {
                    surface.set_back_ir_irradiance(state, ir(*temperature, 1.0))?;
                }
                Boundary::Ground | Boundary::Adiabatic => {}
                Boundary::Outdoor => {
                    // outdoor
                    let view_factors = &self.optical_info.back_fenestrations_view_factors[index];
                    let ground_other = (view_factors.ground + view_factors.air) * ir(db, 1.0);
                    let sky = view_factors.sky * horizontal_ir;
                    surface.set_back_ir_irradiance(state, ground_other + sky)?;
                }
            }
        }

        Ok(())
    }

    fn update_solar_radiation(
        &self,
        date: Date,
        weather_data: CurrentWeather,
        model: &Model,
        state: &mut SimulationState,
    ) -> Result<(), String> {
        let direct_normal_irrad = weather_data.direct_normal_radiation;
        let diffuse_horizontal_irrad = weather_data.diffuse_horizontal_radiation;

        let is_day = direct_normal_irrad + diffuse_horizontal_irrad >= 1e-4;
        if !is_day {
            for s in model.surfaces.iter() {
                s.set_front_incident_solar_irradiance(state, 0.0)?;
                s.set_back_incident_solar_irradiance(state, 0.0)?;
            }
            for s in model.fenestrations.iter() {
                if let FenestrationType::Opening = s.category {
                    continue;
                }
                s.set_front_incident_solar_irradiance(state, 0.0)?;
                s.set_back_incident_solar_irradiance(state, 0.0)?;
            }
            return Ok(());
        }

        let vec = PerezSky::gen_sky_vec(
            self.solar_sky_discretization,
            &self.solar,
            date,
            weather_data,
            SkyUnits::Solar,
            0.2,  // albedo
            true, // add sky
            true, // add sun
        )?;

        // Process Solar Irradiance in Surfaces
        if !self.optical_info.front_surfaces_dc.is_empty() {
            let solar_irradiance = &self.optical_info.front_surfaces_dc * &vec;

            for (i, s) in model.surfaces.iter().enumerate() {
                if !SolarSurface::boundary_receives_sun(&s.front_boundary) {
                    // continue;
                    s.set_front_incident_solar_irradiance(state, 0.0)?;
                }
                // Average of the period
                let mut v = solar_irradiance.get(i, 0)?;
                if v < 0.0 {
                    v = 0.0
                }
                let old_v = s
                    .front_incident_solar_irradiance(state)
                    .ok_or("Could not get previous front incident solar irradiance (surface)")?;
                s.set_front_incident_solar_irradiance(state, (v + old_v) / 2.)?;
            }
        }
        if !self.optical_info.back_surfaces_dc.is_empty() {
            let solar_irradiance = &self.optical_info.back_surfaces_dc * &vec;

            for (i, s) in model.surfaces.iter().enumerate() {
                if !SolarSurface::boundary_receives_sun(&s.back_boundary) {
                    // continue;
                    s.set_back_incident_solar_irradiance(state, 0.0)?;
                }
                // Average of the period
                let mut v = solar_irradiance.get(i, 0)?;
                if v < 0.0 {
                    v = 0.0
                }
                let old_v = s
                    .back_incident_solar_irradiance(state)
                    .ok_or("Could not get previous back incident solar irradiance (surface)")?;
                s.set_back_incident_solar_irradiance(state, (v + old_v) / 2.)?;
            }
        }

        // Process Solar Irradiance in Fenestration
        if !self.optical_info.front_fenestrations_dc.is_empty() {
            let solar_irradiance = &self.optical_info.front_fenestrations_dc * &vec;

            for (i, s) in model.fenestrations.iter().enumerate() {
                if let FenestrationType::Opening = s.category {
                    continue;
                }
                if !SolarSurface::boundary_receives_sun(&s.front_boundary) {
                    // continue;
                    s.set_front_incident_solar_irradiance(state, 0.0)?;
                }
                // Average of the period
                let v = solar_irradiance.get(i, 0)?;
                let old_v = s.front_incident_solar_irradiance(state).ok_or(
                    "Could not get previous front incident solar irradiance (fenestration)",
                )?;
                s.set_front_incident_solar_irradiance(state, (v + old_v) / 2.)?;
            }
        }
        if !self.optical_info.back_fenestrations_dc.is_empty() {
            let solar_irradiance = &self.optical_info.back_fenestrations_dc * &vec;
            for (i, s) in model.fenestrations.iter().enumerate() {
                if let FenestrationType::Opening = s.category {
                    continue;
                }
                if !SolarSurface::boundary_receives_sun(&s.back_boundary) {
                    s.set_back_incident_solar_irradiance(state, 0.0)?;
                }
                // Average of the period
                let v = solar_irradiance.get(i, 0)?;
                let old_v = s.back_incident_solar_irradiance(state).ok_or(
                    "Could not get previous back incident solar irradiance (fenestration)",
                )?;
                s.set_back_incident_solar_irradiance(state, (v + old_v) / 2.)?;
            }
        }
        Ok(())
    }
}

impl ErrorHandling for SolarModel {
    fn module_name() -> &'static str {
        MODULE_NAME
    }
}

impl SimulationModel for SolarModel {
    type OutputType = Self;
    type OptionType = SolarOptions;
    type AllocType = SolarModelMemory;

    fn allocate_memory(&self, _state: &SimulationState) -> Result<Self::AllocType, String> {
        Ok(())
    }

    fn new<M: Borrow<Model>>(
        meta_options: &MetaOptions,
        options: SolarOptions,
        model: M,
        state: &mut SimulationStateHeader,
        _n: usize,
    ) -> Result<Self::OutputType, String> {
        let model = model.borrow();
        // Make OpticalInfo, or read, as needed
        let optical_info = if let Ok(path_str) = options.optical_data_path() {
            let path = Path::new(path_str);
            if path.exists() {
                // read from file
                if !path.is_file() {
                    return Err(format!(
                        "Path '{}' is not a file",
                        path.to_str()
                            .expect("When !path.is_file... could not convert path into string")
                    ));
                }

                let data = match std::fs::read_to_string(path) {
                    Ok(v) => v,
                    Err(_) => {
                        return Err(format!("Unable to read optical_info file '{}'", path_str))
                    }
                };
                let info: OpticalInfo = match serde_json::from_str(&data) {
                    Ok(v) => v,
                    Err(_) => {
                        return Err(format!(
                            "Unable to parse optical_info object in file '{}'",
                            path_str
                        ))
                    }
                };

                info
            } else {
                // write into file
                let info = OpticalInfo::new(&options, model, state)?;
                let s = match serde_json::to_value(&info) {
                    Ok(v) => v,
                    Err(e) => return Err(format!("{}", e)),
                };
                let mut file = match File::create(path) {
                    Ok(v) => v,
                    Err(e) => return Err(format!("{}", e)),
                };
                if let Err(e) = writeln!(&mut file, "{}", s) {
                    return Err(format!("{}", e));
                }
                info
            }
        } else {
            // Forced calculation... not store
            OpticalInfo::new(&options, model, state)?
        };

        // Create the Solar object
        let latitude = meta_options.latitude;
        let longitude = -meta_options.longitude;
        let standard_meridian = -meta_options.standard_meridian;
        let solar = Solar::new(latitude, longitude, standard_meridian);

        if model.surfaces.is_empty() {
            print_warning(MODULE_NAME, "Model has no surfaces");
            return Ok(Self {
                optical_info,
                solar,
                solar_sky_discretization: 1, // not really relevant
            });
        }

        // derive MF
        let (.., ncols) = optical_info.back_surfaces_dc.size();
        if ncols == 0 {
            return Err(
                "optical data is corrupt: daylight coefficient matrix has zero columns."
                    .to_string(),
            );
        }
        let mut mf = 1;
        loop {
            if mf >= 9 || ncols == 0 {
                return Err(format!("sky discretization seems to be too high ({mf}... If this is a bug, please report it!"));
            }
            if weather::ReinhartSky::n_bins(mf) == ncols {
                break;
            } else {
                mf += 1;
            }
        }

        Ok(Self {
            optical_info,
            solar,
            solar_sky_discretization: mf,
        })
    }

    fn march<W: WeatherTrait, M: Borrow<Model>>(
        &self,
        date: Date,
        weather: &W,
        model: M,
        state: &mut SimulationState,
        _alloc: &mut SolarModelMemory,
    ) -> Result<(), String> {
        let model = model.borrow();
        // Handle the solar part

        let weather_data = weather.get_weather_data(date);

        self.update_ir_radiation(&weather_data, model, state)?;
        self.update_solar_radiation(date, weather_data, model, state)?;

        Ok(())
    }
}

