/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use crate::Float;
use serde::{Deserialize, Serialize};
mod electric_heater;
mod ideal_heater_cooler;
pub use crate::hvac::electric_heater::ElectricHeater;
pub use crate::hvac::ideal_heater_cooler::IdealHeaterCooler;
use crate::model::Model;
use derive::{GroupAPI, GroupIO};
use std::sync::Arc;

/// A collection of elements heating and cooling systems
///
/// ## Example `.spl`
///
/// ```json
/// {{ #include ../../../model/tests/scanner/hvac_electric_heater.spl }}
///
/// ```
///
/// ## Example `.json`
///
/// ```json
/// {{ #include ../../../model/tests//scanner/hvac_electric_heater.json }}
///
/// ```
///
#[derive(Clone, Debug, Serialize, Deserialize, GroupAPI, GroupIO)]
#[serde(tag = "type")]
pub enum HVAC {
    /// An ideal heating/cooling device.
    /// Heats and Cools with an efficiency of
    /// 1, and nothing effects its COP or efficiency    
    IdealHeaterCooler(Arc<IdealHeaterCooler>),

    /// An electric heater, it can only
    /// heat.
    ElectricHeater(Arc<ElectricHeater>),
}

impl std::fmt::Display for HVAC {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let j = json5::to_string(&self).unwrap();
        write!(f, "{}\n\n", j)
    }
}

/// A trait containing basic functions for single-room HVAC systems
pub trait SmallHVAC {
    /// Retrieves the heating setpoint, in C
    fn heating_setpoint(&self) -> Result<Float, String> {
        Err("This kind of device cannot heat".to_string())
    }

    /// Retrieves the cooling setpoint, in C
    fn cooling_setpoint(&self) -> Result<Float, String> {
        Err("This kind of device cannot cool".to_string())
    }

    /// Retrieves the max heating power, in W
    fn max_heating_power(&self) -> Result<Float, String> {
        Err("This kind of device cannot heat".to_string())
    }

    /// Retrieves the max cooling power, in W
    fn max_cooling_power(&self) -> Result<Float, String> {
        Err("This kind of device cannot cool".to_string())
    }

    /// Retrieves the space being heated/cooled by this device
    fn target_space(&self) -> Result<&String, String>;
}

/***********/
/* TESTING */
/***********/

