/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use std::sync::Arc;

use crate::Float;
use model::{SimulationState, Space};
use weather::CurrentWeather;

/// Calculates an infiltration rate equal to that estimated by
/// EnergyPlus' `ZoneInfiltration:DesignFlowRate`.
///
/// The equation is $`\phi = \phi_{design} (A + B|T_{space} - T_{outside}| + C\times W_{speed} + D\times W^2_{speed})`$
#[allow(clippy::too_many_arguments)]
pub fn design_flow_rate(
    weather: &CurrentWeather,
    space: &Arc<Space>,
    state: &SimulationState,
    design_rate: Float,
    a: Float,
    b: Float,
    c: Float,
    d: Float,
    wind_speed_modifier: Float,
) -> Float {
    let t_space = space
        .dry_bulb_temperature(state)
        .expect("Space does not have Dry Bulb temperature");
    let t_out = weather.dry_bulb_temperature;
    let wind_speed = weather.wind_speed * wind_speed_modifier;

    design_rate * (a + b * (t_space - t_out).abs() + c * wind_speed + d * wind_speed * wind_speed)
}

/// Calculates the design flow rates using the BLAST defaults (reported in EnergyPlus' Input/Output reference)
pub fn blast_design_flow_rate(
    weather: &CurrentWeather,
    space: &Arc<Space>,
    state: &SimulationState,
    design_rate: Float,
    wind_speed_modifier: Float,
) -> Float {
    design_flow_rate(
        weather,
        space,
        state,
        design_rate,
        0.606,
        0.03636,
        0.1177,
        0.,
        wind_speed_modifier,
    )
}

/// Calculates the design flow rates using the DOE-2 defaults (reported in EnergyPlus' Input/Output reference)
pub fn doe2_design_flow_rate(
    weather: &CurrentWeather,
    space: &Arc<Space>,
    state: &SimulationState,
    design_rate: Float,
    wind_speed_modifier: Float,
) -> Float {
    design_flow_rate(
        weather,
        space,
        state,
        design_rate,
        0.,
        0.,
        0.224,
        0.,
        wind_speed_modifier,
    )
}

/// Calculates the infiltration flow in m3/s. Area should be defined in m2
pub fn effective_leakage_area(
    weather: &CurrentWeather,
    space: &Arc<Space>,
    state: &SimulationState,
    area: Float,
    cw: Float,
    cs: Float,
) -> Float {
    let outdoor_temp = weather.dry_bulb_temperature;
    let space_temp = space
        .dry_bulb_temperature(state)
        .expect("Space has no Dry-bulb temperature");
    let delta_t = (outdoor_temp - space_temp).abs();
    let ws = weather.wind_speed;

    let aux = cs * delta_t + cw * ws * ws;
    let aux = aux.sqrt();
    area * 10.0 * aux // m3/s
}

