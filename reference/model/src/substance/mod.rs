/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

/// Contains the gases
pub mod gas;
/// Module describing solid materials, transparent or not
pub mod normal;

pub use crate::substance::gas::Gas;
pub use crate::substance::normal::Normal;

use crate::model::Model;
use derive::{GroupAPI, GroupIO};
use serde::{Deserialize, Serialize};
use std::sync::Arc;

/// A physical substance with physical—i.e., optical, thermal—properties.
///
/// Note that, contrary to EnergyPlus' `Materials`, `Substances` do not
/// contain information about the thickness, which in Simple is given when
/// creating a `Material`. The idea is to enable multiple materials of different
/// thicknesses to reference the same material.
///
/// > Note: Glazing substances are `Normal` substances with `solar_transmitance`
/// and `visible_transmittance`. However, contrary to all other properties, this property
/// does depend on the thickness of the substance. So, in order
/// to build a coherent Glazing, you'll need to match this Substance
/// with an appropriate Material
///
/// ## Examples
///
/// A normal substance
///
/// ```json
/// {{#include ../../../model/tests/scanner/substance_normal.spl}}
/// ```
///
/// A gas
/// ```json
/// {{#include ../../../model/tests/scanner/substance_gas.spl}}
/// ```
///
#[derive(Debug, Clone, GroupAPI, GroupIO, Serialize, Deserialize)]
#[serde(tag = "type")]
#[serde(deny_unknown_fields)]
pub enum Substance {
    /// A normal (i.e., solid, homogeneous) substance such as glass,
    /// timber or concrete.    
    Normal(Arc<Normal>),

    /// A gas, as understood by the standard ISO-15099(2003).
    Gas(Arc<Gas>),
}

impl std::fmt::Display for Substance {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let j = serde_json::to_string_pretty(&self).unwrap();
        write!(f, "{}\n\n", j)
    }
}

/***********/
/* TESTING */
/***********/

