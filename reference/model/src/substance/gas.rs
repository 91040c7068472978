/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use crate::substance::Substance;
use derive::ObjectIO;
use serde::{Deserialize, Serialize};

/// Represent a common gas, with known physical properties
///
///
/// ## Examples
///
/// #### `.json`
/// ```json
/// {{#include ../../../model/tests/scanner/gas_specification.json}}
/// ```
///
/// > **Note**: This object cannot be declared by itself in a `SIMPLE` model,
/// as it is always embeded on a `Substance` of type `Gas`
///
#[derive(Debug, Copy, Clone, ObjectIO, Serialize, Deserialize)]
#[inline_enum]
#[serde(deny_unknown_fields)]
pub enum GasSpecification {
    /// Air
    Air,

    /// Argon
    Argon,

    /// Krypton
    Krypton,

    /// Xenon
    Xenon,
}

/// Represents a Gas, as understood by the standard ISO-15099(2003).
///
/// ## Examples
///
/// #### `.spl`
///
/// ```json
/// {{#include ../../../model/tests/scanner/substance_gas.spl}}
/// ```
///
/// #### `.json`
///
/// ```json
/// {{#include ../../../model/tests/scanner/substance_gas.json}}
/// ```
#[derive(Debug, Clone, ObjectIO, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Gas {
    /// The name of the Substance. Should be unique for each
    /// Substance in the Model object    
    pub name: String,

    /// A predefined gas
    #[serde(skip_serializing_if = "Option::is_none")]
    gas: Option<GasSpecification>,
}

impl Gas {
    /// Wraps the `Gas` in a [`Substance`] enum
    pub fn wrap(self) -> Substance {
        crate::substance::Substance::Gas(std::sync::Arc::new(self))
    }
}

/***********/
/* TESTING */
/***********/

