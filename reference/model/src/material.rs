/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/
use crate::Float;

use derive::ObjectIO;
use serde::{Deserialize, Serialize};

/// The representation of a physical layer-Material.
/// That is to say, a layer of a certain thickness
/// made of a certain Substance
///
/// ## Examples
///
/// ##### `.spl`
/// ```json
/// {{#include ../../../model/tests/scanner/material.spl}}
/// ```
///
/// ##### `.json`
/// ```json
/// {{#include ../../../model/tests/scanner/material.json}}
/// ```
#[derive(Debug, ObjectIO, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Material {
    /// The name of the material object
    pub name: String,

    /// The name of the `Substance` of which this
    /// [`Material`] is made of    
    pub substance: String,

    /// The thickness of the [`Material`]
    pub thickness: Float,
}

/***********/
/* TESTING */
/***********/

