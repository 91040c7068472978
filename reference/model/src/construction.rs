/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use derive::ObjectIO;
use serde::{Deserialize, Serialize};

/// An object representing an array of
/// Materials, ordered from front to back
///
/// Front and back can be indoor, outdoor, or they can both be
/// indoor (it depends exclusively on the `Boundary` set to the
/// surface)
///
///
///  ## Examples
///
/// #### `.spl`
/// ```rs
/// {{#include ../../../model/tests/scanner/construction.spl}}
/// ```
/// #### `.json`
/// ```rs
/// {{#include ../../../model/tests/scanner/construction.json}}
/// ```
#[derive(Default, Debug, ObjectIO, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Construction {
    /// The name of the Construction object.
    /// Must be unique within the model
    pub name: String,

    /// The indices of the Material objects in the
    /// materials property of the Model object
    pub materials: Vec<String>,
    // front finishing
    // back finishing
}

/***********/
/* TESTING */
/***********/

