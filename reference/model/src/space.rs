/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use crate::infiltration::Infiltration;
use crate::model::Model;
use crate::simulation_state_element::StateElementField;
use crate::Float;
use derive::{ObjectAPI, ObjectIO};
use serde::{Deserialize, Serialize};

/// The category of a space.
#[derive(Debug, Default, ObjectIO, Serialize, Deserialize, Clone, Copy, PartialEq, Eq)]
pub enum SpacePurpose {
    /// Bathroom, toilette, shower, etc.
    Bathroom,
    /// Bedroom
    Bedroom,
    /// Dining room
    DiningRoom,
    /// Kitchen
    Kitchen,
    /// Living room
    LivingRoom,
    /// Office
    Office,
    /// Storage
    Storage,
    /// Garage
    Garage,
    /// Hallway
    Hallway,
    /// Laundry
    Laundry,
    /// Other
    #[default]
    Other,
}

impl SpacePurpose {
    /// returns the purpose as a str, capitalize (e.g., `LivingRoom` becomes `"Living Room"`)
    pub fn as_str(&self) -> &'static str {
        match self {
            SpacePurpose::Bathroom => "Bathroom",
            SpacePurpose::Bedroom => "Bedroom",
            SpacePurpose::DiningRoom => "Dining Room",
            SpacePurpose::Kitchen => "Kitchen",
            SpacePurpose::LivingRoom => "Living Room",
            SpacePurpose::Office => "Office",
            SpacePurpose::Storage => "Storage",
            SpacePurpose::Garage => "Garage",
            SpacePurpose::Hallway => "Hallway",
            SpacePurpose::Laundry => "Laundry",
            SpacePurpose::Other => "Other",
        }
    }
}

/// Represents a space with homogeneous temperature within a building. It is often actual room enclosed by walls, but it can also
/// be more than one room. In this latter case, there will be walls
/// within the Space, meaning that there are walls whose Front and Back
/// boundary is this space.
///
/// ## Examples
///
/// #### `.spl`
/// ```rs
/// {{#include ../../../model/tests/scanner/space.spl}}
/// ```
/// #### `.json`
/// ```rs
/// {{#include ../../../model/tests/scanner/space.json}}
/// ```
#[derive(Debug, ObjectIO, ObjectAPI, Clone, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Space {
    /// The name of the space
    pub name: String,

    /// Volume of the space
    #[serde(skip_serializing_if = "Option::is_none")]
    pub volume: Option<Float>,

    /// The infiltration in the space
    #[serde(skip_serializing_if = "Option::is_none")]
    infiltration: Option<Infiltration>,

    // The importance of this space over time
    // importance : Option<Box<dyn Schedule<Float>>>,
    /// The building in which this `Space` is inserted
    #[serde(skip_serializing_if = "Option::is_none")]
    building: Option<String>,

    /// The storey in which the space is located,
    /// indexing from 0 (i.e., ground floor is 0)
    #[serde(skip_serializing_if = "Option::is_none")]
    storey: Option<usize>,

    /// The purposes in a room. It can have multiple
    /// purposes (e.g., a Living/Dining/Kithen space)
    #[serde(skip_serializing_if = "Vec::is_empty")]
    #[serde(default)]
    pub purposes: Vec<SpacePurpose>,

    #[physical]
    #[serde(skip)]
    dry_bulb_temperature: StateElementField,

    #[physical]
    #[serde(skip)]
    brightness: StateElementField,

    #[physical]
    #[serde(skip)]
    loudness: StateElementField,

    #[physical]
    #[serde(skip)]
    infiltration_volume: StateElementField,

    #[physical]
    #[serde(skip)]
    infiltration_temperature: StateElementField,

    #[physical]
    #[serde(skip)]
    ventilation_volume: StateElementField,

    #[physical]
    #[serde(skip)]
    ventilation_temperature: StateElementField,
}

/***********/
/* TESTING */
/***********/

