/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

// From Radiance's source code src/common/falsecolor.c

/// Radiance's standard falsecolour colourmap
pub const RADIANCE_COLOURMAP: [[crate::Float; 3]; 256] = [
    [0.43359, 0.03125, 0.51563],
    [0.42188, 0.02734, 0.51953],
    [0.41016, 0.02734, 0.52344],
    [0.39844, 0.02344, 0.53125],
    [0.38281, 0.02344, 0.53516],
    [0.36328, 0.01953, 0.54297],
    [0.34766, 0.01563, 0.55078],
    [0.32813, 0.01172, 0.55859],
    [0.30859, 0.00781, 0.56641],
    [0.28906, 0.00391, 0.57813],
    [0.26563, 0.00000, 0.58594],
    [0.24609, 0.00000, 0.59766],
    [0.22266, 0.00000, 0.60547],
    [0.20313, 0.00000, 0.61328],
    [0.17969, 0.00000, 0.62500],
    [0.16016, 0.00000, 0.63281],
    [0.14063, 0.00000, 0.64063],
    [0.12109, 0.00000, 0.64844],
    [0.10156, 0.00000, 0.65625],
    [0.08594, 0.00000, 0.66406],
    [0.07031, 0.00000, 0.67188],
    [0.05469, 0.00781, 0.67969],
    [0.04297, 0.01563, 0.68359],
    [0.03125, 0.02734, 0.68750],
    [0.02734, 0.03516, 0.69141],
    [0.02344, 0.04297, 0.69141],
    [0.01953, 0.05078, 0.69531],
    [0.01563, 0.06250, 0.69531],
    [0.01172, 0.07031, 0.69922],
    [0.00781, 0.08203, 0.70313],
    [0.00391, 0.09375, 0.70313],
    [0.00391, 0.10938, 0.70703],
    [0.00000, 0.12109, 0.70703],
    [0.00000, 0.13672, 0.71094],
    [0.00000, 0.14844, 0.71094],
    [0.00000, 0.16406, 0.71484],
    [0.00000, 0.17969, 0.71875],
    [0.00000, 0.19531, 0.71875],
    [0.00000, 0.21094, 0.71875],
    [0.00000, 0.22656, 0.72266],
    [0.00000, 0.24609, 0.72266],
    [0.00000, 0.26172, 0.72656],
    [0.00000, 0.27734, 0.72656],
    [0.00000, 0.29688, 0.72656],
    [0.00000, 0.31250, 0.73047],
    [0.00000, 0.32813, 0.73047],
    [0.00000, 0.34766, 0.73047],
    [0.00000, 0.36328, 0.73047],
    [0.00391, 0.37891, 0.73047],
    [0.00391, 0.39844, 0.73047],
    [0.00391, 0.41406, 0.73047],
    [0.00781, 0.42969, 0.73047],
    [0.00781, 0.44531, 0.73047],
    [0.01172, 0.46094, 0.72656],
    [0.01172, 0.47656, 0.72656],
    [0.01563, 0.49219, 0.72656],
    [0.01563, 0.50781, 0.72266],
    [0.01563, 0.51953, 0.72266],
    [0.01953, 0.53516, 0.71875],
    [0.01953, 0.54688, 0.71484],
    [0.02344, 0.55859, 0.71094],
    [0.02344, 0.57031, 0.70703],
    [0.02344, 0.58203, 0.70313],
    [0.02734, 0.58984, 0.69922],
    [0.02734, 0.60156, 0.69531],
    [0.02734, 0.60938, 0.69141],
    [0.03125, 0.61719, 0.68359],
    [0.03125, 0.62891, 0.67188],
    [0.03516, 0.63672, 0.66016],
    [0.03516, 0.64453, 0.64453],
    [0.03516, 0.65234, 0.62891],
    [0.03516, 0.66016, 0.61328],
    [0.03906, 0.66406, 0.59766],
    [0.03906, 0.67188, 0.57813],
    [0.03906, 0.67578, 0.55859],
    [0.04297, 0.67969, 0.53906],
    [0.04297, 0.67969, 0.51953],
    [0.04297, 0.68359, 0.49609],
    [0.04688, 0.68359, 0.47656],
    [0.04688, 0.68750, 0.45703],
    [0.05078, 0.68750, 0.43359],
    [0.05469, 0.68750, 0.41406],
    [0.05469, 0.68750, 0.39453],
    [0.05859, 0.68359, 0.37109],
    [0.06250, 0.68359, 0.35156],
    [0.06641, 0.68359, 0.33594],
    [0.07031, 0.67969, 0.31641],
    [0.07813, 0.67969, 0.30078],
    [0.08203, 0.67578, 0.28516],
    [0.08594, 0.67188, 0.26953],
    [0.09375, 0.67188, 0.25781],
    [0.10156, 0.66797, 0.24609],
    [0.10938, 0.66406, 0.23438],
    [0.11719, 0.66016, 0.22656],
    [0.12500, 0.65625, 0.22266],
    [0.13281, 0.65234, 0.21875],
    [0.14453, 0.64844, 0.21484],
    [0.15625, 0.64453, 0.21094],
    [0.16406, 0.64063, 0.21094],
    [0.17578, 0.63672, 0.21094],
    [0.18750, 0.63281, 0.21484],
    [0.20313, 0.62500, 0.21484],
    [0.21484, 0.61719, 0.21875],
    [0.22656, 0.61328, 0.22266],
    [0.24219, 0.60547, 0.22266],
    [0.25781, 0.59766, 0.23047],
    [0.26953, 0.59375, 0.23438],
    [0.28516, 0.58594, 0.23828],
    [0.30078, 0.57813, 0.24609],
    [0.31641, 0.57031, 0.25000],
    [0.32813, 0.56250, 0.25781],
    [0.34375, 0.55469, 0.26172],
    [0.35938, 0.54297, 0.26953],
    [0.37500, 0.53516, 0.27344],
    [0.38672, 0.52734, 0.28125],
    [0.40234, 0.51953, 0.28516],
    [0.41797, 0.51172, 0.29297],
    [0.42969, 0.50000, 0.29688],
    [0.44141, 0.49219, 0.30078],
    [0.45703, 0.48438, 0.30469],
    [0.46875, 0.47266, 0.30859],
    [0.48047, 0.46484, 0.31250],
    [0.49219, 0.45703, 0.31250],
    [0.50000, 0.44531, 0.31641],
    [0.51172, 0.43750, 0.31641],
    [0.51953, 0.42969, 0.31641],
    [0.52734, 0.42188, 0.31250],
    [0.53125, 0.41406, 0.31250],
    [0.53516, 0.41016, 0.31250],
    [0.53906, 0.40625, 0.30859],
    [0.54297, 0.39844, 0.30859],
    [0.54688, 0.39453, 0.30859],
    [0.55078, 0.39063, 0.30469],
    [0.55469, 0.38281, 0.30469],
    [0.55859, 0.37500, 0.30078],
    [0.56250, 0.37109, 0.29688],
    [0.56250, 0.36328, 0.29688],
    [0.56641, 0.35938, 0.29297],
    [0.57031, 0.35156, 0.28906],
    [0.57031, 0.34766, 0.28516],
    [0.57422, 0.33984, 0.28516],
    [0.57813, 0.33203, 0.28125],
    [0.57813, 0.32813, 0.27734],
    [0.58203, 0.32031, 0.27344],
    [0.58203, 0.31250, 0.26953],
    [0.58594, 0.30859, 0.26563],
    [0.58594, 0.30078, 0.26172],
    [0.58984, 0.29297, 0.25781],
    [0.58984, 0.28516, 0.25391],
    [0.58984, 0.28125, 0.25000],
    [0.59375, 0.27344, 0.24609],
    [0.59375, 0.26563, 0.24219],
    [0.59766, 0.25781, 0.23828],
    [0.59766, 0.25391, 0.23438],
    [0.59766, 0.24609, 0.23047],
    [0.60156, 0.23828, 0.22656],
    [0.60156, 0.23438, 0.22266],
    [0.60156, 0.22656, 0.21875],
    [0.60156, 0.21875, 0.21484],
    [0.60547, 0.21484, 0.21094],
    [0.60547, 0.20703, 0.20703],
    [0.60547, 0.19922, 0.19922],
    [0.60938, 0.19531, 0.19531],
    [0.60938, 0.18750, 0.19141],
    [0.60938, 0.17969, 0.18750],
    [0.61328, 0.17578, 0.18359],
    [0.61328, 0.16797, 0.17969],
    [0.61328, 0.16406, 0.17578],
    [0.61719, 0.15625, 0.17188],
    [0.61719, 0.15234, 0.16797],
    [0.61719, 0.14453, 0.16406],
    [0.62109, 0.14063, 0.16016],
    [0.62109, 0.13281, 0.15625],
    [0.62109, 0.12891, 0.15234],
    [0.62500, 0.12500, 0.14844],
    [0.62500, 0.12109, 0.14453],
    [0.62891, 0.11328, 0.14453],
    [0.62891, 0.10938, 0.14063],
    [0.63281, 0.10547, 0.13672],
    [0.63281, 0.10156, 0.13281],
    [0.63672, 0.09766, 0.12891],
    [0.63672, 0.09375, 0.12891],
    [0.64063, 0.08984, 0.12500],
    [0.64453, 0.08594, 0.12109],
    [0.64453, 0.08203, 0.12109],
    [0.65625, 0.07031, 0.11328],
    [0.66406, 0.06250, 0.10938],
    [0.67188, 0.05078, 0.10156],
    [0.68359, 0.04297, 0.09766],
    [0.69141, 0.03516, 0.09375],
    [0.70313, 0.02734, 0.08984],
    [0.71484, 0.01953, 0.08594],
    [0.72266, 0.01172, 0.08203],
    [0.73438, 0.00781, 0.08203],
    [0.74609, 0.00391, 0.07813],
    [0.75781, 0.00000, 0.07422],
    [0.76953, 0.00000, 0.07422],
    [0.77734, 0.00000, 0.07031],
    [0.78906, 0.00000, 0.06641],
    [0.80078, 0.00000, 0.06641],
    [0.80859, 0.00000, 0.06250],
    [0.82031, 0.00781, 0.06250],
    [0.83203, 0.01172, 0.05859],
    [0.83984, 0.02344, 0.05469],
    [0.84766, 0.03125, 0.05078],
    [0.85547, 0.04297, 0.05078],
    [0.85938, 0.05078, 0.04688],
    [0.86719, 0.06641, 0.04297],
    [0.87500, 0.07813, 0.04297],
    [0.88281, 0.09375, 0.03906],
    [0.88672, 0.10938, 0.03516],
    [0.89453, 0.12500, 0.03125],
    [0.90234, 0.14453, 0.02734],
    [0.90625, 0.16406, 0.02344],
    [0.91406, 0.18359, 0.01953],
    [0.92188, 0.20313, 0.01953],
    [0.92578, 0.22266, 0.01563],
    [0.93359, 0.24609, 0.01172],
    [0.93750, 0.26563, 0.00781],
    [0.94531, 0.28906, 0.00781],
    [0.94922, 0.30859, 0.00391],
    [0.95703, 0.33203, 0.00000],
    [0.96094, 0.35547, 0.00000],
    [0.96484, 0.37500, 0.00000],
    [0.96875, 0.39844, 0.00000],
    [0.97656, 0.42188, 0.00000],
    [0.98047, 0.44141, 0.00000],
    [0.98438, 0.46094, 0.00000],
    [0.98828, 0.48047, 0.00000],
    [0.99219, 0.50000, 0.00000],
    [0.99219, 0.51953, 0.00000],
    [0.99609, 0.53906, 0.00000],
    [0.99609, 0.55859, 0.00391],
    [0.99609, 0.57813, 0.00781],
    [0.99609, 0.60156, 0.01172],
    [0.99609, 0.62109, 0.01563],
    [0.99609, 0.64453, 0.02344],
    [0.99609, 0.66406, 0.02734],
    [0.99609, 0.68750, 0.03516],
    [0.99609, 0.70703, 0.04297],
    [0.99609, 0.73047, 0.05078],
    [0.99609, 0.75000, 0.05859],
    [0.99609, 0.77344, 0.06641],
    [0.99609, 0.79297, 0.07813],
    [0.99609, 0.81250, 0.08594],
    [0.99609, 0.83203, 0.09375],
    [0.99609, 0.85156, 0.10156],
    [0.99609, 0.87109, 0.10938],
    [0.99609, 0.88672, 0.11719],
    [0.99609, 0.90625, 0.12500],
    [0.99609, 0.92188, 0.13281],
    [0.99219, 0.93750, 0.13672],
    [0.99219, 0.94922, 0.14453],
    [0.99219, 0.96094, 0.14844],
    [0.99219, 0.97266, 0.15234],
    [0.99219, 0.98438, 0.15625],
];
