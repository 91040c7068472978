/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use crate::{Float, PI};
use geometry::Vector3D;

/// The number of patches in teach of Tregenza's (i.e.,
/// Reinhart's with MF=1) sky subdivisions. The angle
/// must come in Radians.
///
/// The most basic Reinhart's subdivision is equivalent to
/// Tregenza's one. It has 7 rows of patches (going from bottom,
/// i.e., altitude of 0.0, to top, i.e., alt. of almost 90 deg)
/// plus a Cap at the top.
const TNAZ: [usize; 7] = [30, 30, 24, 24, 18, 12, 6];

/// Calculates the solid angle of a Cone.
fn cone_solid_angle(angle: Float) -> Float {
    2.0 * PI * (1. - angle.cos())
}

fn patch_solid_angle(top_angle: Float, low_angle: Float, bins_in_row: usize) -> Float {
    // This comes from genskymtx's code
    2. * PI * (top_angle.sin() - low_angle.sin()) / bins_in_row as Float
    /*
    In my Master's thesis I had a different equation for this:
    let sin_top = top_angle.sin();
    let sin_low = low_angle.sin();
    PI * ( sin_top * sin_top - sin_low * sin_low ) / bins_in_row as Float
    */
}

/// Returns the number of elements in row `row`, starting from
/// 0.
fn bins_in_row(mf: usize, row: usize) -> usize {
    // This is missing the cap, which has only one element
    let nrows = 7 * mf;
    match row.cmp(&nrows) {
        std::cmp::Ordering::Equal => 1,
        std::cmp::Ordering::Greater => {
            panic!(
                "The value received is larger than the number of rows! row = {}, nrows = {}",
                row, nrows
            )
        }
        _ => {
            // Somewhere in between
            let i = ((row as f32 + 0.5) / mf as f32).floor() as usize;
            mf * TNAZ[i]
        }
    }
}

/// Returns the height of a full row (the cap is only half
/// this height)
fn row_height(mf: usize) -> Float {
    PI / 2. / ((TNAZ.len() * mf) as Float + 0.5)
}

/// A structure that helps creating discretized Skies, using Reinhart's discretization
#[derive(Debug)]
pub struct ReinhartSky {
    /// Subdivition scheme
    pub mf: usize,

    /// The number of rows, including Cap
    n_rows: usize,

    /// An array with the Sin(max angle) for every row.
    ///
    /// This is useful for transforming a vector into a bin,
    /// as it avoids the use of slow trigonometric functions.
    row_max_sin: Vec<Float>,

    /// An array with the number of bins accumulated before each row.
    acc_bins: Vec<usize>,

    /// The number of elements in this sky discretization (including ground)
    pub n_bins: usize,
}

impl ReinhartSky {
    /// Calculates the number of total bins in a Reinhart's discretization
    /// including the ground
    pub fn n_bins(mf: usize) -> usize {
        // 144 Tregenza divided in MF rows and cols; + Ground + Cap
        144 * mf.pow(2) + 2

        // This below is what is written in Radiance's cal files, I think
        // fn raccum(mf: usize, row: usize) -> usize {
        //     if row == 0 {
        //         0
        //     } else {
        //         bins_in_row(mf, row - 1) + raccum(mf, row - 1)
        //     }
        // }

        // raccum(mf, 7 * mf + 1) + 1
    }

    /// Calculates the row in which a certain bin is located
    fn bins_row(&self, nbin: usize) -> usize {
        if nbin > self.n_bins {
            panic!("Trying to get the row of a bin out of bounds... found {} but only {} are available", nbin, self.n_bins);
        }

        let mut row = self.n_rows - 1; // If not found, this is the value
        for (this_row, acc) in self.acc_bins.iter().enumerate() {
            if nbin < *acc + 1 {
                row = this_row - 1;
                break;
            }
        }
        row
    }

    /// Calculates te solid angle of a certain bin
    pub fn bin_solid_angle(&self, nbin: usize) -> Float {
        if nbin == 0 {
            // Ground... it is half a sphere
            return 2. * PI;
        }
        if nbin == self.n_bins - 1 {
            // Cap... a small cone
            let height = row_height(self.mf);
            return cone_solid_angle(height / 2.);
        }
        // Error
        if nbin > self.n_bins {
            panic!("Trying to get direction to a bin out of bounds... found {} but only {} are available", nbin, self.n_bins);
        }
        // All others

        let row = self.bins_row(nbin);
        let (low, high) = self.row_altitude(row);
        let n_bins = bins_in_row(self.mf, row);
        patch_solid_angle(high, low, n_bins)
    }

    /// The number of sky elements accumulated up to row `row` (inclusive).
    /// Rows are Zero-indexed (i.e., the first one is 0)
    fn raccum(&self, row: usize) -> usize {
        match row.cmp(&self.n_bins) {
            std::cmp::Ordering::Equal => self.n_bins,
            std::cmp::Ordering::Greater => {
                panic!(
                    "Trying to access an accumulated number of bins in row {}... only {} available",
                    row, self.n_rows
                )
            }
            _ => self.acc_bins[row],
        }
    }

    /// Returns the minimum and maximum altitude of a row, in Radians
    fn row_altitude(&self, row: usize) -> (Float, Float) {
        let row_height = row_height(self.mf);
        if row == self.n_rows - 1 {
            // Cap
            (PI / 2. - row_height / 2., PI / 2.)
        } else {
            // others
            let row = row as Float;
            (row * row_height, (row + 1.) * row_height)
        }
    }

    /// Gets the sin of an altitude
    ///
    /// E.g., Receives the `z` component of a direction
    /// (if the vector is normalized) and returns the row towards which that
    /// vector is pointing.
    fn sin_altitude_to_row(&self, sin_altitude: Float) -> usize {
        if sin_altitude < 0. {
            // Points ot the ground... This should be handled in the caller function.
            panic!("Trying to call sin_altitude_to_row() by using a negative sin_altitude (e.g., does not point to the sky")
        }
        for (row, max_sin) in self.row_max_sin.iter().enumerate() {
            if sin_altitude < *max_sin {
                return row;
            }
        }

        self.n_rows - 1
    }

    /// Gets the position of the bin within a row.
    ///
    /// E.g., gets the `x` and `y` components of a vector pointing
    /// to the Sky and returns the bin pointed within that row
    fn xy_to_bin(&self, row: usize, x: Float, y: Float) -> usize {
        // If it is the cap, don't think about it and return 1
        if row == self.n_rows {
            return 1;
        }
        // Get the angle in Radians
        // atan(x/y), not atan(y/x) because azimuth 0 is pointing towards Y
        let mut azimuth = x.atan2(y);
        if azimuth < 0. {
            azimuth += 2. * PI;
        }

        // Size of a Bin in Radians
        let in_row = bins_in_row(self.mf, row);
        let bin_size = 2. * PI / in_row as Float;

        // Y direction points towards the centre of the first patch...
        // so we need to add Half a bin size.
        ((azimuth + bin_size / 2.) / bin_size).floor() as usize % in_row
    }

    /// Returns the bin number pointed by direction `dir`
    pub fn dir_to_bin(&self, dir: Vector3D) -> usize {
        // Check that this is normalized in debug mode
        debug_assert!((1. - dir.length()).abs() < 1e-5);

        // Pointing the ground.
        if dir.z < 0. {
            return 0;
        }

        // Get row
        let row = self.sin_altitude_to_row(dir.z);
        if row == self.n_rows - 1 {
            return self.n_bins - 1;
        }

        let previous_bins = self.raccum(row);
        // Get current bin within row
        let bin = self.xy_to_bin(row, dir.x, dir.y);

        // Return (count the ground.)
        bin + previous_bins + 1
    }

    /// Gets a `Vector3D` pointing to the centre the bin.
    pub fn bin_dir(&self, nbin: usize) -> Vector3D {
        if nbin == 0 {
            // Ground
            return Vector3D::new(0., 0., -1.);
        }
        if nbin == self.n_bins - 1 {
            // Cap
            return Vector3D::new(0., 0., 1.);
        }
        // Error
        if nbin > self.n_bins {
            panic!("Trying to get direction to a bin out of bounds... found {} but only {} are available", nbin, self.n_bins);
        }

        /*******************/
        /* ALL OTHER CASES */
        /*******************/

        // First, find the row in which this bin is located
        // and then extract the altitude from it.
        let row = self.bins_row(nbin);

        // Calculate the altitude angle.
        let (min_alt, max_alt) = self.row_altitude(row);
        let alt = (min_alt + max_alt) / 2.;

        // Now, calculate the azimuth
        let prev_bins = self.raccum(row);
        let n_bins = bins_in_row(self.mf, row);
        let bin_width = 2. * PI / n_bins as Float;
        let azi = bin_width * (nbin - prev_bins - 1) as Float;

        // Compute
        let cos_ralt = alt.cos();
        let dx = azi.sin() * cos_ralt;
        let dy = azi.cos() * cos_ralt;
        let dz = alt.sin();

        // if (solidAngle != NULL) {
        //     if (row == (n_rows-1)) {
        //         // if polar cap
        //         *solidAngle = coneSolidAngle(RAH/2.0);
        //     }
        //     else {
        //         *solidAngle = 2.0 * PI * (sin(alt + RAH/2.0)-sin(alt - RAH/2.0)) / (double)nBins;
        //     }
        // }

        Vector3D::new(dx, dy, dz)
    }

    /// Creates  a new Reinhart sky discretization
    pub fn new(mf: usize) -> Self {
        if mf == 0 {
            panic!("When creating ReinhartSky: mf must be 1 or greater")
        }

        let n_rows = 7 * mf + 1;

        let height = row_height(mf);
        let mut acc = 0.0;
        let mut row_max_sin = Vec::with_capacity(n_rows - 1);
        let mut acc_bins = Vec::with_capacity(n_rows - 1);
        for row in 0..n_rows {
            // Fill the sin of the max angle of each row
            acc += height;
            row_max_sin.push(acc.sin());

            // Fill the accumulated number of bins after each line.
            if row == 0 {
                acc_bins.push(0)
            } else {
                acc_bins.push(acc_bins[row - 1] + bins_in_row(mf, row - 1))
            }
        }

        // Cap + Ground + others
        let n_bins = 1 + acc_bins[n_rows - 1] + 1;

        // Return
        Self {
            mf,
            n_rows,
            n_bins,
            row_max_sin,
            acc_bins,
        }
    }
}

