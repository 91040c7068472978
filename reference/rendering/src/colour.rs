/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use crate::Float;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spectrum(pub [Float; crate::N_CHANNELS]);
const RADIANCE_COEFFICIENTS: [Float; crate::N_CHANNELS] = [0.265, 0.67, 0.065];
/// The standard Luminious Efficacy of equal white light energy
/// as defined in Radiance
pub const WHITE_EFFICACY: Float = 179.;

impl std::default::Default for Spectrum {
    fn default() -> Self {
        Self::BLACK
    }
}

impl matrix::traits::OneZero for Spectrum {
    fn one() -> Self {
        Self::ONE
    }

    fn zero() -> Self {
        Self::BLACK
    }
}

impl Spectrum {
    pub const ONE: Self = Self([1.0; crate::N_CHANNELS]);
    pub const BLACK: Self = Self([0.0; crate::N_CHANNELS]);

    /// Creates a new Spectrum full of equal values `v`
    pub fn gray(v: Float) -> Self {
        Self([v; crate::N_CHANNELS])
    }

    pub fn powi(&self, n: i32) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .for_each(|(i, this)| data[i] = this.powi(n));
        Self(data)
    }
    pub fn powf(&self, n: Float) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .for_each(|(i, this)| data[i] = this.powf(n));
        Self(data)
    }

    /// Checks whether `Spectrum::BLACK == self`
    pub fn is_black(&self) -> bool {
        for v in self.0 {
            if v >= 1e-24 {
                return false;
            }
        }
        true
    }

    /// Calculates a weighted average of RGB colours, returning
    /// a single value representing Radiance
    pub fn radiance(&self) -> Float {
        // self.0[0]*47.9 + self.0[1]*119.9 + self.0[2]*11.6
        self.0
            .iter()
            .zip(RADIANCE_COEFFICIENTS.iter())
            .map(|(a, b)| a * b)
            .sum()
    }

    /// Scales the chanels in order to make the
    /// radiance equals to 1
    pub fn normalize(&self) -> Self {
        *self / self.radiance()
    }

    /// Calculates a weighted average of RGB colours, returning
    /// a single value representing Radiance
    pub fn luminance(&self) -> Float {
        self.radiance() * WHITE_EFFICACY
    }

    /// Gets the maximum of the R, G, and B values
    pub fn max(&self) -> Float {
        let mut max = self.0[0];
        for v in self.0.iter().skip(1) {
            if *v > max {
                max = *v
            }
        }

        max
    }
}

impl std::fmt::Display for Spectrum {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:.5} {:.5} {:.5}", self.0[0], self.0[1], self.0[2])
    }
}

/* SPECTRUM | SPECTRUM OPERATIONS */
impl std::ops::Add for Spectrum {
    // Spectrum + Spectrum
    type Output = Self;

    fn add(self, other: Self) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .zip(other.0.iter())
            .for_each(|((i, this), other)| data[i] = this + other);
        Self(data)
    }
}
impl std::ops::Sub for Spectrum {
    // Spectrum - Spectrum
    type Output = Self;

    fn sub(self, other: Self) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .zip(other.0.iter())
            .for_each(|((i, this), other)| data[i] = this - other);
        Self(data)
    }
}

impl std::ops::AddAssign for Spectrum {
    // Spectrum += Spectrum
    fn add_assign(&mut self, other: Self) {
        for (i, this) in self.0.iter_mut().enumerate() {
            *this += other.0[i]
        }
    }
}

impl std::ops::SubAssign for Spectrum {
    // Spectrum -= Spectrum
    fn sub_assign(&mut self, other: Self) {
        for (i, this) in self.0.iter_mut().enumerate() {
            *this -= other.0[i]
        }
    }
}

impl std::ops::Mul for Spectrum {
    // Spectrum * Spectrum
    type Output = Self;

    fn mul(self, other: Self) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .zip(other.0.iter())
            .for_each(|((i, this), other)| data[i] = this * other);
        Self(data)
    }
}

impl std::ops::Div for Spectrum {
    // Spectrum / Spectrum
    type Output = Self;

    fn div(self, other: Self) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .zip(other.0.iter())
            .for_each(|((i, this), other)| data[i] = this / other);
        Self(data)
    }
}

impl std::ops::MulAssign for Spectrum {
    // Spectrum *= Spectrum
    fn mul_assign(&mut self, other: Self) {
        for (i, this) in self.0.iter_mut().enumerate() {
            *this *= other.0[i]
        }
    }
}

impl std::ops::DivAssign for Spectrum {
    // Spectrum /= Spectrum
    fn div_assign(&mut self, other: Self) {
        for (i, this) in self.0.iter_mut().enumerate() {
            *this /= other.0[i]
        }
    }
}

/* SPECTRUM | FLOAT OPERATIONS */

impl std::ops::Add<Float> for Spectrum {
    // Spectrum + Float
    type Output = Self;

    fn add(self, other: Float) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .for_each(|(i, this)| data[i] = this + other);
        Self(data)
    }
}

impl std::ops::Sub<Float> for Spectrum {
    // Spectrum - Float
    type Output = Self;

    fn sub(self, other: Float) -> Self {
        // Spectrum - Float
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .for_each(|(i, this)| data[i] = this - other);
        Self(data)
    }
}

impl std::ops::Mul<Float> for Spectrum {
    // Spectrum * Float
    type Output = Self;

    fn mul(self, other: Float) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .for_each(|(i, this)| data[i] = this * other);
        Self(data)
    }
}

impl std::ops::Div<Float> for Spectrum {
    // Spectrum / Float
    type Output = Self;

    fn div(self, other: Float) -> Self {
        let mut data = [0.0; crate::N_CHANNELS];
        self.0
            .iter()
            .enumerate()
            .for_each(|(i, this)| data[i] = this / other);
        Self(data)
    }
}

impl std::ops::AddAssign<Float> for Spectrum {
    // Spectrum += Float
    fn add_assign(&mut self, other: Float) {
        for this in self.0.iter_mut() {
            *this += other
        }
    }
}

impl std::ops::SubAssign<Float> for Spectrum {
    // Spectrum -= Float
    fn sub_assign(&mut self, other: Float) {
        for this in self.0.iter_mut() {
            *this -= other
        }
    }
}

impl std::ops::MulAssign<Float> for Spectrum {
    // Spectrum *= Float
    fn mul_assign(&mut self, other: Float) {
        for this in self.0.iter_mut() {
            *this *= other
        }
    }
}

impl std::ops::DivAssign<Float> for Spectrum {
    // Spectrum /= Float
    fn div_assign(&mut self, other: Float) {
        for this in self.0.iter_mut() {
            *this /= other
        }
    }
}

/* FLOAT | SPECTRUM OPERATIONS */

impl std::ops::Add<Spectrum> for Float {
    // Float + Spectrum
    type Output = Spectrum;
    fn add(self, c: Spectrum) -> Spectrum {
        let mut data = [0.0; crate::N_CHANNELS];
        c.0.iter()
            .enumerate()
            .for_each(|(i, other)| data[i] = self + other);
        Spectrum(data)
    }
}

impl std::ops::Sub<Spectrum> for Float {
    // Float - Spectrum
    type Output = Spectrum;
    fn sub(self, c: Spectrum) -> Spectrum {
        let mut data = [0.0; crate::N_CHANNELS];
        c.0.iter()
            .enumerate()
            .for_each(|(i, other)| data[i] = self - other);
        Spectrum(data)
    }
}

impl std::ops::Mul<Spectrum> for Float {
    // Float * Spectrum
    type Output = Spectrum;
    fn mul(self, c: Spectrum) -> Spectrum {
        let mut data = [0.0; crate::N_CHANNELS];
        c.0.iter()
            .enumerate()
            .for_each(|(i, other)| data[i] = self * other);
        Spectrum(data)
    }
}

impl std::ops::Div<Spectrum> for Float {
    // FLoat / Spectrum
    type Output = Spectrum;
    fn div(self, c: Spectrum) -> Spectrum {
        let mut data = [0.0; crate::N_CHANNELS];
        c.0.iter()
            .enumerate()
            .for_each(|(i, other)| data[i] = self / other);
        Spectrum(data)
    }
}

impl std::convert::From<Float> for Spectrum {
    fn from(f: Float) -> Self {
        Spectrum([f; crate::N_CHANNELS])
    }
}

