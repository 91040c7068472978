/*
MIT License

Copyright (c)  Germán Molina

Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:

The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use serde::Deserialize;
use serde::Serialize;

use crate::Float;

use crate::Point3D;
use std::fmt;

/// A 3-dimensional Vector
#[derive(Default, Debug, Copy, Clone, PartialEq, Serialize, Deserialize)]
pub struct Vector3D {
    /// the X component
    pub x: Float,
    /// the Y component
    pub y: Float,
    /// the Z component
    pub z: Float,
}

impl fmt::Display for Vector3D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Vector3D({:.5},{:.5},{:.5})", self.x, self.y, self.z)
    }
}

impl std::convert::From<Point3D> for Vector3D {
    fn from(v: Point3D) -> Vector3D {
        Vector3D::new(v.x, v.y, v.z)
    }
}

impl Vector3D {
    /// Creates a new vector.
    pub const fn new(x: Float, y: Float, z: Float) -> Vector3D {
        Vector3D { x, y, z }
    }

    /// Creates a (0,0,1) vector
    pub const fn z() -> Self {
        Vector3D {
            x: 0.0,
            y: 0.0,
            z: 1.0,
        }
    }

    /// Creates a (1,0,0) vector
    pub const fn x() -> Self {
        Vector3D {
            x: 1.0,
            y: 0.0,
            z: 0.0,
        }
    }

    /// Creates a (0,1,0) vector
    pub const fn y() -> Self {
        Vector3D {
            x: 0.0,
            y: 1.0,
            z: 0.0,
        }
    }

    /// Returns a new vector, containing the absolute values of each component of `self`
    pub fn abs(&self) -> Self {
        Self {
            x: self.x.abs(),
            y: self.y.abs(),
            z: self.z.abs(),
        }
    }

    /// Transforms a [`Vector3D`] into a [`Point3D`]
    pub fn as_point3d(&self) -> Point3D {
        Point3D {
            x: self.x,
            y: self.y,
            z: self.z,
        }
    }

    /// Gets a normalized [`Vector3D`] that is perpendicular
    /// to `self`
    #[cfg(not(feature = "quick_inv_sqrt"))]
    pub fn get_perpendicular(&self) -> Result<Self, String> {
        const TINY: Float = 100. * Float::EPSILON;
        let ax: Float;
        let ay: Float;
        let az: Float;
        if self.x.abs() > TINY {
            let vx2 = self.x * self.x;
            let vy2 = self.y * self.y;

            ay = self.x / (vx2 + vy2).sqrt();
            az = 0.;
            ax = -self.y * ay / self.x;
        } else if self.y.abs() > TINY {
            let vx2 = self.x * self.x;
            let vy2 = self.y * self.y;
            ax = self.y / (vx2 + vy2).sqrt();
            az = 0.;
            ay = -self.x * ax / self.y;
        } else if self.z.abs() > TINY {
            let vx2 = self.x * self.x;
            let vz2 = self.z * self.z;

            ax = self.z / (vz2 + vx2).sqrt();
            ay = 0.0;
            az = -self.x * ax / self.z;
        } else {
            return Err(format!(
                "Trying to get a Vector3D perpendicular to a Zero Vector (self = {})",
                self
            ));
        }
        let ret = Self::new(ax, ay, az);
        // ret.normalize();
        Ok(ret)
    }

    /// Gets a normalized [`Vector3D`] that is perpendicular
    /// to `self`
    #[cfg(feature = "quick_inv_sqrt")]
    pub fn get_perpendicular(&self) -> Result<Self, String> {
        const TINY: Float = 100. * Float::EPSILON;
        let ax: Float;
        let ay: Float;
        let az: Float;
        if self.x.abs() > TINY {
            let vx2 = self.x * self.x;
            let vy2 = self.y * self.y;

            ay = self.x * crate::quick_inverse_sqrt::quick_inv_sqrt(vx2 + vy2);
            az = 0.;
            ax = -self.y * ay / self.x;
        } else if self.y.abs() > TINY {
            let vx2 = self.x * self.x;
            let vy2 = self.y * self.y;
            ax = self.y * crate::quick_inverse_sqrt::quick_inv_sqrt(vx2 + vy2);
            az = 0.;
            ay = -self.x * ax / self.y;
        } else if self.z.abs() > TINY {
            let vx2 = self.x * self.x;
            let vz2 = self.z * self.z;

            ax = self.z * crate::quick_inverse_sqrt::quick_inv_sqrt(vz2 + vx2);
            ay = 0.0;
            az = -self.x * ax / self.z;
        } else {
            return Err(format!(
                "Trying to get a Vector3D perpendicular to a Zero Vector (self = {})",
                self
            ));
        }
        let ret = Self::new(ax, ay, az);
        // ret.normalize();
        Ok(ret)
    }

    /// Checks whether a vector is equal (or close) to another vector
    pub fn compare(&self, p: Vector3D) -> bool {
        const TINY: Float = 1e-5;
        (self.x - p.x).abs() < TINY && (self.y - p.y).abs() < TINY && (self.z - p.z).abs() < TINY
    }

    /// Cross product between two vectors
    pub fn cross(&self, v: Vector3D) -> Vector3D {
        let dx = self.y * v.z - self.z * v.y;
        let dy = self.z * v.x - self.x * v.z;
        let dz = self.x * v.y - self.y * v.x;

        Vector3D::new(dx, dy, dz)
    }

    /// Calculates the length of a vector
    pub fn length(&self) -> Float {
        self.length_squared().sqrt()
    }

    /// Calculates the length of a vector squared.
    ///
    /// Often using the squared of the length is the same as using the length of a vector
    /// (e.g., when comparing distances, the squared lengths of vectors are sorted in the same order
    /// as the lengths themselves). In such cases, using `length_squared()` is preferred because
    /// it is faster
    pub fn length_squared(&self) -> Float {
        self.x * self.x + self.y * self.y + self.z * self.z
    }

    /// Normalizes a Vector, mutating it.
    pub fn normalize(&mut self) {
        let l2 = self.length_squared();
        assert!(l2 > 1e-20, "Trying to normalize a vector with zero length");

        #[cfg(not(feature = "quick_inv_sqrt"))]
        let l = 1. / l2.sqrt();
        #[cfg(feature = "quick_inv_sqrt")]
        let l = crate::quick_inverse_sqrt::quick_inv_sqrt(l2);

        self.x *= l;
        self.y *= l;
        self.z *= l;
    }

    /// Returns a normalized version of a vector
    pub fn get_normalized(&self) -> Vector3D {
        let mut ret = *self;
        ret.normalize();
        ret
    }

    /// Checks whether a vector is Zero
    pub fn is_zero(&self) -> bool {
        const TINY: Float = 100. * Float::EPSILON;
        self.x.abs() < TINY && self.y.abs() < TINY && self.z.abs() < TINY
    }

    /// Checks if two vectors are parallel
    pub fn is_parallel(&self, v: Vector3D) -> bool {
        // If any of them is zero, false
        if v.is_zero() || self.is_zero() {
            return false;
        }

        let ab_squared = self.length_squared() * v.length_squared();
        let dot: Float = *self * v;
        let r = ((dot * dot) - ab_squared).abs();
        r < 1e-5
    } // end of is_parallel

    /// Checks if two vectors are parallel and follow the same direction.
    pub fn is_same_direction(&self, v: Vector3D) -> bool {
        if !self.is_parallel(v) {
            // If they are not parallel, don't bother
            false
        } else {
            // Dot product must be positive for the
            // vectors to point in the same general
            // direction
            *self * v > 0.
        }
    }

    /// Scales each component by its corresponding value
    pub fn scale_components(&self, x: Float, y: Float, z: Float) -> Self {
        Self {
            x: self.x * x,
            y: self.y * y,
            z: self.z * z,
        }
    }
}

impl std::ops::Mul<Vector3D> for Vector3D {
    type Output = Float;

    fn mul(self, other: Vector3D) -> Float {
        {
            self.x * other.x + self.y * other.y + self.z * other.z
        }
    }
}

impl std::ops::Mul<Float> for Vector3D {
    type Output = Vector3D;

    fn mul(self, s: Float) -> Vector3D {
        Vector3D::new(self.x * s, self.y * s, self.z * s)
    }
}

impl std::ops::Mul<Point3D> for Vector3D {
    type Output = Float;

    fn mul(self, other: Point3D) -> Float {
        {
            self.x * other.x + self.y * other.y + self.z * other.z
        }
    }
}

impl std::ops::MulAssign<Float> for Vector3D {
    fn mul_assign(&mut self, s: Float) {
        self.x *= s;
        self.y *= s;
        self.z *= s;
    }
}

impl std::ops::Div<Float> for Vector3D {
    type Output = Vector3D;

    fn div(self, s: Float) -> Vector3D {
        Vector3D::new(self.x / s, self.y / s, self.z / s)
    }
}

impl std::ops::DivAssign<Float> for Vector3D {
    fn div_assign(&mut self, s: Float) {
        self.x /= s;
        self.y /= s;
        self.z /= s;
    }
}

impl std::ops::Add<Vector3D> for Vector3D {
    type Output = Vector3D;

    fn add(self, other: Vector3D) -> Vector3D {
        Vector3D::new(self.x + other.x, self.y + other.y, self.z + other.z)
    }
}

impl std::ops::AddAssign<Vector3D> for Vector3D {
    fn add_assign(&mut self, other: Vector3D) {
        self.x += other.x;
        self.y += other.y;
        self.z += other.z;
    }
}

impl std::ops::SubAssign<Vector3D> for Vector3D {
    fn sub_assign(&mut self, other: Vector3D) {
        self.x -= other.x;
        self.y -= other.y;
        self.z -= other.z;
    }
}

impl std::ops::Neg for Vector3D {
    type Output = Vector3D;

    fn neg(self) -> Vector3D {
        Vector3D::new(-self.x, -self.y, -self.z)
    }
}

impl std::ops::Sub<Vector3D> for Vector3D {
    type Output = Vector3D;

    fn sub(self, other: Vector3D) -> Vector3D {
        Vector3D::new(self.x - other.x, self.y - other.y, self.z - other.z)
    }
}

/***********/
/* TESTING */
/***********/

