/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use crate::Float;
use geometry::{Point3D, Ray3D, Vector3D};

/// Calculates the parameters necessary for calculating the
/// Fresnel's equations. `cos2`—i.e., the cosine of the
/// angle between the normal and the transmitted ray—is wrapped in
/// an `Option` because it does not exist if the angle of incidence
/// is larger than the critical angle.
///
/// # Example
/// ```
/// use geometry::{Point3D,Vector3D, Ray3D};
/// use rendering::Spectrum;
/// use rendering::material::cos_and_n;
/// use rendering::interaction::Interaction;
///
/// let mat_refraction_index = 1.52;
/// let normal = Vector3D::new(0., 0., 1.);
/// let ray = Vector3D::new(0., 1., -2.).get_normalized();
/// let (n1, cos1, n2, cos2) = cos_and_n(ray, 1.0, normal, mat_refraction_index);
/// ```
pub fn cos_and_n(
    vin: Vector3D,
    n1: Float,
    normal: Vector3D,
    refraction_index: Float,
) -> (Float, Float, Float, Option<Float>) {
    let cos1 = (vin * normal).abs();
    let mut n2 = refraction_index;
    // If the ray already has this refraction index, assume
    // we are leaving a volume, entering air.
    if (n1 - n2).abs() < 1e-7 {
        n2 = 1.0;
    }
    // Calculate cos2
    let sin1_sq = (1. - cos1 * cos1).clamp(0., Float::MAX);
    let sin2_sq = n1 * n1 * sin1_sq / (n2 * n2); // Snell's law squared
    #[cfg(debug_assertions)]
    {
        let lhs = n1 * sin1_sq.sqrt();
        let rhs = n2 * sin2_sq.sqrt();
        debug_assert!((lhs - rhs).abs() < 1e-5, "rhs = {}, lhs = {}", lhs, rhs);
    }
    debug_assert!(sin2_sq >= 0.0);
    if sin2_sq > 1. {
        // Pure reflection...
        return (n1, cos1, n2, None);
    }

    let cos2 = (1. - sin2_sq).sqrt();

    (n1, cos1, n2, Some(cos2))
}

/// Fresnel Coefficient for TE-Polarized Light (i.e., perpendicular), according to PBR-book
///
/// `n1` is the index of refraction on the ray's side; `cos1` is the
/// cosine of the angle between the surface's normal and ray.
///
/// `n2` is the index of refraction on the side opposite to the ray; `cos2` is the
/// cosine of the angle between the surface's normal and transmitted ray
pub fn fresnel_te(n1: Float, cos1: Float, n2: Float, cos2: Float) -> Float {
    (n1 * cos1 - n2 * cos2) / (n1 * cos1 + n2 * cos2)
}

/// Fresnel Coefficient for TM-Polarized Light (i.e., parallel), according to PBR-book
///
/// `n1` is the index of refraction on the ray's side; `cos1` is the
/// cosine of the angle between the surface's normal and ray.
///
/// `n2` is the index of refraction on the side opposite to the ray; `cos2` is the
/// cosine of the angle between the surface's normal and transmitted ray
pub fn fresnel_tm(n1: Float, cos1: Float, n2: Float, cos2: Float) -> Float {
    // (n2 * cos1 - n1 * cos2) / (n2 * cos1 + n1 * cos2)
    (n1 / cos1 - n2 / cos2) / (n1 / cos1 + n2 / cos2)
}

pub fn fresnel_reflectance(n1: Float, cos1: Float, n2: Float, cos2: Float) -> Float {
    let parallel = fresnel_tm(n1, cos1, n2, cos2);
    let perpendicular = fresnel_te(n1, cos1, n2, cos2);
    0.5 * (parallel * parallel + perpendicular * perpendicular)
}

/// Calculates the direction of the transmision
pub fn fresnel_transmission_dir(
    vin: Vector3D,
    normal: Vector3D,
    n1: Float,
    cos1: Float,
    n2: Float,
    cos2: Float,
) -> Vector3D {
    // Check inputs
    debug_assert!(
        (1. - vin.length()).abs() < 1e-5,
        "length is {}",
        vin.length()
    );
    debug_assert!(
        (1. - normal.length()).abs() < 1e-5,
        "length is {}",
        normal.length()
    );

    debug_assert!(cos1 > 0.);
    debug_assert!(cos2 > 0.);
    debug_assert!(n1 > 0.);
    debug_assert!(n2 > 0.);
    if vin * normal > 0.0 {
        debug_assert!(vin * normal < 0., "vin*normal = {}", vin * normal);
    }

    let n_ratio = n1 / n2;
    let ret = vin * n_ratio + normal * (n_ratio * cos1 - cos2);
    // check that it is normalized
    debug_assert!(
        (1. - ret.length()).abs() < 1e-5,
        "length is {}",
        ret.length()
    );
    // check that it is not pointing in the same direction as normal.
    debug_assert!(normal * ret < 0., "normal = {}, ret = {}", normal, ret);
    ret
}

/// Calculates the purely specular reflection direction, assuming the normal direction is UP
pub fn mirror_direction(vin: Vector3D) -> Vector3D {
    Vector3D::new(vin.x, vin.y, -vin.z)
}

/// Calculates the Mirror BSDF and modifies the given ray so that it now points in that direction
pub fn mirror_bsdf(intersection_pt: Point3D, ray: &mut Ray3D) -> Float {
    // avoid self shading
    ray.origin = intersection_pt;
    ray.origin.z += 0.00001;
    let ray_dir = ray.direction;
    let cos = ray_dir.z.abs();
    ray.direction = mirror_direction(ray_dir);
    debug_assert!(
        (ray.direction.length() - 1.).abs() < 1e-5,
        "dir len is {}",
        ray.direction.length()
    );
    1. / cos
}

/// Evaluates the mirror BSDf
pub fn eval_mirror_bsdf(vin: Vector3D, vout: Vector3D) -> Float {
    let mirror = mirror_direction(vin);
    if vout.is_parallel(mirror) {
        let cos = (vin.z).abs();
        1. / cos
    } else {
        0.
    }
}

