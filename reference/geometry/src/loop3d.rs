/*
MIT License

Copyright (c)  Germán Molina

Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:

The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use serde::ser::SerializeSeq;
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::Value;

use crate::{BBox3D, Float};
use crate::{Point3D, Segment3D, Vector3D};

/// A set of [`Point3D`] in sequence, forming a closed loop.
/// It has some particularities.
///
/// ```
/// use geometry::{Loop3D, Point3D};
/// let mut the_loop = Loop3D::new();
/// assert!(the_loop.is_empty());
/// let l = 0.5;
///
/// assert!(the_loop.push(Point3D::new(-l, -l, 0.)).is_ok());
/// assert!(the_loop.push(Point3D::new(-l, l, 0.)).is_ok());
/// assert!(the_loop.push(Point3D::new(l, l, 0.)).is_ok());
/// assert!(the_loop.push(Point3D::new(l, -l, 0.)).is_ok());
///
/// assert!(the_loop.area().is_err());
/// assert!(the_loop.close().is_ok());
///
/// let a = the_loop.area().expect("no area?");
/// assert!((4. * l * l - a).abs() < 0.0001);
/// ```
/// # Note:
/// It has some peculiarities. For instance, it attempts
/// to reduce the number of points on a [`Loop3D`]. This is done by
/// identifying when a colinear [`Point3D`] is to be added and, instead
/// of extending the [`Loop3D`], replacing the last element.
///
/// ```
/// use geometry::{Loop3D, Point3D};
/// let mut the_loop = Loop3D::new();
///
/// assert!(the_loop.push(Point3D::new(0., 0., 0.)).is_ok());
/// assert!(the_loop.push(Point3D::new(1., 1., 0.)).is_ok());
/// assert_eq!(2, the_loop.len());
///
/// // Adding a collinear point will not extend.
/// let collinear = Point3D::new(2., 2., 0.);
/// assert!(the_loop.push(collinear).is_ok());
/// assert_eq!(2, the_loop.len());
/// assert_eq!(the_loop[1], collinear);
/// ```
///
#[derive(Debug, Clone)]
pub struct Loop3D {
    /// The points of the [`Loop3D`]
    vertices: Vec<Point3D>,

    /// The normal, following a right-hand-side convention
    normal: Vector3D,

    /// A flag indicating whether the [`Loop3D`] is considered finished or not.
    closed: bool,

    /// The area of the [`Loop3D`], only calculated when closing it
    area: Float,

    /// The perimeter of the loop
    perimeter: Float,
}

impl std::iter::IntoIterator for Loop3D {
    type Item = Point3D;
    type IntoIter = std::vec::IntoIter<Self::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.vertices.into_iter()
    }
}

// impl std::fmt::Display for Loop3D {
//     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
//         let n = self.vertices.len();
//         for p in self.vertices.iter().take(n - 1) {
//             writeln!(f, "{},{},{},", p.x, p.y, p.z)?;
//         }
//         let p = self.vertices.last().unwrap();
//         write!(f, "{},{},{}", p.x, p.y, p.z)
//     }
// }

impl std::fmt::Display for Loop3D {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        writeln!(f, "\t[",)?;
        for p in self.vertices.iter() {
            writeln!(f, "\t\t{},{},{},", p.x, p.y, p.z)?;
        }
        write!(f, "\t]")?;
        Ok(())
    }
}

impl Serialize for Loop3D {
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: serde::Serializer,
    {
        let mut seq = serializer.serialize_seq(Some(3 * self.vertices.len()))?;
        for Point3D { x, y, z } in self.vertices.iter() {
            seq.serialize_element(x)?;
            seq.serialize_element(y)?;
            seq.serialize_element(z)?;
        }

        seq.end()
    }
}

impl<'de> Deserialize<'de> for Loop3D {
    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
    where
        D: Deserializer<'de>,
    {
        let data: Value = Deserialize::deserialize(deserializer)?;
        let mut ret = Self::new();

        if let Value::Array(a) = data {
            let mut it = a.iter();

            while let Some(x) = it.next() {
                let x = match x {
                    Value::Number(x) => {
                        x.as_f64()
                            .ok_or("Could not get X... it does not seem to be a number")
                            .map_err(serde::de::Error::custom)? as Float
                    }
                    _ => {
                        return Err(serde::de::Error::custom(
                            "Expecting Polygon3D to be an array of numbers",
                        ))
                    }
                };
                let y = it.next();
                let y = match y {
                    Some(Value::Number(y)) => {
                        y.as_f64()
                            .ok_or("Could not get Y... it does not seem to be a number")
                            .map_err(serde::de::Error::custom)? as Float
                    }
                    _ => {
                        return Err(serde::de::Error::custom(
                            "Expecting Polygon3D to be an array of numbers",
                        ))
                    }
                };
                let z = it.next();
                let z = match z {
                    Some(Value::Number(z)) => {
                        z.as_f64()
                            .ok_or("Could not get Z... it does not seem to be a number")
                            .map_err(serde::de::Error::custom)? as Float
                    }
                    _ => {
                        return Err(serde::de::Error::custom(
                            "Expecting Polygon3D to be an array of numbers",
                        ))
                    }
                };
                // We push "as is"
                ret.push_collinear(Point3D { x, y, z }, false)
                    .map_err(serde::de::Error::custom)?;
            }
        }

        ret.close().map_err(serde::de::Error::custom)?;

        Ok(ret)
    }
}

impl Default for Loop3D {
    fn default() -> Self {
        Self::new()
    }
}

impl std::ops::Index<usize> for Loop3D {
    type Output = Point3D;

    fn index(&self, index: usize) -> &Self::Output {
        if index >= self.vertices.len() {
            panic!(
                "Trying to get a vertex out of bounds... {} available, index was {}",
                self.vertices.len(),
                index
            );
        }
        &self.vertices[index]
    }
}

impl Loop3D {
    /// Creates a new and empty [`Loop3D`]. It has a Zero Normal and an
    /// area of -1. These attributes are filled automatically when pushing
    /// vertices into the Loop.
    pub fn new() -> Loop3D {
        Loop3D {
            vertices: Vec::new(),
            normal: Vector3D::new(0., 0., 0.),
            closed: false,
            area: -1.0,
            perimeter: -1.0,
        }
    }

    /// Check if two Polygon3D have the same vertices (i.e., same shape and position),
    /// ignoring their starting point or their normal.
    ///
    /// # Example
    /// ```
    /// use geometry::{Loop3D, Point3D};
    ///
    /// let mut l = Loop3D::with_capacity(3);
    /// let a = Point3D::new(0., 0., 0.);
    /// let b = Point3D::new(1., 1., 0.);
    /// let c = Point3D::new(0., 1., 0.);
    ///
    /// assert!(l.push(a).is_ok());
    /// assert!(l.push(b).is_ok());
    /// assert!(l.push(c).is_ok());
    /// assert!(l.close().is_ok());
    ///
    /// let mut l2 = Loop3D::with_capacity(4);
    /// assert!(l2.push(b).is_ok());
    /// assert!(l2.push(c).is_ok());
    /// assert!(l2.push(a).is_ok());
    /// assert!(l2.close().is_ok());
    ///
    /// if let Ok(is_equal) = l.is_equal(&l2, 0.001){
    ///     assert!(is_equal);
    /// }else{
    ///     panic!("these should have been equal");
    /// }
    /// ```
    pub fn is_equal(&self, other: &Loop3D, eps: Float) -> Result<bool, String> {
        if !self.closed || !other.closed {
            return Err("Trying to compare two Loop3D that might not be closed".into());
        }
        // Cant be equal if they have different area or n vertices
        if self.len() != other.len() || (self.area - other.area).abs() > 1e-3 {
            return Ok(false);
        }

        // find the vertex in other that matches the first vertex in self.
        let mut anchor = 0;
        let mut found = false;
        for (i, p) in other.vertices.iter().enumerate() {
            if p.compare_by(self.vertices[0], eps) {
                found = true;
                anchor = i;
                break;
            }
        }
        if !found {
            return Ok(false);
        }

        let is_reversed = self.normal * other.normal < 0.0;
        let n = self.len();

        let mut other_i = anchor;
        for this_pt in self.vertices.iter() {
            let other_pt = other.vertices[other_i];
            if !this_pt.compare_by(other_pt, eps) {
                return Ok(false);
            }
            if is_reversed {
                other_i = (other_i + n - 1) % n;
            } else {
                other_i = (other_i + 1) % n;
            }
        }

        Ok(true)
    }

    /// Reverses the order of the vertices in the [`Loop3D`]
    /// and also the normal.
    ///
    /// # Example
    /// ```
    /// use geometry::{Loop3D, Point3D};
    ///
    /// let mut l = Loop3D::with_capacity(4);
    /// let a = Point3D::new(0., 0., 0.);
    /// let b = Point3D::new(1., 1., 0.);
    /// let c = Point3D::new(0., 1., 0.);
    ///
    /// assert!(l.push(a).is_ok());
    /// assert!(l.push(b).is_ok());
    /// assert!(l.push(c).is_ok());
    ///
    /// let normal = l.normal();
    ///
    /// // reverse
    /// l.reverse();
    ///
    /// let v = l.vertices();
    /// assert!((normal * -1.0).compare(l.normal()));
    /// assert!(a.compare(v[2]));
    /// assert!(b.compare(v[1]));
    /// assert!(c.compare(v[0]));
    ///
    /// ```
    pub fn reverse(&mut self) {
        self.normal *= -1.0;
        self.vertices = self.vertices.iter().rev().copied().collect();
    }

    /// Returns a clone of the [`Loop3D`] but reversed (vertices in the
    /// opposite order, and the normal [`Vector3D`] pointing on the
    /// opposite direction)
    ///
    /// # Example
    /// ```
    /// use geometry::{Loop3D, Point3D};
    ///
    /// let mut l = Loop3D::with_capacity(4);
    /// let a = Point3D::new(0., 0., 0.);
    /// let b = Point3D::new(1., 1., 0.);
    /// let c = Point3D::new(0., 1., 0.);
    ///
    /// assert!(l.push(a).is_ok());
    /// assert!(l.push(b).is_ok());
    /// assert!(l.push(c).is_ok());
    ///
    /// // reverse
    /// let rev_l = l.get_reversed();
    ///
    /// assert_eq!(rev_l.len(), l.len());
    /// assert!((l.normal()*-1.0).compare(rev_l.normal()));
    /// let v = l.vertices();
    /// let rev_v = rev_l.vertices();
    /// let n = v.len();
    ///
    /// for i in 0..n {
    ///     let p = v[i];
    ///     let rev_p = rev_v[n-1-i];
    ///     assert!(p.compare(rev_p));
    /// }
    ///
    /// ```
    pub fn get_reversed(&self) -> Self {
        let mut ret = self.clone();
        ret.reverse();
        ret
    }

    /// Creates a new and empty [`Loop3D`] with a specific `capacity`. It has a Zero Normal and an
    /// area of -1. These attributes are filled automatically when pushing
    /// vertices into the Loop.
    pub fn with_capacity(capacity: usize) -> Loop3D {
        Loop3D {
            vertices: Vec::with_capacity(capacity),
            normal: Vector3D::new(0., 0., 0.),
            closed: false,
            area: -1.0,
            perimeter: -1.0,
        }
    }

    /// is closed?
    pub fn closed(&self) -> bool {
        self.closed
    }

    /// Gets a [`BBox3D`] containing the `Loop3D`
    pub fn bbox(&self) -> Result<BBox3D, String> {
        if self.vertices.is_empty() {
            return Err("Trying to get a BBox3D of an empty Loop3D".to_string());
        }
        let first_point = self.vertices[0]; // safe because we know this exists
        let mut ret = BBox3D::from_point(first_point);

        for v in self.vertices.iter().skip(1) {
            ret = BBox3D::from_union_point(&ret, *v);
        }

        Ok(ret)
    }

    /// Creates a clone of `self`, removing the
    /// collinear points.
    ///
    /// The returned [`Loop3D`] will be closed if `self`
    /// is closed and it has more than 3 vertices (it might not
    /// happen, as loops can be modified after closed... not very
    /// safe, but possible)
    ///
    /// # Example
    ///
    /// ```
    /// use geometry::{Loop3D, Point3D};
    ///
    /// let mut l = Loop3D::with_capacity(4);
    /// // Add a triangle
    /// assert!(l.push(Point3D::new(0., 0., 0.)).is_ok());
    /// assert!(l.push(Point3D::new(1., 1., 0.)).is_ok());
    /// assert!(l.push(Point3D::new(0., 1., 0.)).is_ok());
    /// assert!(l.push(Point3D::new(0., 0.5, 0.)).is_ok());
    ///
    /// let res = l.sanitize();
    /// assert!(res.is_ok());
    ///
    /// ```
    pub fn sanitize(self) -> Result<Self, String> {
        let mut new = Self::with_capacity(self.len());
        for v in self.vertices.iter() {
            new.push(*v)?;
        }
        if self.closed && new.vertices.len() >= 3 {
            new.close()?
        }
        Ok(new)
    }

    /// Checks if the [`Loop3D`] has Zero vertices
    pub fn is_empty(&self) -> bool {
        self.vertices.is_empty()
    }

    /// Borrows the vertices
    pub fn vertices(&self) -> &[Point3D] {
        &self.vertices
    }

    /// Borrows a mutable reference to the vertices
    pub fn mut_vertices(&mut self) -> &mut Vec<Point3D> {
        &mut self.vertices
    }

    /// Removes a vertex
    pub fn remove(&mut self, i: usize) {
        self.vertices.remove(i);
    }

    /// Checks whether a [`Point3D`] can be added to a [`Loop3D`] while keeping
    /// it valid
    ///
    /// It checks that:
    /// * That the [`Loop3D`] has not been closed yet
    /// * that the new [`Point3D`] is coplanar witht he rest of the [`Point3D`]
    /// * Adding the [`Point3D`] will not make the [`Loop3D`] intersect with itself
    fn valid_to_add(&self, point: Point3D) -> Result<(), String> {
        //check if it is closed
        if self.closed {
            return Err("Trying to add a point to a closed Loop3D".to_string());
        }

        // Check if we can already validate coplanarity
        if !self.normal.is_zero() {
            // Normal should be there.
            if !self.is_coplanar(point)? {
                return Err("Trying to add a non-coplanar point to Loop3D".to_string());
            }
        }

        // Check if the new vertex would make the loop intersect with itself
        let n = self.vertices.len();
        if n >= 3 {
            let last_v = self.vertices[n - 1];
            let new_edge = Segment3D::new(last_v, point);
            let mut intersect = Point3D::new(0., 0., 0.); // dummy variable
            for i in 0..n - 2 {
                let v = self.vertices[i];
                let v_p1 = self.vertices[i + 1];
                let this_s = Segment3D::new(v, v_p1);
                // Check the point of intersection.
                if new_edge.intersect(&this_s, &mut intersect) {
                    return Err(
                        "Trying to push a point that would make the Loop3D intersect with itself"
                            .to_string(),
                    );
                }
            }
        }
        Ok(())
    }

    /// It is like `push`, but the `avoid_dollinear` parameters let us choose whether we want to
    /// allow multiple collinear points being put together.
    pub fn push_collinear(&mut self, point: Point3D, avoid_collinear: bool) -> Result<(), String> {
        // Check the point
        self.valid_to_add(point)?;

        if let Some(last) = self.vertices.last() {
            if last.compare(point) {
                return Ok(());
            }
        }

        let n = self.vertices.len();

        // If there are previous points, Check the points before the new addition
        if n >= 2 {
            let a = self.vertices[n - 2];
            let b = self.vertices[n - 1];

            if avoid_collinear && a.is_collinear(b, point)? {
                // if it is collinear, update last point instead of
                // adding a new one
                self.vertices[n - 1] = point;
            } else {
                self.vertices.push(point);
            }
        } else {
            self.vertices.push(point);
        }

        // Calculate the normal if possible
        if self.vertices.len() >= 3 {
            self.set_normal()?;
        }
        Ok(())
    }

    /// Pushes a new [`Point3D`] into the [`Loop3D`].
    ///
    /// If the [`Point3D`] being
    /// pushed is collinear with the previous two, then instead of pushing a new
    /// [`Point3D`] it will update the last one (i.e., because the shape and area)
    /// of the [`Loop3D`] will still be the same.
    ///
    /// Returns an error if the point being added would make the [`Loop3D`]
    /// intersect itself, or if the new [`Point3D`] is not coplanar with the
    /// [`Loop3D`], or if the [`Loop3D`] is closed.
    pub fn push(&mut self, point: Point3D) -> Result<(), String> {
        self.push_collinear(point, true)
    }

    /// Counts the vertices in the [`Loop3D`]
    pub fn len(&self) -> usize {
        self.vertices.len()
    }

    /// Checks if a [`Segment3D`] intersects any of the other [`Segment3D`]
    /// in the [`Loop3D`] and if its midpoint is inside of it.
    ///
    /// Note that the idea is to call it by using segments that go from
    /// one vertex to another. I mean, this function takes *any* segment,
    /// meaning that a small [`Segment3D`] "floating" inside of a big [`Loop3D`]
    /// will be considered a diagonal... be careful with this
    pub fn is_diagonal(&self, s: Segment3D) -> Result<bool, String> {
        if s.length < 1e-5 {
            // Very small segment cannot be diagonal
            return Ok(false);
        }
        let mut inter = Point3D::new(0., 0., 0.);
        let n = self.len();
        // It cannot intersect any
        for i in 0..=n {
            let a = self.vertices[i % n];
            let b = self.vertices[(i + 1) % n];

            let poly_s = Segment3D::new(a, b);
            let intersects = s.intersect(&poly_s, &mut inter);

            // If they are contained and are the same length, then they are the same segment
            const TINY: Float = 1e-7;
            let different_length = (s.length() - poly_s.length()).abs() > TINY;
            let contains = s.contains(&poly_s)? && different_length;
            let is_equal = s.compare(&poly_s);
            if intersects || contains || is_equal {
                return Ok(false);
            }
        }
        // And the midpoint must be in the loop.
        if !self.test_point(s.midpoint())? {
            return Ok(false);
        }

        Ok(true)
    }

    /// Opens a [`Loop3D`]
    pub fn open(&mut self) {
        self.closed = false
    }

    /// Closes a [`Loop3D`], calculating its area and checking the connection
    /// between the first and last vertex. If the first and the last
    pub fn close(&mut self) -> Result<(), String> {
        // Check if we can try to close now...
        if self.vertices.len() < 3 {
            return Err("Loops need at least 3 vertices".to_string());
        }

        // Check the last vertex for collinearity
        let n = self.vertices.len();
        let a = self.vertices[n - 2];
        let b = self.vertices[n - 1];
        let c = self.vertices[0];

        if a.is_collinear(b, c)? {
            // collinear. Remove the last vertex
            self.vertices.pop();
        }

        // Check if closing would intercept
        self.valid_to_add(self.vertices[0])?;

        // Check the first vertex for collinearity
        let n = self.vertices.len();
        let a = self.vertices[n - 1];
        let b = self.vertices[0];
        let c = self.vertices[1];

        if a.is_collinear(b, c)? {
            // collinear. Remove the last vertex
            self.vertices.remove(0);
        }

        // check normal
        if self.normal.length_squared() < 1e-14 {
            return Err("trying to close loop that was never assigned a normal".to_string());
        }

        // Close
        self.closed = true;
        self.set_area()?;
        self.set_perimeter()?;
        self.vertices.shrink_to_fit(); // save space
        Ok(())
    }

    /// Sets the normal [`Vector3D`] for a [`Loop3D`]
    fn set_normal(&mut self) -> Result<(), String> {
        const TINY: Float = 1e-15;

        if self.normal.length_squared() > TINY {
            // normal has been set already
            return Ok(());
        }
        if self.vertices.len() < 3 {
            return Err(
                "Trying to set the normal of a Polygon3D with less than three Point3D".to_string(),
            );
        }

        let a = self.vertices[0];
        let b = self.vertices[1];

        for i in 2..self.vertices.len() {
            let c = self.vertices[i];

            let ab = b - a;
            let bc = c - b;
            let normal = ab.cross(bc);
            if normal.length_squared() > TINY {
                self.normal = normal;
                self.normal.normalize();
                break;
            }
        }

        Ok(())
    }

    /// Retrieves the normal of the vector.
    ///
    /// # Note
    /// If the [`Loop3D`] has less than 3 vertices, then
    /// the Normal will be `Vector3D(0., 0., 0.)`, which is the default.
    pub fn normal(&self) -> Vector3D {
        self.normal
    }

    /// Checks whether a [`Point3D`] is coplanar with the rest of the
    /// points.
    pub fn is_coplanar(&self, p: Point3D) -> Result<bool, String> {
        // This should not happen, but you never know..
        if self.vertices.is_empty() {
            let msg = "Trying to check whether point is coplanar in a Loop3D without any vertices"
                .to_string();
            return Err(msg);
        }

        if self.normal.is_zero() {
            let msg =
                "Trying to check whether point is coplanar in a Loop3D without normal".to_string();
            return Err(msg);
        }

        let first_point = self.vertices[0];
        let d = first_point - p;

        let aux = (self.normal * d).abs();
        Ok(aux < 1e-7)
    }

    /// Tests whether a [`Point3D`] dwells inside of the [`Loop3D`].
    pub fn test_point(&self, point: Point3D) -> Result<bool, String> {
        // Check if the loop is done
        if !self.closed {
            return Err("Trying to test_point in an open Loop3D".to_string());
        }

        // Check if coplanar
        if !self.is_coplanar(point)? {
            return Ok(false);
        }

        // Ray cast
        let d = (point - (self.vertices[0] + self.vertices[1]) * 0.5) * 1000.; // Should be enough...?
        let ray = Segment3D::new(point, point + d);

        let mut n_cross = 0;
        let n = self.vertices.len();
        for i in 0..n {
            let vertex_a = self.vertices[i];
            let vertex_b = self.vertices[(i + 1) % n];
            let segment_ab = Segment3D::new(vertex_a, vertex_b);

            // Check if the point is in the segment.
            if segment_ab.contains_point(point)? {
                return Ok(true);
            }

            // Check if the ray and the segment touch. We only consider
            // touching at the start (e.g., t_a between [0 and 1) ) in
            // order not to count vertices twice.
            if let Some((t_a, t_b)) = segment_ab.get_intersection_pt(&ray) {
                // If the ray intersects
                if (0. ..=1.).contains(&t_b) && (0. ..=1.).contains(&t_a) {
                    if t_a < Float::EPSILON {
                        // if the intersection is at the start of the segment
                        let side_normal = d.cross(segment_ab.as_vector3d());
                        if side_normal.is_same_direction(self.normal) {
                            n_cross += 1
                        }
                    } else if t_a < 1. {
                        // intersection is within the segment (not including the end)
                        n_cross += 1;
                    } else {
                        // if the intersection is at the end of the segment
                        let side_normal = d.cross(segment_ab.as_reversed_vector3d());
                        if side_normal.is_same_direction(self.normal) {
                            n_cross += 1
                        }
                    }
                }
            }
        }
        // If did not touch OR touched an odd number of
        // times, then it was outside
        Ok(n_cross != 0 && n_cross % 2 != 0)
    } // end of test_point

    /// Calculates and caches the perimeter of the [`Loop3D`]
    fn set_perimeter(&mut self) -> Result<Float, String> {
        if !self.closed {
            let msg =
                "Trying to calculate the perimeter of a Loop3D that is not closed".to_string();
            return Err(msg);
        }

        if self.normal.is_zero() {
            let msg = "Trying to calculate the perimeter of a Loop3D with Zero normal".to_string();
            return Err(msg);
        }

        let n = self.vertices.len();
        if n < 3 {
            let msg =
                "Trying to calculate the perimeter of a Loop3D with less than three valid vertices"
                    .to_string();
            return Err(msg);
        }

        let mut per = 0.0;
        for i in 0..n {
            per += (self.vertices[i % n] - self.vertices[(i + 1) % n]).length();
        }

        self.perimeter = per;
        Ok(self.perimeter)
    }

    /// Calculates and caches the area of the [`Loop3D`]
    fn set_area(&mut self) -> Result<Float, String> {
        if !self.closed {
            let msg = "Trying to calculate the area of a Loop3D that is not closed".to_string();
            return Err(msg);
        }

        if self.normal.is_zero() {
            let msg = "Trying to calculate the area of a Loop3D with Zero normal".to_string();
            return Err(msg);
        }

        // Set the right hand side vector
        let mut rhs = Vector3D::new(0.0, 0.0, 0.0);

        let n = self.vertices.len();
        if n < 3 {
            let msg =
                "Trying to calculate the area of a Loop3D with less than three valid vertices"
                    .to_string();
            return Err(msg);
        }

        // We need to go around from 0 to N vertices,
        // ... so, n+1 valid vertices.
        let mut v: Vector3D = self.vertices[0].into();
        let mut v_p1: Vector3D = self.vertices[1].into();
        for i in 2..n + 2 {
            rhs += v.cross(v_p1);
            v = v_p1;
            v_p1 = self.vertices[i % n].into();
        }

        let area = self.normal * rhs / 2.0;
        if area < 0. {
            self.normal *= -1.;
        }
        self.area = area.abs();
        Ok(self.area)
    }

    /// Returns the area of the [`Loop3D`]
    pub fn area(&self) -> Result<Float, String> {
        if !self.is_closed() {
            Err("Trying to get the area of an open Loop3D".to_string())
        } else {
            Ok(self.area)
        }
    }

    /// Returns the perimeter of the [`Loop3D`]
    pub fn perimeter(&self) -> Result<Float, String> {
        if !self.is_closed() {
            Err("Trying to get the perimeter of an open Loop3D".to_string())
        } else {
            Ok(self.perimeter)
        }
    }

    /// Returns the centroid; i.e., the average of all vertices.
    pub fn centroid(&self) -> Result<Point3D, String> {
        if !self.is_closed() {
            Err("Trying to get the centroid of an open Loop3D".to_string())
        } else {
            let n = self.vertices.len() as Float;
            let (mut x, mut y, mut z) = (0., 0., 0.);
            for v in &self.vertices {
                x += v.x;
                y += v.y;
                z += v.z;
            }

            Ok(Point3D::new(x / n, y / n, z / n))
        }
    }

    /// Indicates whether the [`Loop3D`] has been closed already
    pub fn is_closed(&self) -> bool {
        self.closed
    }

    /// Checks whether the [`Loop3D`] contains a [`Segment3D`] `s`
    pub fn contains_segment(&self, s: &Segment3D) -> bool {
        let n = self.vertices.len();
        for (i, v) in self.vertices.iter().enumerate() {
            let next_v = self.vertices[(i + 1) % n];
            let segment = Segment3D::new(*v, next_v);
            if segment.compare(s) {
                return true;
            }
        }
        false
    }

    /// Checks whether a loop contains a specific [`Point3D`] as one of
    /// its vertices, comparing points with a maximum distance of `eps`.
    pub fn contains_vertex(&self, vertex: Point3D, eps: Float) -> bool {
        self.vertices.iter().any(|v| v.compare_by(vertex, eps))
    }

    /// Returns the index of the first segment that contains
    /// a certain point... if any.
    ///
    /// The first segment is the one that goes from point `0`` to `1`
    pub fn containing_segment(&self, point: Point3D) -> Option<usize> {
        let n = self.len();
        for i in 0..n {
            let ini = self[i];
            let fin = self[(i + 1) % n];
            let seg = Segment3D::new(ini, fin);
            if let Ok(true) = seg.contains_point(point) {
                return Some(i);
            }
        }
        None
    }

    /// Projects one [`Loop3D`] into the plane of another [`Loop3D`].
    ///
    /// This means translating all points of `self` to the plane of `other`.
    pub fn project_into_plane(&mut self, other: &Self) -> Result<(), String> {
        if self.is_empty() {
            return Err("when projecting Loop3D: self is empty".to_string());
        }
        if other.is_empty() {
            return Err("when projecting Loop3D: other is empty".to_string());
        }
        if !self.is_closed() {
            return Err("when projecting Loop3D: self is not closed".to_string());
        }
        if !other.is_closed() {
            return Err("when projecting Loop3D: other is not closed".to_string());
        }

        let anchor = other.vertices.first().ok_or("no vertices in anchor")?;
        let normal = other.normal();

        for p in self.vertices.iter_mut() {
            *p = p.project_into_plane(*anchor, normal);
        }
        if self.normal * normal > 0.0 {
            self.normal = normal;
        } else {
            self.normal = -normal;
        }
        Ok(())
    }

    /// Calculates the distance between two [`Loop3D`] in their
    /// normal direction.
    ///
    /// Returns an error if their normal is not the same.
    pub fn normal_distance(&self, other: &Self) -> Result<Float, String> {
        if self.is_empty() {
            return Err(
                "when calculating normal distance between Loop3D: self is empty".to_string(),
            );
        }
        if other.is_empty() {
            return Err(
                "when calculating normal distance between Loop3D: other is empty".to_string(),
            );
        }
        if !self.is_closed() {
            return Err(
                "when calculating normal distance between Loop3D: self is not closed".to_string(),
            );
        }
        if !other.is_closed() {
            return Err(
                "when calculating normal distance between Loop3D: other is not closed".to_string(),
            );
        }
        let normal = self.normal;

        if !normal.is_parallel(other.normal) {
            return Err(
                "trying to calculate the distance of two loops that do not share a normal"
                    .to_string(),
            );
        }
        let anchor = other.vertices.first().ok_or("no vertices in other")?;
        let p = self.vertices.first().ok_or("no vertices in self")?;
        let d = p.distance_to_plane(*anchor, normal);

        Ok(d)
    }

    /// Goes through all the the [`Point3D`]s in `self.vertices` and in `points`
    /// (this is a slow algorithm) and—when a point in `self` is "very close" to
    /// one in `points`—it modifies the formet to match the latter.
    ///
    /// The criteria for `very_close` is modulated by the `snap_distance` value.
    ///
    /// Returns `None` if no point was snapped; and `Some(i)` when `i` points were snapped.
    pub fn snap(&mut self, points: &[Point3D], snap_distance: Float) -> Option<usize> {
        let d2 = snap_distance.powi(2);
        let mut count = 0;

        for p in self.vertices.iter_mut() {
            for other_p in points {
                if p.squared_distance(*other_p) <= d2 {
                    *p = *other_p;
                    count += 1;
                }
            }
        }

        if count == 0 {
            None
        } else {
            Some(count)
        }
    }

    /// Intersects a [`Loop3D`] with a [`Segment3D`], returning
    /// a vector with all the [`Point3D`] where intersection
    /// happens, and a `usize` with the index of the edge that is intersected
    /// at that point
    pub fn intersect(&self, s: &Segment3D) -> Vec<(usize, Point3D)> {
        let mut ret = Vec::new();

        if s.length < 1e-3 {
            return ret;
        }

        let n = self.vertices.len();
        let mut inter = Point3D::default();

        let mut add_pt = |i: usize, the_pt: Point3D| {
            let mut already_in = false;
            for (_, p) in ret.iter() {
                if the_pt.compare(*p) {
                    already_in = true;
                    break;
                }
            }
            if !already_in {
                ret.push((i, the_pt))
            }
        };

        for i in 0..n {
            let current_segment = Segment3D::new(self.vertices[i], self.vertices[(i + 1) % n]);
            if current_segment.length < 1e-2 || s.length < 1e-2 {
                continue;
            }

            if current_segment.intersect(s, &mut inter) {
                add_pt(i, inter);
            }
        }

        ret
    }

    fn get_closest_intersection_pt(
        intersections: Vec<(usize, Point3D)>,
        last_pt: Point3D,
    ) -> Option<(usize, Point3D)> {
        let mut other_seg_i = 0;
        let mut inter_pt = None;
        let mut min_d = Float::MAX;
        for (j, this_inter_pt) in intersections.into_iter() {
            let this_d = this_inter_pt.squared_distance(last_pt);
            if this_d > 1e-9 && this_d < min_d {
                min_d = this_d;
                other_seg_i = j;
                inter_pt = Some(this_inter_pt);
            }
        }
        inter_pt.map(|inter_pt| (other_seg_i, inter_pt))
    }
    /// Bites a loop, changing its shape
    pub fn bite(&self, chewer: &Self) -> Result<Self, String> {
        if !self.closed {
            return Err("Trying to bite an open Polygon3D".into());
        }
        if !chewer.closed {
            return Err("Trying to bite a Polygon3D using an open Polygon3D".into());
        }

        debug_assert!((1.0 - self.normal.length()).abs() < 1e-5);
        debug_assert!((1.0 - chewer.normal.length()).abs() < 1e-5);
        if (self.normal * chewer.normal).abs() < 0.999 {
            return Err("Biting a Loop3D with a non-coplanar Loop3D".to_string());
        }
        if !self.is_coplanar(chewer[0])? {
            return Err("Biting a Loop3D with a non-coplanar Loop3D".to_string());
        }
        // We build the chewer... this has no vertices outside of self now
        let chewer = self.intersection(chewer)?;
        if chewer.is_none() {
            // no intersection... bitten Self is Self
            return Ok(self.clone());
        }
        let mut chewer = chewer.expect("We checked that is not None already");

        // They need to circle in different directions.
        if chewer.normal.is_same_direction(self.normal) {
            chewer.reverse();
        }

        // Find a pooint that is part of self but not other.
        let mut walking_through_self = true;
        let first_pt: Option<Point3D>;
        let mut index = 0;
        loop {
            let this_v = self[index];
            if !chewer.test_point(this_v)? {
                first_pt = Some(this_v);
                break;
            }

            index += 1;
            if index == self.len() {
                // no intersection... bitten Self is Self
                return Ok(self.clone());
            }
        }

        // start
        let mut l = Self::new();
        let first_pt = first_pt.expect("This should never be None");
        l.push(first_pt)?;
        index += 1;

        let mut limit = 0;
        loop {
            limit += 1;
            if limit > 99 {
                // no intersection assumed.
                return Ok(self.clone());
            }

            // Get point
            let candidate_pt = if walking_through_self {
                self[index % self.len()]
            } else {
                chewer[index % chewer.len()]
            };

            // Break if we have circled back
            if l.len() > 1 && candidate_pt.compare(first_pt) {
                break;
            }

            let (walking_n, non_walking_n) = if walking_through_self {
                (self.len(), chewer.len())
            } else {
                (chewer.len(), self.len())
            };

            let last_pt = l.vertices[l.len() - 1]; // we know len is at least 1
            if last_pt.compare(candidate_pt) {
                index = (index + 1) % walking_n;
                continue;
            }
            let delta = (candidate_pt - last_pt).get_normalized() * 0.001;

            let candidate_seg = Segment3D::new(last_pt, candidate_pt + delta);

            let intersections = if walking_through_self {
                chewer.intersect(&candidate_seg)
            } else {
                self.intersect(&candidate_seg)
            };

            if intersections.is_empty() {
                l.push(candidate_pt)?;
                index = (index + 1) % walking_n;
            } else if let Some((other_seg_i, inter_pt)) =
                Self::get_closest_intersection_pt(intersections, last_pt)
            {
                l.push(inter_pt)?;
                index = (other_seg_i + 1) % non_walking_n;
                walking_through_self = !walking_through_self;
            } else {
                l.push(candidate_pt)?;
            }
        }

        l.close()?;

        Ok(l)
    }

    /// Finds the intersection between two Polygon3D
    ///
    /// The normal of the output Loop3D will be the same as `self`
    pub fn intersection(&self, other: &Loop3D) -> Result<Option<Loop3D>, String> {
        if !self.closed || !other.closed {
            return Err("Trying to find the intersection between two Polygon3D... but at least one of them is not closed".into());
        }

        debug_assert!((1.0 - self.normal.length()).abs() < 1e-5);
        debug_assert!((1.0 - other.normal.length()).abs() < 1e-5);
        if (self.normal * other.normal).abs() < 0.999 {
            return Ok(None);
        }
        if !self.is_coplanar(other[0])? {
            return Ok(None);
        }

        let mut other = other.clone();
        // They need to circle in the same direction.
        if !other.normal.is_same_direction(self.normal) {
            other.reverse();
        }

        // Find a posint that is part of self and of other.
        let mut walking_through_self = true;
        let first_pt: Option<Point3D>;
        let mut index = 0;
        loop {
            if walking_through_self {
                if index == self.len() {
                    index = 0;
                    walking_through_self = !walking_through_self;
                    continue;
                }
                let this_v = self[index];
                if other.test_point(this_v)? {
                    first_pt = Some(self[index]);
                    break; // found it!
                }
            } else {
                if index == other.len() {
                    // There is no intersection between both polygons
                    return Ok(None);
                }
                let this_v = other[index];
                if self.test_point(this_v)? {
                    first_pt = Some(other[index]);
                    break; // found it!
                }
            }
            index += 1;
        }

        let mut l: Loop3D = Loop3D::new();
        let first_pt = first_pt.expect("This should never be None");
        // add first point
        l.push(first_pt)?;
        index += 1;

        let mut limit = 0;
        loop {
            limit += 1;

            if limit > 99 {
                return Ok(None);
            }

            let candidate_pt = if walking_through_self {
                self[index % self.len()]
            } else {
                other[index % other.len()]
            };

            // Break if we have circled back
            if l.len() > 2
                && (l.vertices[0].compare(candidate_pt)
                    || l.vertices[0].compare(l.vertices[l.len() - 1]))
            {
                break;
            }

            // this should always work, as we push a point before entering this loop.
            let last_pt = l.vertices[l.len() - 1];
            let candidate_seg = Segment3D::new(last_pt, candidate_pt);

            let (intersections, walking_n, non_walking_n) = if walking_through_self {
                (other.intersect(&candidate_seg), self.len(), other.len())
            } else {
                (self.intersect(&candidate_seg), other.len(), self.len())
            };

            // select next point
            if intersections.is_empty() {
                // l.push(candidate_pt)?;
                if self.test_point(candidate_pt)? && other.test_point(candidate_pt)? {
                    l.push(candidate_pt)?;
                } else {
                    // This has happened with some geometries
                    return Ok(None);
                }
                index = (index + 1) % walking_n;
            } else if let Some((other_seg_i, inter_pt)) =
                Self::get_closest_intersection_pt(intersections, last_pt)
            {
                l.push(inter_pt)?;
                walking_through_self = !walking_through_self;
                index = (other_seg_i + 1) % non_walking_n;
            } else if self.test_point(candidate_pt)? && other.test_point(candidate_pt)? {
                l.push(candidate_pt)?;
            } else {
                // This has happened with some geometries
                return Ok(None);
            }
        }

        let mut l = l.sanitize()?;
        if l.len() < 3 {
            Ok(None)
        } else {
            l.close()?;
            Ok(Some(l))
        }
    }

    /// Splits a [`Loop3D`] into two pieces according to a
    /// [`Segment3D`] that goes through it
    pub fn split(&self, seg: &Segment3D) -> Result<Vec<Self>, String> {
        const TINY: Float = 0.001;
        let mut seg = *seg;

        // Snap Segment to Loop, if they are very close.
        if !self.closed {
            return Err("trying to split an open Loop3D".to_string());
        }
        let normal = self.normal;
        let anchor = self.vertices[0];

        let d_start = seg.start.distance_to_plane(anchor, normal).abs();
        let d_end = seg.end.distance_to_plane(anchor, normal).abs();
        if d_start < TINY && d_end < TINY {
            seg.start = seg.start.project_into_plane(anchor, normal);
            seg.end = seg.end.project_into_plane(anchor, normal);
        }

        if self.contains_segment(&seg) || seg.length() < 1e-6 {
            return Ok(vec![self.clone()]);
        }

        let intersections = self.intersect(&seg);
        let mut the_indices: Vec<usize> = Vec::with_capacity(2);
        let mut the_points: Vec<Point3D> = Vec::with_capacity(2);
        for (index, pt) in intersections {
            if !the_indices.contains(&index) {
                the_indices.push(index);
                the_points.push(pt);
            }
        }

        if the_indices.is_empty() || the_indices.len() == 1 {
            // No intersections, or no cutting... just return original
            return Ok(vec![self.clone()]);
        }

        let mut branch_index = the_indices[0];
        let mut branch_pt = the_points[0];
        let mut merge_index = the_indices[1];
        let mut merge_pt = the_points[1];

        // they cannot be equal
        if branch_index == merge_index {
            return Ok(vec![self.clone()]);
        }

        // Same point? (e.g., corner), just return
        if branch_pt.compare(merge_pt) {
            return Ok(vec![self.clone()]);
        }

        // Ensure that we branch befor emerging
        if branch_index > merge_index {
            std::mem::swap(&mut branch_index, &mut merge_index);
            std::mem::swap(&mut branch_pt, &mut merge_pt);
        }

        let mut left = Loop3D::new();
        let mut right = Loop3D::new();

        let n = self.len();
        for i in 0..=n {
            let current_point = self.vertices[i % n];
            if i <= branch_index {
                left.push(current_point)?;
            } else if i == branch_index + 1 {
                left.push(branch_pt)?;
                right.push(branch_pt)?;
                right.push(current_point)?;
            } else if i < merge_index + 1 {
                right.push(current_point)?;
            } else if i == merge_index + 1 {
                right.push(merge_pt)?;
                left.push(merge_pt)?;
                left.push(current_point)?;
            } else {
                left.push(current_point)?;
            }
        }

        let mut ret = Vec::with_capacity(2);
        if left.len() > 2 {
            left.close()?;
            ret.push(left)
        }
        if right.len() > 2 {
            right.close()?;
            ret.push(right);
        }
        Ok(ret)
    }

    /// Recursively splits a [`Loop3D`] based on the [`Segment3D`] in `segments`
    ///
    /// This can be a slow algorithm.
    pub fn split_from_slice(&self, segments: &[Segment3D]) -> Result<Vec<Self>, String> {
        // initialize.
        let mut ret = vec![self.clone()];

        // cut each loop with the cutter.
        for cutter in segments.iter() {
            let mut new_ret = Vec::new();

            for the_loop in ret.iter() {
                let new_loops = the_loop.split(cutter)?;

                new_ret.extend_from_slice(&new_loops);
            }

            ret = new_ret;
        }

        Ok(ret)
    }

    /// Retrieves a vector with all the segments in this [`Loop3D`]
    pub fn segments(&self) -> Vec<Segment3D> {
        let n = self.len();
        let mut ret = Vec::with_capacity(n);

        for i in 0..n {
            let start = self.vertices[i];
            let end = self.vertices[(i + 1) % n];
            ret.push(Segment3D::new(start, end));
        }

        ret
    }
}

/***********/
/* TESTING */
/***********/

