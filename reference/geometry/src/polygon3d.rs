/*
MIT License

Copyright (c)  Germán Molina

Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:

The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use serde::{Deserialize, Deserializer, Serialize};

use crate::Float;
use crate::{Loop3D, Point3D, Segment3D, Vector3D};

/// A 3-dimensional Polygon which can contain holes.
///
/// It is a structure containing several [`Loop3D`]. One of them is
/// the `outer` [`Loop3D`], and there there can be several `inner` [`Loop3D`].
#[derive(Debug, Clone)]
pub struct Polygon3D {
    /// The outer [`Loop3D`]
    outer: Loop3D,

    /// A vector of inner [`Loop3D`]
    inner: Vec<Loop3D>,

    /// The area of the `Polygon3D`    
    area: Float,

    /// The normal of the `Polygon3D`, following a right-hand convention
    normal: Vector3D,
}

impl std::convert::From<Loop3D> for Polygon3D {
    fn from(outer: Loop3D) -> Self {
        let area = outer
            .area()
            .expect("Trying to convert a non-closed Loop3D into a Polygon3D");
        let normal = outer.normal();

        Self {
            outer,
            inner: Vec::with_capacity(0),
            area,
            normal,
        }
    }
}

impl std::fmt::Display for Polygon3D {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let l = self.get_closed_loop();
        write!(f, "{}", l)
    }
}

impl<'de> Deserialize<'de> for Polygon3D {
    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
    where
        D: Deserializer<'de>,
    {
        let data: Loop3D = Deserialize::deserialize(deserializer)?;

        Ok(data.into())
    }
}

impl Serialize for Polygon3D {
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: serde::Serializer,
    {
        let l = self.get_closed_loop();
        l.serialize(serializer)
    }
}

impl Polygon3D {
    /// Creates a new [`Loop3D`] without any holes
    pub fn new(outer: Loop3D) -> Result<Polygon3D, String> {
        if !outer.is_closed() {
            return Err("Trying to create a Polygon3D from a loop that is not closed".to_string());
        }

        let area = outer.area()?;
        let normal = outer.normal();

        Ok(Polygon3D {
            outer,
            area,
            normal,
            inner: Vec::new(),
        })
    }

    /// Reverses the order of all the [`Loop3D`] in the [`Polygon3D`], and also
    /// the normal [`Vector3D`]
    ///
    ///
    pub fn reverse(&mut self) {
        self.outer.reverse();
        for i in self.inner.iter_mut() {
            i.reverse()
        }
        self.normal = self.outer.normal();
    }

    /// Returns a clone of this [`Polygon3D`], reversed.
    pub fn get_reversed(&self) -> Self {
        let mut ret = self.clone();
        ret.reverse();
        ret
    }

    /// Retrieves the normal to the Polygon
    pub fn normal(&self) -> Vector3D {
        self.normal
    }

    /// Calculates the average of the [`Point3D`] in the Outer [`Loop3D`]
    pub fn outer_centroid(&self) -> Point3D {
        let mut centroid = Point3D::new(0., 0., 0.);
        let outer = self.outer();
        for v in outer.vertices() {
            centroid += *v;
        }
        centroid / (outer.len() as Float)
    }

    /// Borrows the Outer [`Loop3D`]
    pub fn outer(&self) -> &Loop3D {
        &self.outer
    }

    /// Borrows a mutable reference to the Outer [`Loop3D`]
    pub fn mut_outer(&mut self) -> &mut Loop3D {
        &mut self.outer
    }

    /// Clones the Outer [`Loop3D`]
    pub fn clone_outer(&self) -> Loop3D {
        self.outer.clone()
    }

    /// Counts the inner [`Loop3D`]
    pub fn n_inner_loops(&self) -> usize {
        self.inner.len()
    }

    /// Borrows an inner [`Loop3D`]
    pub fn inner(&self, i: usize) -> Result<&Loop3D, String> {
        if i < self.inner.len() {
            return Ok(&self.inner[i]);
        }
        let msg = "Index out of bounds when trying to retrieve inner loop".to_string();
        Err(msg)
    }

    /// Borrows a mutable reference to an inner [`Loop3D`]
    pub fn mut_inner(&mut self, i: usize) -> Result<&mut Loop3D, String> {
        if i < self.inner.len() {
            return Ok(&mut self.inner[i]);
        }
        let msg = "Index out of bounds when trying to retrieve inner loop".to_string();
        Err(msg)
    }

    /// Checks whether a [`Point3D`] is inside the [`Polygon3D`]
    pub fn test_point(&self, p: Point3D) -> Result<bool, String> {
        // Must be within the outer loop
        if !self.outer.test_point(p)? {
            return Ok(false);
        }

        // And outside all inner loops.
        for i in 0..self.inner.len() {
            let lp = &self.inner[i];

            let result = lp.test_point(p);

            let is_in = match result {
                Ok(b) => b,
                Err(e) => return Err(e),
            };
            // if it is in one of the inner loops, then it is outside
            // the shape.
            if is_in {
                return Ok(false);
            }
        }
        // If it was not in any of the inner loops, then it is in.
        Ok(true)
    }

    /// Makes a hole shaped as a [`Loop3D`] in the [`Polygon3D`].
    pub fn cut_hole(&mut self, hole: Loop3D) -> Result<(), String> {
        // Check that the normals are the same

        if !self.normal.is_parallel(hole.normal()) {
            let msg = "The hole you are trying to cut and the Polygon3D that should receive it do not have parallel normals".to_string();
            return Err(msg);
        }

        // Check that all the points are inside the polygon.point3d
        for p in hole.vertices() {
            if !self.test_point(*p)? {
                let msg = "At least one of the points in your hole are not inside the polygon"
                    .to_string();
                return Err(msg);
            }
        }

        // Check that this hole does not contain another hole in it.
        let n_inner = self.inner.len();
        for n_loop in 0..n_inner {
            let inner = &self.inner[n_loop];

            for inner_p in inner.vertices() {
                // Check point in the hole we are making
                if hole.test_point(*inner_p)? {
                    let msg = "Apparently another hole in your Polygon3D would be inside the new hole you are making".to_string();
                    return Err(msg);
                }
            }
        }

        // All good now! Add it.
        let hole_area = hole.area()?;

        // reduce area
        self.area -= hole_area;

        // Add it to the inner
        self.inner.push(hole);

        Ok(())
    }

    /// Gets the area of the [`Polygon3D`]
    pub fn area(&self) -> Float {
        self.area
    }

    /// Gets a single [`Loop3D`] representing the same [`Polygon3D`]
    /// geometry, but without any holes
    ///
    /// This is a pretty terible algorithm... but I doubt
    /// it is the bottleneck in my applications.
    ///
    /// It is also not 100% guaranteed to work all the time, but
    /// it has proven to be pretty robust for relatively normal
    /// geometries.
    pub fn get_closed_loop(&self) -> Loop3D {
        //get the number of interior loops
        let n_inner_loops = self.inner.len();

        //initialize the loop by cloning the current outer loop
        let mut ret_loop = self.outer.clone();
        ret_loop.open();

        // We will use this for checking whether the inner
        // loop should be reversed or not.
        let outer_normal = self.outer.normal();

        let mut processed_inner_loops: Vec<usize> = Vec::new();

        let mut inner_loop_id = 0;
        let mut inner_vertex_id = 0;

        // This is done once per inner loop
        for _i in 0..n_inner_loops {
            // find the minimum distance
            // from interior to exterior
            let mut min_distance = Float::MAX;
            let mut min_inner_loop_id = 0;
            let mut min_ext_vertex_id = 0;
            //let mut min_int_vertex_id = 0;

            let n_ext_vertices = ret_loop.len();
            for j in 0..n_ext_vertices {
                let ext_vertex = ret_loop[j];

                for k in 0..n_inner_loops {
                    // continue if already processed
                    if processed_inner_loops.contains(&k) {
                        continue;
                    }

                    let inner_loop = &self.inner[k];
                    let n_inner_vertices = inner_loop.len();
                    for l in 0..n_inner_vertices {
                        let inner_vertex = inner_loop[l];

                        // we work with squared distances... the result is
                        // the same but the calculation is faster.
                        let distance = ext_vertex.squared_distance(inner_vertex);

                        if distance < min_distance {
                            min_distance = distance;
                            min_ext_vertex_id = j;
                            //min_int_vertex_id = l;
                            min_inner_loop_id = k;
                            inner_loop_id = k;
                            inner_vertex_id = l;
                        }
                    } //end iterating inner vertices
                } // end iterating inner loops
            } // end iterating exterior vertices

            // Now, pass the inner loop to the exterior loop
            // by connecting them
            let mut aux = Loop3D::new();

            for i in 0..n_ext_vertices {
                // Sequentially add all exterior vertices.
                let ext_vertex = ret_loop[i];

                // Add
                aux.push_collinear(ext_vertex, false).unwrap();

                // If we are in the vertex through which we want
                // to connect the interior loop, then go inside.
                if i == min_ext_vertex_id {
                    // add the interior loop... adding the first
                    // point twice (hence the +1)
                    let n_inner_loop_vertices = self.inner[min_inner_loop_id].len();
                    let inner_normal = self.inner[min_inner_loop_id].normal();

                    for j in 0..n_inner_loop_vertices + 1 {
                        let vertex_to_add = if outer_normal.is_same_direction(inner_normal) {
                            // If both in the same direction, then we need to
                            // add the interior in reverse.
                            (inner_vertex_id + n_inner_loop_vertices - j) % n_inner_loop_vertices
                        } else {
                            (inner_vertex_id as i32 + j as i32) as usize % n_inner_loop_vertices
                        };

                        let inner_vertex = self.inner[min_inner_loop_id][vertex_to_add];

                        let x = inner_vertex.x;
                        let y = inner_vertex.y;
                        let z = inner_vertex.z;

                        aux.push_collinear(Point3D::new(x, y, z), false).unwrap();
                    }

                    //return to exterior ret_loop
                    aux.push_collinear(ext_vertex, false).unwrap();
                }
            }

            ret_loop = aux;

            // flag ret_loop as processed (instead of deleting it)
            processed_inner_loops.push(inner_loop_id);
        } // end iterating inner loops
        ret_loop
    } // end of get_closed_polygon

    /// Checks whether the [`Polygon3D`] contains a certain [`Segment3D`]
    /// in any of its loops
    pub fn contains_segment(&self, s: &Segment3D) -> bool {
        if self.outer.contains_segment(s) {
            return true;
        }
        for inner in self.inner.iter() {
            if inner.contains_segment(s) {
                return true;
            }
        }
        false
    }

    /// Projects into the plane of a [`Loop3D`].
    ///
    /// This means translating all points of `self` to the plane of `other`.
    pub fn project_into_plane(&mut self, other: &Loop3D) -> Result<(), String> {
        self.outer.project_into_plane(other)?;

        for l in self.inner.iter_mut() {
            l.project_into_plane(other)?;
        }

        Ok(())
    }

    /// Goes through all the the [`Point3D`]s in `self.outer` and `self.inner` and in `points`
    /// (this is a slow algorithm) and—when a point in `self` is "very close" to
    /// one in `points`—it modifies the formet to match the latter.
    ///
    /// The criteria for `very_close` is modulated by the `snap_distance` value.
    ///
    /// Returns `None` if no point was snapped; and `Some(i)` when `i` points were snapped.
    pub fn snap(&mut self, points: &[Point3D], snap_distance: Float) -> Option<usize> {
        let mut count = 0;

        if let Some(c) = self.outer.snap(points, snap_distance) {
            count += c;
        }

        for l in self.inner.iter_mut() {
            if let Some(c) = l.snap(points, snap_distance) {
                count += c;
            }
        }

        if count == 0 {
            None
        } else {
            Some(count)
        }
    }
}

/***********/
/* TESTING */
/***********/

