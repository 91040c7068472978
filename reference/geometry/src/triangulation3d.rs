/*
MIT License

Copyright (c)  Germán Molina

Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:

The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use std::convert::TryInto;

use crate::Float;
/*
    This section was heavily influenced by
    the following source:

    Ruppert, J. (1995). A Delaunay refinement algorithm for quality 2-dimensional mesh generation. J. Algorithms, 18(3), 548-585.

*/

use crate::{Point3D, PointInTriangle, Polygon3D, Segment3D, Triangle3D};

#[derive(Clone, Copy, Eq, PartialEq, Debug)]
#[repr(u8)]
enum Edge {
    Ab,
    Bc,
    Ca,
}

impl Edge {
    fn from_i(i: usize) -> Self {
        match i {
            0 => Self::Ab,
            1 => Self::Bc,
            2 => Self::Ca,
            _ => {
                // return Err(format!("Index given for Edge is out of bound (given was {})", i))
                panic!("Index given for Edge is out of bound (given was {})", i)
            }
        }
    }

    fn as_i(&self) -> usize {
        match self {
            Self::Ab => 0,
            Self::Bc => 1,
            Self::Ca => 2,
        }
    }
}

impl std::ops::Add<usize> for Edge {
    type Output = Self;

    fn add(self, other: usize) -> Self {
        let i = (self.as_i() + other) % 3;
        Self::from_i(i)
    }
}

#[derive(Debug, Clone, Copy)]
struct TriPiece {
    triangle: Triangle3D,

    // Segments
    // s0: Segment3D,
    // s1: Segment3D,
    // s2: Segment3D,

    // Neighbours
    n0: Option<usize>,
    n1: Option<usize>,
    n2: Option<usize>,

    // Constraints
    c0: bool,
    c1: bool,
    c2: bool,

    // Other info about the triangle.

    // circumradius: Float,
    aspect_ratio: Float,
    circumcenter: Point3D,
    centroid: Point3D,

    valid: bool,

    // This will be
    // assigned when pushing it into a
    // triangulation.
    index: usize,
}

/// A set of [`Triangle3D`] that, together, cover completely
/// a [`Polygon3D`].
#[derive(Debug, Clone)]
pub struct Triangulation3D {
    /// The triangles
    triangles: Vec<TriPiece>,

    /// The number of valid triangles.
    ///
    /// Check whether triangles are valid or not
    /// before using them. Invalidating triangles help
    /// accelerate the algorithms in this module.
    n_valid_triangles: usize,
}

impl TriPiece {
    pub fn new(
        vertex_a: Point3D,
        vertex_b: Point3D,
        vertex_c: Point3D,
        i: usize,
    ) -> Result<Self, String> {
        // Build the triangle
        let triangle = Triangle3D::new(vertex_a, vertex_b, vertex_c)?;

        let t = Self {
            // s0: Segment3D::new(vertex_a, vertex_b),
            // s1: Segment3D::new(vertex_b, vertex_c),
            // s2: Segment3D::new(vertex_c, vertex_a),
            n0: None,
            n1: None,
            n2: None,

            c0: false,
            c1: false,
            c2: false,

            aspect_ratio: triangle.aspect_ratio(),
            // circumradius: triangle.circumradius(),
            circumcenter: triangle.circumcenter(),
            centroid: triangle.centroid(),

            index: i,
            valid: true,
            triangle,
        };

        Ok(t)
    }

    fn invalidate(&mut self) {
        self.valid = false
    }

    fn set_neighbour(&mut self, edge: Edge, i: usize) {
        match edge {
            Edge::Ab => self.n0 = Some(i),
            Edge::Bc => self.n1 = Some(i),
            Edge::Ca => self.n2 = Some(i),
        }
    }

    pub fn neighbour(&self, edge: Edge) -> Option<usize> {
        match edge {
            Edge::Ab => self.n0,
            Edge::Bc => self.n1,
            Edge::Ca => self.n2,
        }
    }

    pub fn constrain(&mut self, edge: Edge) {
        match edge {
            Edge::Ab => self.c0 = true,
            Edge::Bc => self.c1 = true,
            Edge::Ca => self.c2 = true,
        }
    }

    pub fn is_constrained(&self, edge: Edge) -> bool {
        match edge {
            Edge::Ab => self.c0,
            Edge::Bc => self.c1,
            Edge::Ca => self.c2,
        }
    }
}

impl Default for Triangulation3D {
    fn default() -> Self {
        Self::new()
    }
}

impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
    type Error = String;

    fn try_from(poly: &Polygon3D) -> Result<Self, Self::Error> {
        let mut the_loop = poly.get_closed_loop();
        the_loop.close()?;
        // This is a theorem, apparently.
        let mut t = Triangulation3D::with_capacity(the_loop.len() - 2);

        let mut anchor = 0;
        let mut count = 0;
        loop {
            count += 1;

            if count > 220 {
                return Err("Excessive number of iteration when triangulating polygon".into());
            }

            let last_added = t.n_triangles();

            let n = the_loop.len();
            if n == 2 {
                // return
                t.mark_neighbourhouds()?;
                return Ok(t);
            }

            let v0 = the_loop[anchor % n];
            let v1 = the_loop[(anchor + 1) % n];
            let v2 = the_loop[(anchor + 2) % n];

            let potential_diag = Segment3D::new(v0, v2);
            let is_line = v0.is_collinear(v1, v2)?;

            // this will be false if potential_diag is very small.
            let is_diagonal = the_loop.is_diagonal(potential_diag)?;
            if (n == 3) || (!is_line && is_diagonal) {
                // Add triangle
                t.push(v0, v1, v2, last_added)?;

                // Set contrain... there must be a smarter way of doing this
                let s01 = Segment3D::new(v0, v1);
                if poly.contains_segment(&s01) {
                    t.triangles[last_added].constrain(Edge::from_i(0));
                }
                let s12 = Segment3D::new(v1, v2);
                if poly.contains_segment(&s12) {
                    t.triangles[last_added].constrain(Edge::from_i(1));
                }
                let s20 = Segment3D::new(v2, v0);
                if poly.contains_segment(&s20) {
                    t.triangles[last_added].constrain(Edge::from_i(2));
                }

                //remove v1
                the_loop.remove((anchor + 1) % n);
            } else {
                anchor += 1;
            }
        }
    }
}

impl std::convert::TryFrom<Polygon3D> for Triangulation3D {
    type Error = String;

    fn try_from(poly: Polygon3D) -> Result<Self, Self::Error> {
        (&poly).try_into()
    }
}

impl Triangulation3D {
    /// Creates a new empty [`Triangulation3D`]
    pub fn new() -> Triangulation3D {
        Triangulation3D {
            n_valid_triangles: 0,
            triangles: Vec::new(),
        }
    }

    /// Creates  a new empty [`Triangulation3D`] with a certain capacity
    pub fn with_capacity(i: usize) -> Triangulation3D {
        Triangulation3D {
            n_valid_triangles: 0,
            triangles: Vec::with_capacity(i),
        }
    }

    /// Returns the number of triangles
    pub fn len(&self) -> usize {
        self.triangles.len()
    }

    /// Returns true if the triangulation has more than Zero triangles.
    pub fn is_empty(&self) -> bool {
        self.triangles.len() == 0
    }

    /// Transforms the `Triangulation3D` into a `Vec<Triangle3D>`.
    pub fn get_trilist(&self) -> Vec<Triangle3D> {
        self.triangles.iter().map(|t| t.triangle).collect()
    }

    /// Triangulates a [`Polygon3D`] using the simple ear
    /// clipping algorithm and then progresively refines the mesh in order to get
    /// a relatively healthy set of Delaunay triangles
    pub fn mesh_polygon(
        poly: &Polygon3D,
        max_area: Float,
        max_aspect_ratio: Float,
    ) -> Result<Triangulation3D, String> {
        let mut t: Triangulation3D = poly.try_into()?;
        t.refine(max_area, max_aspect_ratio)?;
        Ok(t)
    }

    /// Loops over all [`Triangle3D`], setting the neighbours. THis is
    /// quite slow, but does the job.
    fn mark_neighbourhouds(&mut self) -> Result<(), String> {
        let n = self.triangles.len();
        for this_i in 0..n {
            for other_i in this_i + 1..n {
                for edge_i in 0..3 {
                    let edge = self.triangles[this_i].triangle.segment(edge_i)?;

                    if self.triangles[other_i]
                        .triangle
                        .get_edge_index_from_segment(&edge)
                        .is_some()
                    {
                        self.mark_as_neighbours(this_i, Edge::from_i(edge_i), other_i)?;
                        break; // dont test other edges
                    }
                }
            }
        }
        Ok(())
    }

    /// Returns the number of [`Triangle3D`] in the [`Triangulation3D`]
    /// including invalid ones.
    pub fn n_triangles(&self) -> usize {
        self.triangles.len()
    }

    /// Returns the number of valid [`Triangle3D`] in the [`Triangulation3D`]     
    pub fn n_valid_triangles(&self) -> usize {
        self.n_valid_triangles
    }

    fn invalidate(&mut self, i: usize) -> Result<(), String> {
        let n = self.triangles.len();
        if i < n {
            self.triangles[i].invalidate();
            self.n_valid_triangles -= 1;
            return Ok(());
        }
        let msg = format!(
            "Trying to invalidate triangle {} in a triangulation that has only {} triangles",
            i, n
        );
        Err(msg)
    }

    fn get_first_invalid(&self, start: usize) -> Option<usize> {
        let n = self.triangles.len();
        if start < n {
            for i in start..n {
                if !self.triangles[i].valid {
                    return Some(i);
                }
            }
        }
        None
    }

    /// Marks two triangles as neighbours
    fn mark_as_neighbours(&mut self, i1: usize, edge_1: Edge, i2: usize) -> Result<(), String> {
        if i1 == i2 {
            let msg = format!("Trying to make a triangle its own neighbour (index {})", i1);
            return Err(msg);
        }

        // Check if this is valid
        if !self.triangles[i1].valid {
            return Err("Accessing invalid triangle within mark_as_neighbours()".to_string());
        }
        // Get segment...
        let seg1 = &self.triangles[i1].triangle.segment(edge_1.as_i())?;

        // Check neighbour
        if !self.triangles[i2].valid {
            return Err("Accessing invalid triangle within mark_as_neighbours()".to_string());
        }

        // Get edge segment from the other triangle...
        let edge_2 = match self.triangles[i2].triangle.get_edge_index_from_segment(seg1){
            Some(e)=>e,
            None => return Err(format!("The triangles that you are trying to mark as neighbours don't share a segment.\n Triangle 1 : {}\nTriangle 2: {}", self.triangles[i1].triangle, self.triangles[i2].triangle))
        };
        let edge_2 = Edge::from_i(edge_2);

        // We have already tested all the indexes.
        self.triangles[i1].set_neighbour(edge_1, i2);
        self.triangles[i2].set_neighbour(edge_2, i1);

        Ok(())
    }

    /// Creates a [`Triangle3D`] and pushes it into the [`Triangulation3D`]
    pub fn push(
        &mut self,
        vertex_a: Point3D,
        vertex_b: Point3D,
        vertex_c: Point3D,
        last_added: usize,
    ) -> Result<usize, String> {
        let extend: bool;
        let n = match self.get_first_invalid(last_added) {
            Some(i) => {
                extend = false;
                i
            }
            None => {
                extend = true;
                self.triangles.len()
            }
        };

        let result = TriPiece::new(vertex_a, vertex_b, vertex_c, n);
        match result {
            Ok(t) => {
                if extend {
                    self.triangles.push(t);
                } else {
                    self.triangles[n] = t;
                }
                self.n_valid_triangles += 1;
                Ok(n)
            }
            Err(e) => Err(e),
        }
    }

    /// Gets the vertex that is opposite to a [`Segment3D`] in a [`Triangle3D`]
    fn get_opposite_vertex(
        &self,
        triangle: &Triangle3D,
        segment: Segment3D,
    ) -> Result<Point3D, String> {
        match triangle.get_edge_index_from_segment(&segment) {
            Some(i) => match i {
                0 => Ok(triangle.vertex(2)?),
                1 => Ok(triangle.vertex(0)?),
                2 => Ok(triangle.vertex(1)?),
                _ => {
                    Err("Something really strange happened when get_opposite_vertex()".to_string())
                }
            },
            None => {
                let msg =
                    "Trying to get opposite verted in a triangle that does not have the given edge"
                        .to_string();
                Err(msg)
            }
        }
    }

    /// Returns the aspect ration that would result after flipping the diagonal of [`Triangle3D`]
    /// (located at `index`)
    fn get_flipped_aspect_ratio(&self, index: usize, edge: Edge) -> Result<Option<Float>, String> {
        // do not modify constraints
        let tripiece = &self.triangles[index];
        if !tripiece.valid {
            return Err("Found an invalid triangle when getting flipped aspect ratio".to_string());
        }

        if tripiece.is_constrained(edge) {
            return Ok(None);
        }

        // get neighbor
        let neighbour_i = match tripiece.neighbour(edge) {
            None => return Ok(None),
            Some(i) => i,
        };

        let neighbour = &self.triangles[neighbour_i];
        if !neighbour.valid {
            return Err("Found an invalid neighbour when getting flipped aspect ratio".to_string());
        }

        if neighbour.index == tripiece.index {
            return Err("Triangle is its own neighbor!".to_string());
        }

        // get vertices
        let vertex_a = tripiece.triangle.vertex(edge.as_i() % 3)?;
        let vertex_b = tripiece.triangle.vertex((edge.as_i() + 1) % 3)?;
        let vertex_c = tripiece.triangle.vertex((edge.as_i() + 2) % 3)?;

        // Get the oposite side
        let s = Segment3D::new(vertex_a, vertex_b);
        let opposite = self.get_opposite_vertex(&neighbour.triangle, s)?;

        if !is_convex(vertex_a, opposite, vertex_b, vertex_c) {
            return Ok(None);
        }

        // get the other situation
        let flipped1 = TriPiece::new(vertex_a, opposite, vertex_c, 0)?;
        let flipped2 = TriPiece::new(opposite, vertex_b, vertex_c, 0)?;

        let f1_aspect = flipped1.aspect_ratio;
        let f2_aspect = flipped2.aspect_ratio;

        // Return the maximum
        if f1_aspect > f2_aspect {
            Ok(Some(f1_aspect))
        } else {
            Ok(Some(f2_aspect))
        }
    }

    fn flip_diagonal(&mut self, index: usize, edge: Edge) -> Result<(), String> {
        // The transformation is as follows:
        //         C                C
        //        /\               /|\
        //     A /__\ B   -->   A / | \ B
        //       \  /             \ | /
        //        \/               \|/
        //         opposite          opposite
        //
        // The neighbours in AC, BC and so on need to be restored at the end.

        // Check if valid
        if !&self.triangles[index].valid {
            return Err("Trying to flip diagonal with an invalid triangle".to_string());
        }
        // get neighbour index... There needs to be one, or error
        let neighbour_index = match self.triangles[index].neighbour(edge) {
            None => return Err("Trying to flip diagonal of Triangle with no neighbour".to_string()),
            Some(i) => i,
        };

        // check if neighbour is valid
        if !self.triangles[neighbour_index].valid {
            return Err("Trying to flip diagonal with an invalid neighbour triangle".to_string());
        }

        // get vertices
        let vertex_a = self.triangles[index].triangle.vertex(edge.as_i() % 3)?;
        let vertex_b = self.triangles[index]
            .triangle
            .vertex((edge.as_i() + 1) % 3)?;
        let vertex_c = self.triangles[index]
            .triangle
            .vertex((edge.as_i() + 2) % 3)?;
        // ... including the oposite side
        let s = Segment3D::new(vertex_a, vertex_b);

        let opposite = self.get_opposite_vertex(&self.triangles[neighbour_index].triangle, s)?;

        /* CHECK SURROUNDINGS */
        // AC segment
        let ac_i = match &self.triangles[index]
            .triangle
            .get_edge_index_from_points(vertex_a, vertex_c)
        {
            Some(i) => *i,
            None => {
                return Err("Segment AC not found on triangle when flipping diagonals.".to_string())
            }
        };
        let ac_edge = Edge::from_i(ac_i);
        let neighbour_ac_index = self.triangles[index].neighbour(ac_edge);
        let constrain_ac = self.triangles[index].is_constrained(ac_edge);

        // BC segment
        let cb_i = match &self.triangles[index]
            .triangle
            .get_edge_index_from_points(vertex_c, vertex_b)
        {
            Some(i) => *i,
            None => {
                return Err("Segment CB not found on triangle when flipping diagonals.".to_string())
            }
        };
        let cb_edge = Edge::from_i(cb_i);
        let neighbour_bc_i = self.triangles[index].neighbour(cb_edge);
        let constrain_bc = self.triangles[index].is_constrained(cb_edge);

        // B-Opposite
        let bopp_i = match self.triangles[neighbour_index]
            .triangle
            .get_edge_index_from_points(vertex_b, opposite)
        {
            Some(i) => i,
            None => {
                return Err(
                    "Segment B-Opposite not found on triangle when flipping diagonals.".to_string(),
                )
            }
        };
        let bopp_edge = Edge::from_i(bopp_i);
        let neighbour_bopp_i = self.triangles[neighbour_index].neighbour(bopp_edge);
        let constrain_bopp = self.triangles[neighbour_index].is_constrained(bopp_edge);

        // A-Opposite
        let aopp_i = match self.triangles[neighbour_index]
            .triangle
            .get_edge_index_from_points(vertex_a, opposite)
        {
            Some(i) => i,
            None => {
                return Err(
                    "Segment A-Opposite not found on triangle when flipping diagonals.".to_string(),
                )
            }
        };
        let aopp_edge = Edge::from_i(aopp_i);
        let neighbour_aopp_i = self.triangles[neighbour_index].neighbour(aopp_edge);
        let constrain_aopp = self.triangles[neighbour_index].is_constrained(aopp_edge);

        /* THE ORIGINAL TRIANGLES, AND PUSH THE NEW ONES */
        self.invalidate(index)?;
        self.invalidate(neighbour_index)?;
        let aoc_i = self.push(vertex_a, opposite, vertex_c, index)?;
        let cob_i = self.push(vertex_c, opposite, vertex_b, neighbour_index)?;

        /* REORGANIZE NEIGHBOURHOOD */
        // Segment A-Opposite
        if let Some(ni) = neighbour_aopp_i {
            self.mark_as_neighbours(index, Edge::Ab, ni)?;
        }
        if constrain_aopp {
            self.triangles[aoc_i].constrain(Edge::Ab);
        }

        // Segment C-Opposite
        self.mark_as_neighbours(aoc_i, Edge::Bc, cob_i)?; // this one cannot be constrained

        // Segment AC
        if let Some(ni) = neighbour_ac_index {
            self.mark_as_neighbours(index, Edge::Ca, ni)?;
        }
        if constrain_ac {
            self.triangles[aoc_i].constrain(Edge::Ca);
        }

        // Segment C-Opposite
        // ... done by reciprocity; and cannot be constrained
        // self.mark_as_neighbours(cob_i, Edge::Ab, aoc_i);

        // Segment B-Opposite
        if let Some(ni) = neighbour_bopp_i {
            self.mark_as_neighbours(cob_i, Edge::Bc, ni)?;
        }
        if constrain_bopp {
            self.triangles[cob_i].constrain(Edge::Bc);
        }

        // Segment BC
        if let Some(ni) = neighbour_bc_i {
            self.mark_as_neighbours(cob_i, Edge::Ca, ni)?;
        }
        if constrain_bc {
            self.triangles[cob_i].constrain(Edge::Ca);
        }
        Ok(())
    }

    /// Adds a point to an edge of a [`Triangle3D`], splitting
    /// it and its neighbour
    fn split_edge(
        &mut self,
        triangle_index: usize,
        edge_to_split: Edge,
        p: Point3D,
    ) -> Result<(), String> {
        // We are doing the following:
        //              C                    C
        //             /\                   /|\
        //            /  \                 / | \
        //           /    \      -->      /  |  \
        //        A /______\ B         A /___|___\ B
        //          \      /             \   |p  /
        //           \    /               \  |  /
        //            \  /                 \ | /
        //             \/                   \|/
        //              opposite             opposite

        if !self.triangles[triangle_index].valid {
            let msg = "Trying to split edge of an invalid Triangle3D".to_string();
            return Err(msg);
        }

        let segment_to_split = self.triangles[triangle_index]
            .triangle
            .segment(edge_to_split.as_i())?;

        // Neighbour... this is not necessarily there
        let nei_i = self.triangles[triangle_index].neighbour(edge_to_split);

        // get points
        let mut process_hemisphere = |index: usize| -> Result<(usize, usize), String> {
            let ab_index = self.triangles[index]
                .triangle
                .get_edge_index_from_segment(&segment_to_split)
                .ok_or_else(|| "Could not get index from segment".to_string())?;
            let ab = self.triangles[index].triangle.segment(ab_index)?;
            let vertex_a = ab.start();
            let vertex_b = ab.end();

            let edge = self.triangles[index]
                .triangle
                .get_edge_index_from_segment(&ab)
                .ok_or_else(|| "Could not get index from segment".to_string())?;
            let edge = Edge::from_i(edge);

            // let s = self.triangles[index].segment(edge)?;

            // Get points
            let vertex_c = self.get_opposite_vertex(&self.triangles[index].triangle, ab)?;

            // invalidate base triangle.
            self.invalidate(index)?;

            // Get neighbours in AC and BC and Constrains
            let bc_n = self.triangles[index].neighbour(edge + 1);
            let ac_n = self.triangles[index].neighbour(edge + 2);

            let ab_c = self.triangles[index].is_constrained(edge);
            let bc_c = self.triangles[index].is_constrained(edge + 1);
            let ac_c = self.triangles[index].is_constrained(edge + 2);

            // Replace base triangle with two new triangles.
            // Create and add the new triangles.
            let apc_i = self.push(vertex_a, p, vertex_c, index)?; // replace the original with this one.
            let pbc_i = self.push(p, vertex_b, vertex_c, 0)?; // check from the start.

            // Set neighbours and constraints

            // APC TRIANGLE
            // -------------------

            // Segment 0: AP -> Don't know if there is any neighbour yet... will solve this
            // when adding the neighbour.
            // We do know, however, that it might be contrained
            if ab_c {
                self.triangles[apc_i].constrain(Edge::Ab);
            }

            // Segment 1: PC
            self.mark_as_neighbours(apc_i, Edge::Bc, pbc_i)?;

            // Segment 2: CA
            if let Some(ni) = ac_n {
                self.mark_as_neighbours(apc_i, Edge::Ca, ni)?;
            }
            if ac_c {
                self.triangles[apc_i].constrain(Edge::Ca);
            }

            // PBC Triangle
            // -------------------

            // Segment 0: PB -> Don't know if there is any neighbour yet... will solve this
            // when adding the neighbour.
            // We do know, however, that it might be contrained
            if ab_c {
                self.triangles[pbc_i].constrain(Edge::Ab);
            }

            // Segment 1: BC
            if let Some(ni) = bc_n {
                self.mark_as_neighbours(pbc_i, Edge::Bc, ni)?;
            }
            if bc_c {
                self.triangles[pbc_i].constrain(Edge::Bc);
            }

            // Segment 2: CP... matches the other triangle. Reciprocity

            // Return positions of new triangles.
            Ok((apc_i, pbc_i))
        }; // end of process_hemisphere

        // PROCESS BASE TRIANGLE
        // ==============================

        let (top_left_i, top_right_i) = process_hemisphere(triangle_index)?;

        // PROCESS NEIGHBOUR
        // =================

        // If there is any neighbour, process as well.
        if let Some(nei_i) = nei_i {
            let (bottom_right_i, bottom_left_i) = process_hemisphere(nei_i)?;

            // Mark the upper and lower hemispheres as neighbours.
            self.mark_as_neighbours(top_left_i, Edge::Ab, bottom_left_i)?;
            self.mark_as_neighbours(top_right_i, Edge::Ab, bottom_right_i)?;
        }

        Ok(())
    }

    /// Adds a point to the interior of a [`Triangle3D`], splitting
    /// it into three
    fn split_triangle(&mut self, i: usize, point: Point3D) -> Result<(), String> {
        // The transformation is as follows (puts P in the middle,
        // and splits the triangle into three triangles):
        //             A                A
        //             /\              /:\
        //            /  \            / : \
        //           /    \          /  x p\
        //          /      \        / .  .  \
        //       c /________\B   c /._______.\B
        //
        // The neighbours in AC, BC and AB need to be restored at the end.

        if !self.triangles[i].valid {
            let msg = format!("Trying to split an invalid triangle (index {})", i);
            return Err(msg);
        }

        // get vertices
        let vertex_a = self.triangles[i].triangle.a();
        let vertex_b = self.triangles[i].triangle.b();
        let vertex_c = self.triangles[i].triangle.c();

        // Get neighbours and constraints
        let edge = self.triangles[i]
            .triangle
            .get_edge_index_from_points(vertex_a, vertex_b)
            .ok_or_else(|| "Could not get index from segment".to_string())?;
        let edge = Edge::from_i(edge);
        let neighbour_ab_i = self.triangles[i].neighbour(edge);
        let constrain_ab = self.triangles[i].is_constrained(edge);

        let edge = self.triangles[i]
            .triangle
            .get_edge_index_from_points(vertex_b, vertex_c)
            .ok_or_else(|| "Could not get index from segment".to_string())?;

        let edge = Edge::from_i(edge);
        let neighbour_bc_i = self.triangles[i].neighbour(edge);
        let constrain_bc = self.triangles[i].is_constrained(edge);

        let edge = self.triangles[i]
            .triangle
            .get_edge_index_from_points(vertex_c, vertex_a)
            .ok_or_else(|| "Could not get index from segment".to_string())?;

        let edge = Edge::from_i(edge);
        let neighbour_ca_i = self.triangles[i].neighbour(edge);
        let constrain_ca = self.triangles[i].is_constrained(edge);

        // Invalidate this triangle.
        self.invalidate(i)?;

        // Add new triangles, noting their indices
        // Indices of the new triangles
        let cap_i = self.push(vertex_c, vertex_a, point, 0)?;
        let abp_i = self.push(vertex_a, vertex_b, point, 0)?;
        let bcp_i = self.push(vertex_b, vertex_c, point, 0)?;

        // Connect them to each other
        self.mark_as_neighbours(cap_i, Edge::Bc, abp_i)?;
        self.mark_as_neighbours(abp_i, Edge::Bc, bcp_i)?;
        self.mark_as_neighbours(bcp_i, Edge::Bc, cap_i)?;

        // Connect to outside
        if constrain_ca {
            self.triangles[cap_i].constrain(Edge::Ab);
        }
        if let Some(ni) = neighbour_ca_i {
            self.mark_as_neighbours(cap_i, Edge::Ab, ni)?;
        }

        if constrain_ab {
            self.triangles[abp_i].constrain(Edge::Ab);
        }
        if let Some(ni) = neighbour_ab_i {
            self.mark_as_neighbours(abp_i, Edge::Ab, ni)?;
        }

        if constrain_bc {
            self.triangles[bcp_i].constrain(Edge::Ab);
        }
        if let Some(ni) = neighbour_bc_i {
            self.mark_as_neighbours(bcp_i, Edge::Ab, ni)?;
        }

        // return
        Ok(())
    }

    /// Runs through the [`Triangulation3D`] checking if it is worth
    /// flipping diagonals. I.e., if flipping the diagonal would make
    /// the aspect ratios become better
    fn restore_delaunay(&mut self, max_aspect_ratio: Float) -> Result<(), String> {
        // Flipping diagonals does not change the number of triangles.
        let n = self.triangles.len();

        let mut any_changes = true;
        const MAX_LOOPS: usize = 30;
        let mut n_loops: usize = 0;

        while any_changes && n_loops < MAX_LOOPS {
            // Count this loop
            n_loops += 1;

            // Reset changes.
            any_changes = false;

            // Loop
            for i in 0..n {
                // Skip invalids
                if !self.triangles[i].valid {
                    continue;
                }

                // get the current aspect ratio
                let current_ar = self.triangles[i].aspect_ratio;

                // If it is acceptable, skip.
                if current_ar < max_aspect_ratio {
                    continue;
                }

                // Otherwise, check if it is worth flipping the diagonal
                let mut best_edge: Option<Edge> = None;
                let mut best_aspect_ratio = Float::MAX;

                // Search in three directions (i.e. three edges)
                for j in 0..3 {
                    let this_edge = Edge::from_i(j);
                    // calculate possible aspect ratio...
                    if let Some(ar) = self.get_flipped_aspect_ratio(i, this_edge)? {
                        if current_ar > ar && best_aspect_ratio > ar {
                            best_edge = Some(this_edge);
                            best_aspect_ratio = ar;
                        }
                    }
                }

                // Flip if best neighbour actually exists and it is better than
                // the current situation (i.e. >= 0)
                if let Some(best) = best_edge {
                    // if at least one of them is better than the current
                    self.flip_diagonal(i, best)?;
                    any_changes = true;
                } // else... do nothing
            }
        } // End of while any_changes

        Ok(())
    } // end of fn restore_delaunay

    /// Adds a point on a specific [`Triangle3D`]. Returns a `bool`, indicating
    /// whether any change was carried out
    fn add_point_to_triangle(
        &mut self,
        index: usize,
        point: Point3D,
        p_location: PointInTriangle,
    ) -> Result<bool, String> {
        if !self.triangles[index].valid {
            return Err("Trying to add point into an obsolete triangle".to_string());
        }

        if p_location.is_vertex() {
            // Point is a vertex... ignore, but pretend we did something
            Ok(false)
        } else if p_location.is_edge() {
            let edge = match p_location {
                PointInTriangle::EdgeAB => Edge::Ab,
                PointInTriangle::EdgeBC => Edge::Bc,
                PointInTriangle::EdgeAC => Edge::Ca,
                _ => {
                    return Err(
                        "Trying to split edge with a point that does not fall on an edge"
                            .to_string(),
                    )
                }
            };
            self.split_edge(index, edge, point)?;
            Ok(true)
        } else if p_location == PointInTriangle::Inside {
            self.split_triangle(index, point)?;
            Ok(true)
        } else {
            unreachable!();
        }
    }

    /// Finds the location of a [`Point3D`] within the triangulation
    /// and inserts it. Returns a `bool` indicating if the addition of the new [`Point3D`]
    /// produced any change
    pub fn add_point(&mut self, point: Point3D) -> Result<bool, String> {
        // Iterate through triangles to check

        for (i, tripiece) in self.triangles.iter().enumerate() {
            // skip triangle if it has been deleted
            if !tripiece.valid {
                continue;
            }

            let p_location = tripiece.triangle.test_point(point);
            if p_location != PointInTriangle::Outside {
                return self.add_point_to_triangle(i, point, p_location);
            }
        }

        Err(
            "No Triangle3D in Triangulation3D contained the point that you wanted to add."
                .to_string(),
        )
    }

    /// Refines a [`Triangulation3D`]. This only works if all then [`Triangle3D`] have their
    /// vertices in the same order, meaning that their `normal` points in the same direction.
    fn refine(&mut self, max_area: Float, max_aspect_ratio: Float) -> Result<(), String> {
        // let n_triangles = self.n_triangles();

        let mut any_changes = false;
        for i in 0..self.n_triangles() {
            if !self.triangles[i].valid {
                // I think validity of triangles is obsolete and we
                // should remove it
                unreachable!();
            }

            let area = self.triangles[i].triangle.area();

            // if area is already too small, just ignore
            if area < 1e-3 {
                continue;
            }

            // If it is an issue of aspect ratio
            if self.triangles[i].aspect_ratio > max_aspect_ratio {
                // find the longest edge... assume it is the first one
                let mut s = self.triangles[i].triangle.ab();
                let mut s_i = 0;
                // but check the other two.
                for j in 1..3 {
                    if s.length() < self.triangles[i].triangle.segment(j)?.length() {
                        s_i = j;
                        s = self.triangles[i].triangle.segment(j)?;
                    }
                }
                let edge_to_split = Edge::from_i(s_i);

                // add midpoint
                let mid_s = s.midpoint();
                self.split_edge(i, edge_to_split, mid_s)?;
                self.restore_delaunay(max_aspect_ratio)?;
                any_changes = true;
            } else if area > max_area {
                // try to add the circumcenter
                let c_center = self.triangles[i].circumcenter;

                // Since the circumcenter may be in another triangle, we need
                // to search for it.
                match self.add_point(c_center) {
                    Ok(did_something) => {
                        if did_something {
                            any_changes = true;
                            self.restore_delaunay(max_aspect_ratio)?;
                        }
                    }
                    Err(_) => {
                        // What should I do if the circumcenter is out of the polygon?
                        // For now just add the centroid of it...
                        let centroid = self.triangles[i].centroid;

                        // The Centroid of a triangle is always inside of it... right?
                        if self.add_point_to_triangle(i, centroid, PointInTriangle::Inside)? {
                            any_changes = true;
                            self.restore_delaunay(max_aspect_ratio)?;
                        }
                    }
                }
            }
        }
        if any_changes {
            self.refine(max_area, max_aspect_ratio)
        } else {
            Ok(())
        }
    }
} // end of impl Triangulation3D

pub fn is_convex(a: Point3D, b: Point3D, c: Point3D, d: Point3D) -> bool {
    // The points are aligned like this, if it is convex.
    //         B
    //        /\
    //     A /  \ C
    //       \  /
    //        \/
    //         D

    // 1st... ABC
    let ab = b - a;
    let bc = c - b;
    let n_abc = ab.cross(bc);

    if n_abc.is_zero() {
        // Points are collinear
        return false;
    }

    // 2nd... BCD
    let cd = d - c;
    let n_bcd = bc.cross(cd);
    if n_bcd.is_zero() {
        return false;
    }
    if !n_abc.is_same_direction(n_bcd) {
        return false;
    }

    // 3rd... CDA
    let da = a - d;
    let n_cda = cd.cross(da);
    if n_cda.is_zero() {
        return false;
    }
    if !n_abc.is_same_direction(n_cda) {
        return false;
    }

    // 4th... DAB
    let n_dab = da.cross(ab);
    if n_dab.is_zero() {
        return false;
    }
    if !n_abc.is_same_direction(n_dab) {
        return false;
    }

    // Passed all the checks
    true
}

/***********/
/* TESTING */
/***********/

