use crate::{Float, Scene};
use geometry::{
    intersection::{IntersectionInfo, SurfaceSide},
    BBox3D, Point3D, Ray3D, Sphere3D, Triangle3D, Vector3D,
};

pub mod fallback;
pub use fallback::baricentric_coordinates;

pub(crate) const LEAF_SIZE: usize = 24;

/// The smallest definition of a Triangle I could think of
pub type Triangle = [Float; 9];

#[macro_export]
macro_rules! ax {
    ( $n : expr ) => {{
        $n[0]
    }};
}
#[macro_export]
macro_rules! ay {
    ( $n : expr ) => {{
        $n[1]
    }};
}
#[macro_export]
macro_rules! az {
    ( $n : expr ) => {{
        $n[2]
    }};
}
#[macro_export]
macro_rules! bx {
    ( $n : expr ) => {{
        $n[3]
    }};
}
#[macro_export]
macro_rules! by {
    ( $n : expr ) => {{
        $n[4]
    }};
}
#[macro_export]
macro_rules! bz {
    ( $n : expr ) => {{
        $n[5]
    }};
}
#[macro_export]
macro_rules! cx {
    ( $n : expr ) => {{
        $n[6]
    }};
}
#[macro_export]
macro_rules! cy {
    ( $n : expr ) => {{
        $n[7]
    }};
}
#[macro_export]
macro_rules! cz {
    ( $n : expr ) => {{
        $n[8]
    }};
}

pub fn triangle_area(t: &Triangle) -> Float {
    let ab =
        ((bx![t] - ax![t]).powi(2) + (by![t] - ay![t]).powi(2) + (bz![t] - az![t]).powi(2)).sqrt();
    let bc =
        ((cx![t] - bx![t]).powi(2) + (cy![t] - by![t]).powi(2) + (cz![t] - bz![t]).powi(2)).sqrt();
    let ca =
        ((ax![t] - cx![t]).powi(2) + (ay![t] - cy![t]).powi(2) + (az![t] - cz![t]).powi(2)).sqrt();

    ((ca + bc + ab)
        * ((ca + bc + ab) / 2. - ab)
        * ((ca + bc + ab) / 2. - bc)
        * ((ca + bc + ab) / 2. - ca)
        / 2.)
        .sqrt()
}

pub fn triangle_solid_angle_pdf(
    t: &Triangle,
    point: Point3D,
    normal: Vector3D,
    ray: &Ray3D,
) -> Float {
    let d2 = (point - ray.origin).length_squared();
    let cos_theta = (ray.direction * normal).abs();
    // debug_assert!(cos_theta > 0.);
    if cos_theta < 1e-7 {
        return 0.0;
    }
    let area = triangle_area(t);
    // return
    d2 / cos_theta / area
}

/// Gets the BBox of a Triangle
pub fn world_bounds(t: &Triangle) -> BBox3D {
    let a = Point3D::new(t[0], t[1], t[2]);
    let bbox = BBox3D::from_point(a);

    let b = Point3D::new(t[3], t[4], t[5]);
    let bbox = BBox3D::from_union_point(&bbox, b);

    let c = Point3D::new(t[6], t[7], t[8]);
    BBox3D::from_union_point(&bbox, c)
}

/// Intersects a `Ray3D` and a [`Triangle`], returning the [`IntersectionInfo`]
/// (or `None` if they don't intersect)
pub fn intersect_triangle_slice(
    scene: &Scene,
    ray: geometry::Ray3D,
    ini: usize,
    fin: usize,
) -> Option<(usize, IntersectionInfo)> {
    fallback::intersect_triangle_slice(scene, ray, ini, fin)
}

pub fn simple_intersect_triangle_slice(
    scene: &Scene,
    ray: geometry::Ray3D,
    ini: usize,
    fin: usize,
) -> Option<(usize, Point3D)> {
    fallback::simple_intersect_triangle_slice(scene, ray, ini, fin)
}

/// Intersects a `Ray3D` and a [`Triangle`], returning the `Point3D` of
/// intersection
pub fn simple_triangle_intersect(
    scene: &Scene,
    ray: geometry::Ray3D,
    ini: usize,
    fin: usize,
) -> Option<(usize, geometry::Point3D)> {
    fallback::simple_intersect_triangle_slice(scene, ray, ini, fin)
}

#[allow(clippy::too_many_arguments)]
pub fn new_info(
    t: &Triangle,
    point: Point3D,
    _u: Float,
    _v: Float,
    ray_dir: Vector3D,
) -> IntersectionInfo {
    let dpdu = Vector3D::new(bx![t] - ax![t], by![t] - ay![t], bz![t] - az![t]);
    let dpdv = Vector3D::new(cx![t] - ax![t], cy![t] - ay![t], cz![t] - az![t]);
    // eprintln!("dpdu = {} | dpdv = {}", dpdu, dpdv);
    let normal = dpdu.cross(dpdv).get_normalized();
    // eprintln!("normal = {}", normal);
    let (normal, side) = SurfaceSide::get_side(normal, ray_dir);
    let mut e1 = dpdu.get_normalized();
    let mut e2 = normal.cross(e1).get_normalized();
    if let SurfaceSide::Back = side {
        std::mem::swap(&mut e1, &mut e2)
    }

    debug_assert!((1.0 - normal.length()).abs() < 1e-5);
    debug_assert!((1.0 - e1.length()).abs() < 1e-5);
    debug_assert!((1.0 - e2.length()).abs() < 1e-5);
    IntersectionInfo {
        normal,
        dpdu: e1,
        dpdv: e2,
        p: point,
        side,
        #[cfg(feature = "textures")]
        u: _u,
        #[cfg(feature = "textures")]
        v: _v,
        #[cfg(feature = "textures")]
        dndu: Vector3D::new(0., 0., 0.),
        #[cfg(feature = "textures")]
        dndv: Vector3D::new(0., 0., 0.),
    }
}

/// Transforms a `Triangle3D` and transforms it into a `Vec<Triangle>` and their
/// respective normals
pub fn mesh_triangle(tr: &Triangle3D) -> (Vec<Triangle>, Vec<(Vector3D, Vector3D, Vector3D)>) {
    // Become a single triangle... dah!
    let s1 = tr.b() - tr.a();
    let s2 = tr.c() - tr.a();

    // All vertices have the same normal
    let normal = s1.cross(s2).get_normalized();
    let normals = vec![(normal, normal, normal)];

    // Push triangle
    let triangles = vec![[
        tr.a().x,
        tr.a().y,
        tr.a().z,
        tr.b().x,
        tr.b().y,
        tr.b().z,
        tr.c().x,
        tr.c().y,
        tr.c().z,
    ]];
    (triangles, normals)
}

pub fn mesh_sphere(s: &Sphere3D) -> (Vec<Triangle>, Vec<(Vector3D, Vector3D, Vector3D)>) {
    const N_REFINEMENTS: u32 = 5;

    let r = s.radius;
    let c = s.centre();
    // check if partial
    let bounds = s.bounds();
    let zmin = bounds.min.z;
    let zmax = bounds.max.z;
    if zmin > -r || zmax < r {
        eprintln!(
            "Warning: Partial Sphere Meshing is not supported yet... adding it as a full sphere."
        )
    }

    // Initialize: set basic coordinates
    let midtop = r * (60. as Float).to_radians().cos();
    let midr = r * (60. as Float).to_radians().sin();
    let midbottom = -midtop;
    // Points
    let top = Point3D::new(0., 0., r) + c;
    let bottom = Point3D::new(0., 0., -r) + c;
    let midtop: Vec<Point3D> = [36., 3. * 36., 5. * 36., 7. * 36., 9. * 36.]
        .iter()
        .map(|angle: &Float| {
            Point3D::new(
                midr * angle.to_radians().sin(),
                midr * angle.to_radians().cos(),
                midtop,
            ) + c
        })
        .collect();
    let midbottom: Vec<Point3D> = [0., 72., 2. * 72., 3. * 72., 4. * 72.]
        .iter()
        .map(|angle: &Float| {
            Point3D::new(
                midr * angle.to_radians().sin(),
                midr * angle.to_radians().cos(),
                midbottom,
            ) + c
        })
        .collect();

    let mut triangles: Vec<(Point3D, Point3D, Point3D)> =
        Vec::with_capacity((4_usize).pow(N_REFINEMENTS) * 20);

    // In reverse (to respect the triangle's normal direction)
    triangles.push((midtop[0], midtop[4], top));
    triangles.push((midtop[4], midtop[3], top));
    triangles.push((midtop[3], midtop[2], top));
    triangles.push((midtop[2], midtop[1], top));
    triangles.push((midtop[1], midtop[0], top));

    triangles.push((midbottom[0], midbottom[1], bottom));
    triangles.push((midbottom[1], midbottom[2], bottom));
    triangles.push((midbottom[2], midbottom[3], bottom));
    triangles.push((midbottom[3], midbottom[4], bottom));
    triangles.push((midbottom[4], midbottom[0], bottom));

    triangles.push((midtop[4], midtop[0], midbottom[0]));
    triangles.push((midtop[0], midtop[1], midbottom[1]));
    triangles.push((midtop[1], midtop[2], midbottom[2]));
    triangles.push((midtop[2], midtop[3], midbottom[3]));
    triangles.push((midtop[3], midtop[4], midbottom[4]));

    triangles.push((midbottom[1], midbottom[0], midtop[0]));
    triangles.push((midbottom[2], midbottom[1], midtop[1]));
    triangles.push((midbottom[3], midbottom[2], midtop[2]));
    triangles.push((midbottom[4], midbottom[3], midtop[3]));
    triangles.push((midbottom[0], midbottom[4], midtop[4]));

    // Refine
    let centre = s.centre();
    let mut refine = || {
        let n = triangles.len();
        for i in 0..n {
            let (a, b, c) = triangles[i];
            // interpolate
            let ab = (a + b) / 2.;
            let ac = (a + c) / 2.;
            let bc = (b + c) / 2.;
            // project into the sphere
            let ab = centre + (ab - centre).get_normalized() * r;
            let ac = centre + (ac - centre).get_normalized() * r;
            let bc = centre + (bc - centre).get_normalized() * r;

            // Replace existing one
            triangles[i] = (a, ab, ac);

            // push others at the back
            triangles.push((ab, b, bc));
            triangles.push((bc, c, ac));
            triangles.push((ab, bc, ac));
        }
    };

    for _ in 0..N_REFINEMENTS {
        refine()
    }

    // Transform
    let normals: Vec<(Vector3D, Vector3D, Vector3D)> = triangles
        .iter()
        .map(|vertex| {
            let n0 = (vertex.0 - centre).get_normalized();
            let n1 = (vertex.1 - centre).get_normalized();
            let n2 = (vertex.2 - centre).get_normalized();
            (n0, n1, n2)
        })
        .collect();
    let triangles: Vec<Triangle> = triangles
        .iter()
        .map(|vertex| {
            [
                vertex.0.x, vertex.0.y, vertex.0.z, vertex.1.x, vertex.1.y, vertex.1.z, vertex.2.x,
                vertex.2.y, vertex.2.z,
            ]
        })
        .collect();
    (triangles, normals)
}

